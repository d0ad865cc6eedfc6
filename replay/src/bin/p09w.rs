//! The WAV header codec itself, compiled from /repo's source file.
use replay::wavs;
use replay::*;
#[allow(dead_code)]
#[path = "/repo/src/vpx/wav.rs"]
mod wav;
use bytes::BytesMut;
use wav::{WavHeader, read_wav_header, write_wav_header};

fn real(h: &wavs::Header) -> WavHeader {
    WavHeader {
        size: h.size,
        fmt_size: h.fmt_size,
        format_tag: h.format_tag,
        channels: h.channels,
        samples_per_sec: h.samples_per_sec,
        avg_bytes_per_sec: h.avg_bytes_per_sec,
        block_align: h.block_align,
        bits_per_sample: h.bits_per_sample,
        extension_size: h.extension_size,
        extension_fields: h.extension_fields.clone(),
        pre_fmt_fields: h.pre_fmt_fields.clone(),
        extra_fields: h.extra_fields.clone(),
        data_size: h.data_size,
    }
}
fn header(r: &mut Rng, _: usize) -> R {
    let h = wavs::header(r);
    let mut b = BytesMut::new();
    write_wav_header(&real(&h), &mut b);
    bytes_eq("header", &b, &wavs::header_bytes(&h))?;
    let tail = r.bytes(20);
    b.extend_from_slice(&tail);
    let got = read_wav_header(&mut b).map_err(|e| e.to_string())?;
    same("header read back", &got, &real(&h))?;
    bytes_eq("what follows the header", &b, &tail)
}
fn main() {
    main_with(&[Check { name: "WAV header", n: 6000, f: header }]);
}
