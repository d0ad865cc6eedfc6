//! Sounds as WAV files: extracted bytes are a RIFF file with the sound's format fields, and reading them gives the sound back.
use replay::oracle::*;
use replay::parts::*;
use replay::wavs::*;
use replay::*;
use vpin::vpx::sound::{SoundData, WaveForm, read_sound, write_sound};

fn empty_like(x: &SoundData) -> SoundData {
    let mut y = sound_copy(x);
    y.data = vec![1, 2, 3];
    y.wave_form = WaveForm::default();
    y
}
fn is_wav(path: &str) -> bool {
    SOUND_PATHS.iter().find(|p| p.0 == path).unwrap().1
}
/// what a sound in a table can hold: PCM has no extension size
fn table_sound(r: &mut Rng) -> SoundData {
    let mut x = sound(r, 1080);
    if r.bool() {
        x.wave_form.format_tag = *r.pick(&[1, 1, 2, 3, 17, 0x55, 0xfffe]);
    }
    if !is_wav(&x.path) {
        x.wave_form = WaveForm::default();
    }
    if x.wave_form.format_tag == 1 {
        x.wave_form.cb_size = 0;
    }
    x
}
fn back(r: &mut Rng, _: usize) -> R {
    let x = table_sound(r);
    let b = write_sound(&x);
    let mut y = empty_like(&x);
    read_sound(&b, &mut y).map_err(|e| e.to_string())?;
    same_dbg("format", &y.wave_form, &x.wave_form)?;
    sound_same("sound read back", &y, &x)
}
fn file(r: &mut Rng, _: usize) -> R {
    let x = table_sound(r);
    let b = write_sound(&x);
    if !is_wav(&x.path) {
        return bytes_eq("the file of a sound that is not a WAV", &b, &x.data);
    }
    let w = &x.wave_form;
    // RIFF, WAVE, a fmt chunk that holds every field, then the data chunk with the samples
    bytes_eq("RIFF", &b[..4], b"RIFF")?;
    bytes_eq("WAVE", &b[8..16], b"WAVEfmt ")?;
    let n = u32::from_le_bytes(b[16..20].try_into().unwrap()) as usize;
    check(n == 16 || n >= 18, || format!("fmt chunk of {n} bytes"))?;
    let f = [le16(w.format_tag), le16(w.channels), le32(w.samples_per_sec), le32(w.avg_bytes_per_sec), le16(w.block_align), le16(w.bits_per_sample)].concat();
    bytes_eq("fmt chunk", &b[20..36], &f)?;
    let d = 20 + n + n % 2;
    bytes_eq("data chunk", &b[d..d + 4], b"data")?;
    bytes_eq("samples", &b[d + 8..], &x.data)?;
    if w.format_tag == 1 {
        bytes_eq("data size", &b[d + 4..d + 8], &le32(x.data.len() as u32))?;
    }
    Ok(())
}
/// WAV files from elsewhere: any chunks around the fmt chunk
fn foreign(r: &mut Rng, _: usize) -> R {
    let mut x = sound(r, 1080);
    while !is_wav(&x.path) {
        x = sound(r, 1080);
    }
    let mut h = header(r);
    if r.bool() {
        h.format_tag = 1;
    }
    let b = [header_bytes(&h), x.data.clone()].concat();
    x.wave_form = WaveForm {
        format_tag: h.format_tag,
        channels: h.channels,
        samples_per_sec: h.samples_per_sec,
        avg_bytes_per_sec: h.avg_bytes_per_sec,
        block_align: h.block_align,
        bits_per_sample: h.bits_per_sample,
        cb_size: if h.format_tag == 1 { 0 } else { h.data_size as u16 },
    };
    let mut y = empty_like(&x);
    read_sound(&b, &mut y).map_err(|e| e.to_string())?;
    sound_same("sound of a foreign WAV file", &y, &x)
}
/// the raw format block inside a table stream
fn raw(r: &mut Rng, _: usize) -> R {
    let version = *r.pick(&[1, 600, 1030, 1031, 1080]);
    let mut v = vpin::vpx::VPX { version: vpin::vpx::version::Version::new(version), ..Default::default() };
    let x = sound(r, version);
    v.sounds.push(sound_copy(&x));
    v.gamedata.sounds_size = 1;
    let b = vpin::vpx::to_bytes(&v).map_err(|e| e.to_string())?;
    let y = vpin::vpx::from_bytes(&b).map_err(|e| e.to_string())?;
    same("sound count", &y.sounds.len(), &1)?;
    sound_same("sound through a table", &y.sounds[0], &x)
}
fn main() {
    main_with(&[
        Check { name: "sound to WAV and back", n: 3000, f: back },
        Check { name: "WAV file bytes", n: 3000, f: file },
        Check { name: "foreign WAV files", n: 3000, f: foreign },
        Check { name: "raw format block", n: 60, f: raw },
    ]);
}
