@@module wav src/vpx/wav.rs
@@broadcast vpin_base, vpin_seq, vpin_bytes
@@item const FMT_SIZE_MIN
@@item const FMT_SIZE_EXTENSIBLE
@@item struct WavHeader
@@item struct FmtChunk
@@fn is_chunk_id
    ensures r == id_ok(bytes@),
@@subst (?s)^\{\s*(\w+)\.iter\(\)\.all\(\|(\w+)\| (.*?)\)\s*\}\s*$ => { let mut __all = true; let mut __k: usize = 0; while __k < 4 invariant __k <= 4, __all == (forall|i: int| 0 <= i < __k ==> id_byte(#[trigger] bytes@[i])), decreases 4 - __k { let \2 = &\1[__k]; if !(\3) { __all = false; } __k += 1; } __all }
@@fn BytesMut::read_bytes_vec
    ensures r is Ok == (old(self)@.len() >= n), r is Ok ==> r->Ok_0@ == old(self)@.take(n as int) && final(self)@ == old(self)@.skip(n as int),
@@fn BytesMut::read_bytes
    ensures r is Ok == (old(self)@.len() >= N), r is Ok ==> r->Ok_0@ == old(self)@.take(N as int) && final(self)@ == old(self)@.skip(N as int),
@@fn BytesMut::read_u16_le
    ensures r is Ok == (old(self)@.len() >= 2), r is Ok ==> r->Ok_0 == u16_at(old(self)@, 0) && final(self)@ == old(self)@.skip(2),
@@fn BytesMut::read_u32_le
    ensures r is Ok == (old(self)@.len() >= 4), r is Ok ==> r->Ok_0 == u32_at(old(self)@, 0) && final(self)@ == old(self)@.skip(4),
@@fn BytesMut::expect_bytes
    ensures r is Ok == (old(self)@.len() >= N && old(self)@.take(N as int) == expected@), r is Ok ==> final(self)@ == old(self)@.skip(N as int),
@@subst &(\w+) != expected => !v_slice_eq(&\1, expected)
@@subst &(\w+) == expected => v_slice_eq(&\1, expected)
@@fn BytesMut::looks_like_stray_extension_size
    ensures r == stray(self@),
@@subst self\[(\d+)\.\.(\d+)\]\.try_into\(\)\.unwrap\(\) => self.v_arr::<4>(\1, \2)
@@fn read_fmt_chunk
    ensures r is Ok == (fmt_parse(fmt_size, old(reader)@) is Some), r is Ok ==> fmt_parse(fmt_size, old(reader)@) == Some((fmt_view(r->Ok_0), final(reader)@)),
@@start
    let ghost __d = reader@;
@@fn read_wav_header
    ensures r is Ok == (wav_parse(old(reader)@) is Some), r is Ok ==> wav_parse(old(reader)@) == Some((hdr_view(r->Ok_0), final(reader)@)),
@@start
    let ghost __d = reader@;
    proof { lemma_wav_ids(); lemma_wav_start(__d); }
@@loop 0
    invariant wav_parse(__d) == (match wav_chunks(fmt_opt(fmt), pre_fmt_fields@, extra_fields@, reader@) { Some((h, x)) => Some((HdrV { size: size, ..h }, x)), None => None }), __d == old(reader)@,
    decreases reader@.len(),
@@loop_start 0
    let ghost __c = reader@;
    let ghost __p = pre_fmt_fields@; let ghost __e = extra_fields@;
    proof { lemma_wav_ids(); lemma_wav_step(__c); }
@@loop_end 0
    proof {
        assert(b32(chunk_size) == b32(u32_at(__c, 4)));
        let n = pad(chunk_size as int);
        assert(payload@ == __c.skip(8).take(n));
        assert(__c.take(4) + b32(chunk_size) + payload@ == __c.take(8 + n));
        if fmt is Some { assert(extra_fields@ =~= __e + __c.take(8 + n)); } else { assert(pre_fmt_fields@ =~= __p + __c.take(8 + n)); }
    }
@@fn write_wav_header
    ensures final(writer)@ == old(writer)@ + wav_enc(hdr_view(*wav_header)),
@@start
    proof { lemma_wav_ids(); }
@@post
    reveal(wav_enc);
@@extra
pub open spec fn id_byte(b: u8) -> bool { 33 <= b <= 126 || b == 32 }
/// RIFF chunk names are printable
pub open spec fn id_ok(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < 4 ==> id_byte(#[trigger] s[i]) }
pub assume_specification[ u8::is_ascii_graphic ](b: &u8) -> (r: bool) ensures r == (33 <= *b <= 126);
pub open spec fn riff() -> Seq<u8> { seq![82u8, 73u8, 70u8, 70u8] }
pub open spec fn wave() -> Seq<u8> { seq![87u8, 65u8, 86u8, 69u8] }
pub open spec fn fmt_() -> Seq<u8> { seq![102u8, 109u8, 116u8, 32u8] }
pub open spec fn data_() -> Seq<u8> { seq![100u8, 97u8, 116u8, 97u8] }
pub open spec fn pad(n: int) -> int { n + n % 2 }
pub ghost struct FmtV { pub fmt_size: u32, pub format_tag: u16, pub channels: u16, pub samples_per_sec: u32, pub avg_bytes_per_sec: u32, pub block_align: u16, pub bits_per_sample: u16, pub ext: Option<u16>, pub fields: Seq<u8> }
pub ghost struct HdrV { pub size: u32, pub fmt: FmtV, pub pre: Seq<u8>, pub extra: Seq<u8>, pub data_size: u32 }
pub open spec fn fmt_view(f: FmtChunk) -> FmtV {
    FmtV { fmt_size: f.fmt_size, format_tag: f.format_tag, channels: f.channels, samples_per_sec: f.samples_per_sec, avg_bytes_per_sec: f.avg_bytes_per_sec, block_align: f.block_align, bits_per_sample: f.bits_per_sample, ext: f.extension_size, fields: f.extension_fields@ }
}
pub open spec fn fmt_opt(f: Option<FmtChunk>) -> Option<FmtV> { match f { Some(f) => Some(fmt_view(f)), None => None } }
pub open spec fn hdr_view(h: WavHeader) -> HdrV {
    HdrV { size: h.size, fmt: FmtV { fmt_size: h.fmt_size, format_tag: h.format_tag, channels: h.channels, samples_per_sec: h.samples_per_sec, avg_bytes_per_sec: h.avg_bytes_per_sec, block_align: h.block_align, bits_per_sample: h.bits_per_sample, ext: h.extension_size, fields: h.extension_fields@ },
        pre: h.pre_fmt_fields@, extra: h.extra_fields@, data_size: h.data_size }
}
/// an extension size that an older writer left out of the chunk's size
pub open spec fn stray(d: Seq<u8>) -> bool { d.len() >= 6 && !id_ok(d.subrange(0, 4)) && id_ok(d.subrange(2, 6)) }
/// the format chunk's fields, and what follows the chunk
pub open spec fn fmt_parse(size: u32, d: Seq<u8>) -> Option<(FmtV, Seq<u8>)> {
    if (size != 16 && size < 18) || d.len() < pad(size as int) { None } else {
        let c = d.take(pad(size as int)); let x = d.skip(pad(size as int));
        let f = FmtV { fmt_size: size, format_tag: u16_at(c, 0), channels: u16_at(c, 2), samples_per_sec: u32_at(c, 4), avg_bytes_per_sec: u32_at(c, 8), block_align: u16_at(c, 12), bits_per_sample: u16_at(c, 14), ext: None, fields: Seq::empty() };
        if size >= 18 { Some((FmtV { ext: Some(u16_at(c, 16)), fields: c.subrange(18, size as int), ..f }, x)) }
        else if stray(x) { Some((FmtV { ext: Some(u16_at(x, 0)), ..f }, x.skip(2))) }
        else { Some((f, x)) }
    }
}
/// the chunks up to the data chunk: the format chunk's fields, the others as they are, and what follows the data chunk's header
pub open spec fn wav_chunks(fmt: Option<FmtV>, pre: Seq<u8>, extra: Seq<u8>, d: Seq<u8>) -> Option<(HdrV, Seq<u8>)> decreases d.len() {
    if d.len() < 8 || !id_ok(d.take(4)) { None } else {
        let n = u32_at(d, 4); let x = d.skip(8);
        if d.take(4) == data_() { match fmt { Some(f) => Some((HdrV { size: 0, fmt: f, pre: pre, extra: extra, data_size: n }, x)), None => None } }
        else if d.take(4) == fmt_() {
            if fmt is Some { None } else { match fmt_parse(n, x) { Some((f, x2)) => if x2.len() <= x.len() { wav_chunks(Some(f), pre, extra, x2) } else { None }, None => None } }
        } else if x.len() < pad(n as int) { None }
        else if fmt is Some { wav_chunks(fmt, pre, extra + d.take(8 + pad(n as int)), x.skip(pad(n as int))) }
        else { wav_chunks(fmt, pre + d.take(8 + pad(n as int)), extra, x.skip(pad(n as int))) }
    }
}
/// a WAV file's header, and the bytes after it
pub open spec fn wav_parse(d: Seq<u8>) -> Option<(HdrV, Seq<u8>)> {
    if d.len() < 12 || d.take(4) != riff() || d.subrange(8, 12) != wave() { None }
    else { match wav_chunks(None, Seq::empty(), Seq::empty(), d.skip(12)) { Some((h, x)) => Some((HdrV { size: u32_at(d, 4), ..h }, x)), None => None } }
}
pub open spec fn ext_enc(f: FmtV) -> Seq<u8> { if f.ext is Some { b16(f.ext->0) + f.fields } else { Seq::empty() } }
pub open spec fn pad_enc(n: u32) -> Seq<u8> { if n % 2 == 1 { seq![0u8] } else { Seq::empty() } }
#[verifier::opaque] pub open spec fn wav_enc(h: HdrV) -> Seq<u8> {
    riff() + b32(h.size) + wave() + h.pre + fmt_() + b32(h.fmt.fmt_size) + b16(h.fmt.format_tag) + b16(h.fmt.channels) + b32(h.fmt.samples_per_sec) + b32(h.fmt.avg_bytes_per_sec)
        + b16(h.fmt.block_align) + b16(h.fmt.bits_per_sample) + ext_enc(h.fmt) + pad_enc(h.fmt.fmt_size) + h.extra + data_() + b32(h.data_size)
}
pub proof fn lemma_wav_ids()
    ensures [82u8, 73u8, 70u8, 70u8]@ == riff(), [87u8, 65u8, 86u8, 69u8]@ == wave(), [102u8, 109u8, 116u8, 32u8]@ == fmt_(), [100u8, 97u8, 116u8, 97u8]@ == data_(),
{
    assert([82u8, 73u8, 70u8, 70u8]@ =~= riff()); assert([87u8, 65u8, 86u8, 69u8]@ =~= wave()); assert([102u8, 109u8, 116u8, 32u8]@ =~= fmt_()); assert([100u8, 97u8, 116u8, 97u8]@ =~= data_());
}
pub proof fn lemma_wav_start(d: Seq<u8>)
    ensures d.len() >= 8 ==> u32_at(d.skip(4), 0) == u32_at(d, 4) && d.skip(4).skip(4) == d.skip(8),
        d.len() >= 12 ==> d.skip(8).skip(4) == d.skip(12) && d.skip(8).take(4) == d.subrange(8, 12),
{
    if d.len() >= 8 { assert(d.skip(4).skip(4) =~= d.skip(8)); assert(d.skip(4).subrange(0, 4) =~= d.subrange(4, 8)); }
    if d.len() >= 12 { assert(d.skip(8).skip(4) =~= d.skip(12)); assert(d.skip(8).take(4) =~= d.subrange(8, 12)); }
}
pub proof fn lemma_wav_step(c: Seq<u8>)
    ensures c.len() >= 8 ==> u32_at(c.skip(4), 0) == u32_at(c, 4) && c.skip(4).skip(4) == c.skip(8),
        forall|n: int| n >= 0 && c.len() >= 8 + n ==> c.take(4) + b32(u32_at(c, 4)) + #[trigger] c.skip(8).take(n) == c.take(8 + n),
{
    if c.len() >= 8 {
        assert(c.skip(4).skip(4) =~= c.skip(8)); assert(c.skip(4).subrange(0, 4) =~= c.subrange(4, 8)); lemma_le32(c.subrange(4, 8));
        assert forall|n: int| n >= 0 && c.len() >= 8 + n implies c.take(4) + b32(u32_at(c, 4)) + #[trigger] c.skip(8).take(n) == c.take(8 + n) by {
            assert(c.take(4) + c.subrange(4, 8) + c.skip(8).take(n) =~= c.take(8 + n));
        }
    }
}
/// whole chunks other than the format and the data chunk
pub open spec fn chunks_only(s: Seq<u8>) -> bool decreases s.len() {
    s.len() == 0 || (s.len() >= 8 && id_ok(s.take(4)) && s.take(4) != data_() && s.take(4) != fmt_() && s.len() >= 8 + pad(u32_at(s, 4) as int) && chunks_only(s.skip(8 + pad(u32_at(s, 4) as int))))
}
pub open spec fn fmt_ok(f: FmtV) -> bool {
    if f.fmt_size >= 18 { f.ext is Some && f.fields.len() == f.fmt_size - 18 }
    else { f.fmt_size == 16 && f.fields.len() == 0 && (f.ext is Some ==> !(id_byte(b16(f.ext->0)[0]) && id_byte(b16(f.ext->0)[1]))) }
}
/// the headers a WAV file can carry
pub open spec fn hdr_ok(h: HdrV) -> bool { fmt_ok(h.fmt) && chunks_only(h.pre) && chunks_only(h.extra) }
pub proof fn lemma_chunks(fmt: Option<FmtV>, pre: Seq<u8>, extra: Seq<u8>, s: Seq<u8>, x: Seq<u8>)
    requires chunks_only(s),
    ensures wav_chunks(fmt, pre, extra, s + x) == (if fmt is Some { wav_chunks(fmt, pre, extra + s, x) } else { wav_chunks(fmt, pre + s, extra, x) }),
    decreases s.len(),
{
    broadcast use vpin_base;
    if s.len() == 0 { assert(s + x =~= x); assert(pre + s =~= pre); assert(extra + s =~= extra); }
    else {
        let d = s + x; let n = pad(u32_at(s, 4) as int); let c = s.take(8 + n); let r = s.skip(8 + n);
        assert(d.take(4) =~= s.take(4)); assert(d.subrange(4, 8) =~= s.subrange(4, 8)); assert(d.take(8 + n) =~= c); assert(d.skip(8).skip(n) =~= r + x);
        assert(c + r =~= s);
        if fmt is Some { lemma_chunks(fmt, pre, extra + c, r, x); assert((extra + c) + r =~= extra + s); }
        else { lemma_chunks(fmt, pre + c, extra, r, x); assert((pre + c) + r =~= pre + s); }
    }
}
pub open spec fn fmt_body(f: FmtV) -> Seq<u8> {
    b16(f.format_tag) + b16(f.channels) + b32(f.samples_per_sec) + b32(f.avg_bytes_per_sec) + b16(f.block_align) + b16(f.bits_per_sample) + ext_enc(f) + pad_enc(f.fmt_size)
}
pub proof fn lemma_ids()
    ensures id_ok(data_()), id_ok(fmt_()), data_() != fmt_(), data_().len() == 4, fmt_().len() == 4, riff().len() == 4, wave().len() == 4,
{ assert(data_()[0] != fmt_()[0]); }
/// what follows a format chunk starts with a chunk's name
pub open spec fn starts_id(x: Seq<u8>) -> bool { x.len() >= 8 && id_ok(x.take(4)) }
pub proof fn lemma_fmt(f: FmtV, x: Seq<u8>)
    requires fmt_ok(f), starts_id(x),
    ensures fmt_parse(f.fmt_size, fmt_body(f) + x) == Some((f, x)),
{
    broadcast use vpin_base;
    let d = fmt_body(f) + x; let e = ext_enc(f); let z = pad_enc(f.fmt_size);
    lemma_b16(f.format_tag); lemma_b16(f.channels); lemma_b16(f.block_align); lemma_b16(f.bits_per_sample); lemma_b32(f.samples_per_sec); lemma_b32(f.avg_bytes_per_sec);
    let h = b16(f.format_tag) + b16(f.channels) + b32(f.samples_per_sec) + b32(f.avg_bytes_per_sec) + b16(f.block_align) + b16(f.bits_per_sample);
    assert(h.len() == 16);
    assert(h.subrange(0, 2) =~= b16(f.format_tag)); assert(h.subrange(2, 4) =~= b16(f.channels)); assert(h.subrange(4, 8) =~= b32(f.samples_per_sec));
    assert(h.subrange(8, 12) =~= b32(f.avg_bytes_per_sec)); assert(h.subrange(12, 14) =~= b16(f.block_align)); assert(h.subrange(14, 16) =~= b16(f.bits_per_sample));
    let n = pad(f.fmt_size as int);
    assert(d == h + e + z + x);
    if f.fmt_size >= 18 {
        let ext = f.ext->0;
        lemma_b16(ext);
        assert(e =~= b16(ext) + f.fields);
        assert(z.len() == f.fmt_size % 2);
        assert((h + e + z).len() == n);
        let c = d.take(n);
        assert(c =~= h + e + z);
        assert(c.take(16) =~= h); lemma_heads(h, c);
        assert(c.subrange(16, 18) =~= b16(ext));
        assert(c.subrange(18, f.fmt_size as int) =~= f.fields);
        assert(d.skip(n) =~= x);
    } else {
        assert(z.len() == 0);
        let c = d.take(16);
        assert(c =~= h);
        if f.ext is Some {
            let ext = f.ext->0;
            lemma_b16(ext);
            let y = d.skip(16);
            assert(y =~= b16(ext) + x);
            assert(y.subrange(0, 2) =~= b16(ext));
            assert(y.skip(2) =~= x);
            assert(y.subrange(2, 6) =~= x.take(4));
            assert(y.subrange(0, 4)[0] == b16(ext)[0] && y.subrange(0, 4)[1] == b16(ext)[1]);
            assert(stray(y));
        } else {
            assert(d.skip(16) =~= x);
            assert(x.subrange(0, 4) =~= x.take(4));
            assert(!stray(x));
        }
        assert(f.fields =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_heads(h: Seq<u8>, c: Seq<u8>)
    requires h.len() == 16, c.len() >= 16, c.take(16) == h,
    ensures c.subrange(0, 2) == h.subrange(0, 2), c.subrange(2, 4) == h.subrange(2, 4), c.subrange(4, 8) == h.subrange(4, 8), c.subrange(8, 12) == h.subrange(8, 12), c.subrange(12, 14) == h.subrange(12, 14), c.subrange(14, 16) == h.subrange(14, 16),
{
    let t = c.take(16);
    assert(c.subrange(0, 2) =~= t.subrange(0, 2)); assert(c.subrange(2, 4) =~= t.subrange(2, 4)); assert(c.subrange(4, 8) =~= t.subrange(4, 8)); assert(c.subrange(8, 12) =~= t.subrange(8, 12)); assert(c.subrange(12, 14) =~= t.subrange(12, 14)); assert(c.subrange(14, 16) =~= t.subrange(14, 16));
}
/// every header a WAV file can carry is read back as written, whatever follows it
pub proof fn lemma_wav(h: HdrV, x: Seq<u8>)
    requires hdr_ok(h),
    ensures wav_parse(wav_enc(h) + x) == Some((h, x)),
{
    broadcast use vpin_base;
    reveal(wav_enc);
    lemma_ids();
    let f = h.fmt; let none: Option<FmtV> = None; let nil = Seq::<u8>::empty();
    lemma_b32(h.size); lemma_b32(f.fmt_size); lemma_b32(h.data_size);
    let t3 = data_() + b32(h.data_size) + x;
    let t2 = h.extra + t3;
    let body = fmt_body(f);
    let t1 = fmt_() + b32(f.fmt_size) + (body + t2);
    let t0 = h.pre + t1;
    let d = wav_enc(h) + x;
    assert(d =~= riff() + b32(h.size) + wave() + t0);
    assert(d.take(4) =~= riff()); assert(d.subrange(4, 8) =~= b32(h.size)); assert(d.subrange(8, 12) =~= wave()); assert(d.skip(12) =~= t0);
    lemma_chunks(none, nil, nil, h.pre, t1);
    assert(nil + h.pre =~= h.pre); assert(nil + h.extra =~= h.extra);
    // the format chunk
    assert(t1.take(4) =~= fmt_()); assert(t1.subrange(4, 8) =~= b32(f.fmt_size)); assert(t1.skip(8) =~= body + t2);
    assert(t3.take(4) =~= data_());
    if h.extra.len() == 0 { assert(t2 =~= t3); } else { assert(t2.take(4) =~= h.extra.take(4)); }
    lemma_fmt(f, t2);
    assert(wav_chunks(none, h.pre, nil, t1) == wav_chunks(Some(f), h.pre, nil, t2));
    lemma_chunks(Some(f), h.pre, nil, h.extra, t3);
    assert(t3.subrange(4, 8) =~= b32(h.data_size)); assert(t3.skip(8) =~= x);
    assert(wav_chunks(Some(f), h.pre, h.extra, t3) == Some((HdrV { size: 0, fmt: f, pre: h.pre, extra: h.extra, data_size: h.data_size }, x)));
}
/// the pair of real functions: a header that is written is read back
pub fn wav_roundtrip(h: &WavHeader) -> (r: Option<WavHeader>)
    requires hdr_ok(hdr_view(*h)),
    ensures r is Some, hdr_view(r->0) == hdr_view(*h),
{
    let mut buf = BytesMut::with_capacity(44);
    write_wav_header(h, &mut buf);
    proof { lemma_wav(hdr_view(*h), Seq::empty()); assert(buf@ =~= wav_enc(hdr_view(*h)) + Seq::<u8>::empty()); }
    match read_wav_header(&mut buf) { Ok(r) => Some(r), Err(_) => None }
}
