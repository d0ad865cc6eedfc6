@@module sound src/vpx/sound.rs
@@broadcast vpin_base, vpin_str, vpin_seq, axiom_mk_string, axiom_mk_vec
@@item const NEW_SOUND_FORMAT_VERSION
@@item struct SoundData
@@item struct WaveForm
@@fn WaveForm::new
    ensures r == wave_default(),
@@item const WAV_HEADER_SIZE
@@fn write_wav_header2
    requires sound_data.data@.len() + 36 <= u32::MAX,
    ensures r@ == wav_enc(snd_hdr(*sound_data)),
@@fn WaveForm::from@From<WavHeader>
    ensures r == form_of(hdr_view(header)),
@@rename from_wav_header
@@fn write_sound
    requires sound_data.data@.len() + 44 <= u32::MAX,
    ensures r@ == snd_file(*sound_data),
@@fn read_sound
    ensures r is Ok == (file_snd(data@, snd_view(*old(sound_data))) is Some), r is Ok ==> Some(snd_view(*final(sound_data))) == file_snd(data@, snd_view(*old(sound_data))),
@@fn is_wav
@@external
    ensures r == is_wav_path(path@),
@@fn read_wave_form
    requires old(reader).pos + 18 <= old(reader).data@.len(),
    ensures r == wave_of(old(reader).data@.skip(old(reader).pos as int)), final(reader).adv(old(reader), 18),
@@fn write_wave_form
    requires old(writer).wf(),
    ensures final(writer).wf(), final(writer).data@ == old(writer).data@ + wave_enc(*wave_form), final(writer).open() == old(writer).open(),
@@post
    reveal(wave_enc);
    assert(writer.data@ =~= old(writer).data@ + wave_enc(*wave_form));
@@fn read
    requires old(reader).pos <= old(reader).data@.len(), snd_parse(snd_count(file_version.0), old(reader).data@.skip(old(reader).pos as int)) is Some,
    ensures Some((snd_view(r), final(reader).data@.skip(final(reader).pos as int))) == snd_parse(snd_count(file_version.0), old(reader).data@.skip(old(reader).pos as int)),
@@start
    let ghost __d = reader.data@.skip(reader.pos as int);
    let ghost __n = snd_count(file_version.0);
    proof { reveal_strlit(""); }
@@before_loop 0
    assert(name@ =~= Seq::<char>::empty() && path@ =~= Seq::<char>::empty() && internal_name@ =~= Seq::<char>::empty() && data@ =~= Seq::<u8>::empty());
@@loop 0
    invariant
        reader.pos <= reader.data@.len(), reader.data == old(reader).data, reader.data@.len() <= isize::MAX,
        num_values == __n, __n == 6 || __n == 10, snd_parse(__n, __d) is Some,
        __d == old(reader).data@.skip(old(reader).pos as int),
        snd_parse(i as nat, __d) == Some((SoundV { name: name@, path: path@, wave_form: wave_form, data: data@, internal_name: internal_name@, fade: fade, volume: volume, balance: balance, output_target: output_target }, reader.data@.skip(reader.pos as int))),
@@loop_start 0
    proof { lemma_snd_prefix(__d, (i + 1) as nat, __n); reveal_with_fuel(snd_parse, 2); }
    let ghost __p = reader.pos as int;
    let ghost __r = reader.data@.skip(__p);
    proof { if i != 3 && i != 5 { assert(u32_at(__r, 0) == u32_at(reader.data@, __p)) by { assert(__r.subrange(0, 4) =~= reader.data@.subrange(__p, __p + 4)); } } }
@@loop_end 0
    proof {
        assert(reader.data@.skip(reader.pos as int) =~= __r.skip(reader.pos - __p));
        if i <= 4 && i != 3 { assert(__r.subrange(4, 4 + u32_at(__r, 0)) =~= reader.data@.subrange(__p + 4, __p + 4 + u32_at(__r, 0))); }
    }
@@fn write
    requires old(writer).wf(), !old(writer).open(), snd_ok(*sound),
    ensures final(writer).wf(), final(writer).data@ == old(writer).data@ + snd_enc(file_version.0, *sound),
@@post
    reveal(snd_enc);
    assert(writer.data@ =~= old(writer).data@ + snd_enc(file_version.0, *sound));
@@extra
impl VInto<WaveForm> for WavHeader {
    open spec fn into_ok(self) -> bool { true }
    open spec fn into_is(self, r: WaveForm) -> bool { r == form_of(hdr_view(self)) }
    fn v_into(self) -> (r: WaveForm) { WaveForm::from_wav_header(self) }
}
pub open spec fn form_of(h: HdrV) -> WaveForm {
    WaveForm { format_tag: h.fmt.format_tag, channels: h.fmt.channels, samples_per_sec: h.fmt.samples_per_sec, avg_bytes_per_sec: h.fmt.avg_bytes_per_sec, block_align: h.fmt.block_align, bits_per_sample: h.fmt.bits_per_sample, cb_size: 0 }
}
/// the header of a sound's WAV file; formats other than PCM keep the extension's size where the samples' length is
pub open spec fn snd_hdr(s: SoundData) -> HdrV {
    let w = s.wave_form; let pcm = w.format_tag == 1;
    HdrV { size: (s.data@.len() + 36) as u32,
        fmt: FmtV { fmt_size: if pcm { 16u32 } else { 18u32 }, format_tag: w.format_tag, channels: w.channels, samples_per_sec: w.samples_per_sec, avg_bytes_per_sec: w.avg_bytes_per_sec, block_align: w.block_align, bits_per_sample: w.bits_per_sample,
            ext: if pcm { None } else { Some(0u16) }, fields: Seq::empty() },
        pre: Seq::empty(), extra: Seq::empty(), data_size: if pcm { s.data@.len() as u32 } else { w.cb_size as u32 } }
}
/// the file a sound is extracted to
pub open spec fn snd_file(s: SoundData) -> Seq<u8> { if is_wav_path(s.path@) { wav_enc(snd_hdr(s)) + s.data@ } else { s.data@ } }
/// what a sound becomes when such a file is read into it
pub open spec fn file_snd(d: Seq<u8>, s: SoundV) -> Option<SoundV> {
    if is_wav_path(s.path) {
        match wav_parse(d) {
            Some((h, x)) => Some(SoundV { data: x, wave_form: WaveForm { cb_size: if h.fmt.format_tag == 1 { 0u16 } else { h.data_size as u16 }, ..form_of(h) }, ..s }),
            None => None,
        }
    } else { Some(SoundV { data: d, ..s }) }
}
/// PCM has no extension; a file that is not a WAV keeps no format
pub open spec fn file_kept(s: SoundData, t: SoundV) -> bool { if is_wav_path(s.path@) { s.wave_form.format_tag == 1 ==> s.wave_form.cb_size == 0 } else { t.wave_form == s.wave_form } }
/// a sound's file gives its format and samples back to a sound of the same path
pub proof fn lemma_snd_file(s: SoundData, t: SoundV)
    requires t.path == s.path@, s.data@.len() + 44 <= u32::MAX, file_kept(s, t),
    ensures file_snd(snd_file(s), t) == Some(SoundV { data: s.data@, wave_form: s.wave_form, ..t }),
{
    if is_wav_path(s.path@) {
        let h = snd_hdr(s);
        lemma_wav(h, s.data@);
        let c = s.wave_form.cb_size;
        assert((c as u32) as u16 == c) by (bit_vector);
    }
}
/// the pair of real functions: extracting a sound's file and reading it into a sound of the same path
pub fn sound_file_roundtrip(s: &SoundData, t: &mut SoundData) -> (r: bool)
    requires old(t).path@ == s.path@, s.data@.len() + 44 <= u32::MAX, file_kept(*s, snd_view(*old(t))),
    ensures r, snd_view(*final(t)) == (SoundV { data: s.data@, wave_form: s.wave_form, ..snd_view(*old(t)) }),
{
    proof { lemma_snd_file(*s, snd_view(*t)); }
    let d = write_sound(s);
    read_sound(d.as_slice(), t).is_ok()
}
/// the path alone decides whether the sample bytes are a WAV's (std Path::extension, compared without case)
pub uninterp spec fn is_wav_path(s: Seq<char>) -> bool;
pub open spec fn wave_default() -> WaveForm { WaveForm { format_tag: 1, channels: 1, samples_per_sec: 44100, avg_bytes_per_sec: 88200, block_align: 2, bits_per_sample: 16, cb_size: 0 } }
pub open spec fn wave_of(d: Seq<u8>) -> WaveForm {
    WaveForm { format_tag: u16_at(d, 0), channels: u16_at(d, 2), samples_per_sec: u32_at(d, 4), avg_bytes_per_sec: u32_at(d, 8), block_align: u16_at(d, 12), bits_per_sample: u16_at(d, 14), cb_size: u16_at(d, 16) }
}
#[verifier::opaque] pub open spec fn wave_enc(w: WaveForm) -> Seq<u8> { b16(w.format_tag) + b16(w.channels) + b32(w.samples_per_sec) + b32(w.avg_bytes_per_sec) + b16(w.block_align) + b16(w.bits_per_sample) + b16(w.cb_size) }
/// a sound, its texts and samples as values
pub struct SoundV { pub name: Seq<char>, pub path: Seq<char>, pub wave_form: WaveForm, pub data: Seq<u8>, pub internal_name: Seq<char>, pub fade: u32, pub volume: u32, pub balance: u32, pub output_target: OutputTarget }
pub open spec fn snd_view(s: SoundData) -> SoundV {
    SoundV { name: s.name@, path: s.path@, wave_form: s.wave_form, data: s.data@, internal_name: s.internal_name@, fade: s.fade, volume: s.volume, balance: s.balance, output_target: s.output_target }
}
pub open spec fn snd_start() -> SoundV {
    SoundV { name: Seq::empty(), path: Seq::empty(), wave_form: wave_default(), data: Seq::empty(), internal_name: Seq::empty(), fade: 0, volume: 0, balance: 0, output_target: OutputTarget::Table }
}
/// formats before 1031 end after the output target
pub open spec fn snd_count(v: u32) -> nat { if v < 1031 { 6 } else { 10 } }
pub open spec fn lp_ok(d: Seq<u8>) -> bool { d.len() >= 4 && d.len() >= 4 + u32_at(d, 0) }
pub open spec fn lp(d: Seq<u8>) -> Seq<u8> { d.subrange(4, 4 + u32_at(d, 0)) }
pub open spec fn lp_rest(d: Seq<u8>) -> Seq<u8> { d.skip(4 + u32_at(d, 0)) }
/// the k-th value of a sound's stream
pub open spec fn snd_one(k: nat, s: SoundV, d: Seq<u8>) -> Option<(SoundV, Seq<u8>)> {
    if k == 0 { if lp_ok(d) { Some((SoundV { name: latin1_dec(until0(lp(d))), ..s }, lp_rest(d))) } else { None } }
    else if k == 1 { if lp_ok(d) { Some((SoundV { path: latin1_dec(until0(lp(d))), ..s }, lp_rest(d))) } else { None } }
    else if k == 2 { if lp_ok(d) { Some((SoundV { internal_name: latin1_dec(until0(lp(d))), ..s }, lp_rest(d))) } else { None } }
    else if k == 3 { if is_wav_path(s.path) { if d.len() >= 18 { Some((SoundV { wave_form: wave_of(d), ..s }, d.skip(18))) } else { None } } else { Some((s, d)) } }
    else if k == 4 { if lp_ok(d) { Some((SoundV { data: lp(d), ..s }, lp_rest(d))) } else { None } }
    else if k == 5 { if d.len() >= 1 && OutputTarget_dom(d[0]) { Some((SoundV { output_target: OutputTarget_of(d[0]), ..s }, d.skip(1))) } else { None } }
    else if d.len() < 4 { None }
    else if k == 7 { Some((SoundV { balance: u32_at(d, 0), ..s }, d.skip(4))) }
    else if k == 8 { Some((SoundV { fade: u32_at(d, 0), ..s }, d.skip(4))) }
    else { Some((SoundV { volume: u32_at(d, 0), ..s }, d.skip(4))) }
}
pub open spec fn snd_parse(n: nat, d: Seq<u8>) -> Option<(SoundV, Seq<u8>)> decreases n {
    if n == 0 { Some((snd_start(), d)) } else { match snd_parse((n - 1) as nat, d) { Some((s, r)) => snd_one((n - 1) as nat, s, r), None => None } }
}
pub proof fn lemma_snd_prefix(d: Seq<u8>, k: nat, n: nat) requires k <= n, snd_parse(n, d) is Some ensures snd_parse(k, d) is Some decreases n { if k < n { lemma_snd_prefix(d, k, (n - 1) as nat); } }
pub open spec fn snd_ok(s: SoundData) -> bool { str_valid(s.name@) && str_valid(s.path@) && str_valid(s.internal_name@) && s.data@.len() <= 0x7fff_ffff }
#[verifier::opaque] pub open spec fn snd_enc(v: u32, s: SoundData) -> Seq<u8> {
    pl_str(s.name@) + pl_str(s.path@) + (if s.internal_name@.len() == 0 { b32(1) + seq![0u8] } else { pl_str(s.internal_name@) })
        + (if is_wav_path(s.path@) { wave_enc(s.wave_form) } else { Seq::empty() }) + (b32(s.data@.len() as u32) + s.data@) + seq![OutputTarget_num(s.output_target)]
        + (if v >= 1031 { b32(s.volume) + b32(s.balance) + b32(s.fade) + b32(s.volume) } else { Seq::empty() })
}
pub proof fn lemma_lp(p: Seq<u8>, x: Seq<u8>)
    requires p.len() <= 0x7fff_ffff,
    ensures ({ let d = b32(p.len() as u32) + p + x; lp_ok(d) && lp(d) == p && lp_rest(d) == x && d.len() == 4 + p.len() + x.len() }),
{
    broadcast use vpin_base;
    let d = b32(p.len() as u32) + p + x;
    assert(d.subrange(0, 4) =~= b32(p.len() as u32));
    assert(lp(d) =~= p);
    assert(lp_rest(d) =~= x);
}
pub proof fn lemma_lp_str(s: Seq<char>, x: Seq<u8>)
    requires str_valid(s),
    ensures ({ let d = pl_str(s) + x; lp_ok(d) && latin1_dec(until0(lp(d))) == s && lp_rest(d) == x }),
{
    lemma_latin1(s);
    lemma_lp(latin1_enc(s), x);
    lemma_until0(latin1_enc(s), s.len() as int);
    assert(latin1_enc(s).take(s.len() as int) =~= latin1_enc(s));
}
pub proof fn lemma_wave(w: WaveForm, x: Seq<u8>)
    ensures wave_enc(w).len() == 18, wave_of(wave_enc(w) + x) == w, (wave_enc(w) + x).skip(18) == x,
{
    broadcast use vpin_base;
    reveal(wave_enc);
    let d = wave_enc(w) + x;
    assert(d.subrange(0, 2) =~= b16(w.format_tag)); assert(d.subrange(2, 4) =~= b16(w.channels)); assert(d.subrange(4, 8) =~= b32(w.samples_per_sec)); assert(d.subrange(8, 12) =~= b32(w.avg_bytes_per_sec));
    assert(d.subrange(12, 14) =~= b16(w.block_align)); assert(d.subrange(14, 16) =~= b16(w.bits_per_sample)); assert(d.subrange(16, 18) =~= b16(w.cb_size));
    lemma_b16(w.format_tag); lemma_b16(w.channels); lemma_b16(w.block_align); lemma_b16(w.bits_per_sample); lemma_b16(w.cb_size);
    lemma_b32(w.samples_per_sec); lemma_b32(w.avg_bytes_per_sec);
    assert(d.skip(18) =~= x);
}
/// what a version's stream can carry of a sound
pub open spec fn snd_kept(v: u32, s: SoundData) -> bool { (is_wav_path(s.path@) || s.wave_form == wave_default()) && (v >= 1031 || (s.volume == 0 && s.balance == 0 && s.fade == 0)) }
pub proof fn lemma_snd_step(n: nat, d: Seq<u8>, s: SoundV, r: Seq<u8>) requires snd_parse(n, d) == Some((s, r)) ensures snd_parse(n + 1, d) == snd_one(n, s, r) {}
pub open spec fn nm_enc(t: Seq<char>) -> Seq<u8> { if t.len() == 0 { b32(1) + seq![0u8] } else { pl_str(t) } }
pub open spec fn wv_enc(s: SoundData) -> Seq<u8> { if is_wav_path(s.path@) { wave_enc(s.wave_form) } else { Seq::empty() } }
pub open spec fn tail_enc(v: u32, s: SoundData) -> Seq<u8> { if v >= 1031 { b32(s.volume) + b32(s.balance) + b32(s.fade) + b32(s.volume) } else { Seq::empty() } }
pub proof fn snd_s0(s: SoundV, t: Seq<char>, x: Seq<u8>) requires str_valid(t) ensures snd_one(0, s, pl_str(t) + x) == Some((SoundV { name: t, ..s }, x)) { lemma_lp_str(t, x); }
pub proof fn snd_s1(s: SoundV, t: Seq<char>, x: Seq<u8>) requires str_valid(t) ensures snd_one(1, s, pl_str(t) + x) == Some((SoundV { path: t, ..s }, x)) { lemma_lp_str(t, x); }
pub proof fn snd_s2(s: SoundV, t: Seq<char>, x: Seq<u8>) requires str_valid(t) ensures snd_one(2, s, nm_enc(t) + x) == Some((SoundV { internal_name: t, ..s }, x))
{
    if t.len() == 0 {
        lemma_lp(seq![0u8], x);
        assert(until0(seq![0u8]) =~= Seq::<u8>::empty());
        assert(latin1_dec(Seq::<u8>::empty()) =~= t);
    } else { lemma_lp_str(t, x); }
}
pub proof fn snd_s3(s: SoundV, m: SoundData, x: Seq<u8>) requires s.path == m.path@, is_wav_path(m.path@) || m.wave_form == s.wave_form ensures snd_one(3, s, wv_enc(m) + x) == Some((SoundV { wave_form: m.wave_form, ..s }, x))
{ lemma_wave(m.wave_form, x); assert(Seq::<u8>::empty() + x =~= x); }
pub proof fn snd_s4(s: SoundV, p: Seq<u8>, x: Seq<u8>) requires p.len() <= 0x7fff_ffff ensures snd_one(4, s, (b32(p.len() as u32) + p) + x) == Some((SoundV { data: p, ..s }, x)) { lemma_lp(p, x); }
pub proof fn snd_s5(s: SoundV, o: OutputTarget, x: Seq<u8>) ensures snd_one(5, s, seq![OutputTarget_num(o)] + x) == Some((SoundV { output_target: o, ..s }, x))
{ let d = seq![OutputTarget_num(o)] + x; assert(d[0] == OutputTarget_num(o)); assert(d.skip(1) =~= x); }
pub proof fn snd_s6(k: nat, s: SoundV, v: u32, x: Seq<u8>) requires 6 <= k <= 9
    ensures snd_one(k, s, b32(v) + x) == Some((if k == 7 { SoundV { balance: v, ..s } } else if k == 8 { SoundV { fade: v, ..s } } else { SoundV { volume: v, ..s } }, x))
{ lemma_b32(v); let d = b32(v) + x; assert(d.subrange(0, 4) =~= b32(v)); assert(d.skip(4) =~= x); }
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + b + c == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
pub proof fn lemma_snd_head(v: u32, s: SoundData, x: Seq<u8>)
    ensures snd_enc(v, s) + x == pl_str(s.name@) + (pl_str(s.path@) + (nm_enc(s.internal_name@) + (wv_enc(s) + ((b32(s.data@.len() as u32) + s.data@) + (seq![OutputTarget_num(s.output_target)] + (tail_enc(v, s) + x))))))
{
    reveal(snd_enc);
    let p0 = pl_str(s.name@); let p1 = pl_str(s.path@); let p2 = nm_enc(s.internal_name@); let p3 = wv_enc(s); let p4 = b32(s.data@.len() as u32) + s.data@; let p5 = seq![OutputTarget_num(s.output_target)]; let p6 = tail_enc(v, s);
    assert(snd_enc(v, s) == p0 + p1 + p2 + p3 + p4 + p5 + p6);
    lemma_cat(p0 + p1 + p2 + p3 + p4 + p5, p6, x); let q6 = p6 + x;
    lemma_cat(p0 + p1 + p2 + p3 + p4, p5, q6); let q5 = p5 + q6;
    lemma_cat(p0 + p1 + p2 + p3, p4, q5); let q4 = p4 + q5;
    lemma_cat(p0 + p1 + p2, p3, q4); let q3 = p3 + q4;
    lemma_cat(p0 + p1, p2, q3); let q2 = p2 + q3;
    lemma_cat(p0, p1, q2);
}
pub proof fn lemma_snd_tail(v: u32, s: SoundData, x: Seq<u8>)
    ensures v >= 1031 ==> tail_enc(v, s) + x == b32(s.volume) + (b32(s.balance) + (b32(s.fade) + (b32(s.volume) + x)))
{
    let p0 = b32(s.volume); let p1 = b32(s.balance); let p2 = b32(s.fade);
    lemma_cat(p0 + p1 + p2, p0, x); lemma_cat(p0 + p1, p2, p0 + x); lemma_cat(p0, p1, p2 + (p0 + x));
}
/// a sound that is written reads back, whatever follows it
pub proof fn lemma_snd(v: u32, s: SoundData, x: Seq<u8>)
    requires snd_ok(s), snd_kept(v, s),
    ensures snd_parse(snd_count(v), snd_enc(v, s) + x) == Some((snd_view(s), x)),
{
    hide(snd_one);
    let d = snd_enc(v, s) + x;
    let e9 = b32(s.volume) + x; let e8 = b32(s.fade) + e9; let e7 = b32(s.balance) + e8;
    let e6 = tail_enc(v, s) + x;
    let e5 = seq![OutputTarget_num(s.output_target)] + e6; let e4 = (b32(s.data@.len() as u32) + s.data@) + e5; let e3 = wv_enc(s) + e4;
    let e2 = nm_enc(s.internal_name@) + e3; let e1 = pl_str(s.path@) + e2;
    lemma_snd_head(v, s, x); lemma_snd_tail(v, s, x);
    let s0 = snd_start();
    lemma_snd_step(0, d, s0, d); snd_s0(s0, s.name@, e1);
    let s1 = SoundV { name: s.name@, ..s0 };
    lemma_snd_step(1, d, s1, e1); snd_s1(s1, s.path@, e2);
    let s2 = SoundV { path: s.path@, ..s1 };
    lemma_snd_step(2, d, s2, e2); snd_s2(s2, s.internal_name@, e3);
    let s3 = SoundV { internal_name: s.internal_name@, ..s2 };
    lemma_snd_step(3, d, s3, e3); snd_s3(s3, s, e4);
    let s4 = SoundV { wave_form: s.wave_form, ..s3 };
    lemma_snd_step(4, d, s4, e4); snd_s4(s4, s.data@, e5);
    let s5 = SoundV { data: s.data@, ..s4 };
    lemma_snd_step(5, d, s5, e5); snd_s5(s5, s.output_target, e6);
    let s6 = SoundV { output_target: s.output_target, ..s5 };
    assert(snd_parse(6, d) == Some((s6, e6)));
    if v >= 1031 {
        lemma_snd_step(6, d, s6, e6); snd_s6(6, s6, s.volume, e7);
        let s7 = SoundV { volume: s.volume, ..s6 };
        lemma_snd_step(7, d, s7, e7); snd_s6(7, s7, s.balance, e8);
        let s8 = SoundV { balance: s.balance, ..s7 };
        lemma_snd_step(8, d, s8, e8); snd_s6(8, s8, s.fade, e9);
        let s9 = SoundV { fade: s.fade, ..s8 };
        lemma_snd_step(9, d, s9, e9); snd_s6(9, s9, s.volume, x);
        assert(snd_parse(10, d) == Some((snd_view(s), x)));
    } else {
        assert(Seq::<u8>::empty() + x =~= x);
        assert(snd_view(s) == s6);
    }
}
/// the pair of real functions: writing then reading gives the sound back
pub fn sound_roundtrip(file_version: &Version, s: &SoundData) -> (r: SoundData)
    requires snd_ok(*s), snd_kept(file_version.0, *s),
    ensures snd_view(r) == snd_view(*s),
{
    broadcast use {vpin_base, vpin_str, vpin_seq};
    proof { reveal_strlit(""); }
    let mut w = BiffWriter::new();
    write(file_version, s, &mut w);
    let mut r = BiffReader::new(w.get_data());
    proof {
        lemma_snd(file_version.0, *s, Seq::empty());
        assert(r.data@.skip(r.pos as int) =~= snd_enc(file_version.0, *s) + Seq::<u8>::empty());
    }
    read(file_version, &mut r)
}
