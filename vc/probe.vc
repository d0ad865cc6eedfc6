@@module probe src/vpx/renderprobe.rs
@@broadcast vpin_base, vpin_str, vpin_seq
@@item struct RenderProbeWithGarbage
@@fn RenderProbeWithGarbage::biff_read
    requires old(reader).wf(), RenderProbe_parse(RenderProbe_start(), old(reader).rest()) is Some,
    ensures r.render_probe == p_val(RenderProbe_parse(RenderProbe_start(), old(reader).rest())), r.trailing_data@ == p_rest(RenderProbe_parse(RenderProbe_start(), old(reader).rest())),
@@fn RenderProbeWithGarbage::biff_write
    requires old(writer).wf(), RenderProbe_valid(self.render_probe), old(writer).open() ==> old(writer).record_size <= u32::MAX, self.trailing_data@.len() <= 0x7fff_ffff,
    ensures exists|w: Seq<u8>| #[trigger] RenderProbe_written(old(writer).done(), w, self.render_probe) && final(writer).data@ == w + self.trailing_data@,
@@extra
/// a probe and whatever follows it in its record come back
pub fn probe_roundtrip(x: &RenderProbeWithGarbage) -> (r: RenderProbeWithGarbage)
    requires RenderProbe_valid(x.render_probe), x.trailing_data@.len() <= 0x7fff_ffff,
    ensures r.render_probe == x.render_probe, r.trailing_data@ == x.trailing_data@,
{
    broadcast use {vpin_base, vpin_str, vpin_seq, vpin_rd, lemma_wdone};
    proof { reveal_strlit(""); }
    let mut w = BiffWriter::new();
    let ghost b = w.done();
    x.biff_write(&mut w);
    let mut r = BiffReader::new(w.get_data());
    proof {
        let d = choose|d: Seq<u8>| #[trigger] RenderProbe_written(b, d, x.render_probe) && w.data@ == d + x.trailing_data@;
        assert(b =~= Seq::<u8>::empty());
        assert(d.skip(0) =~= d);
        assert(r.rest() =~= d.skip(0) + x.trailing_data@);
    }
    RenderProbeWithGarbage::biff_read(&mut r)
}
