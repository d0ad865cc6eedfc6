@@module lzw src/vpx/lzw.rs
@@broadcast vpin_base
@@fn from_blocks
    requires bl_ok(uncompressed@),
    ensures r@ == bl_dec(uncompressed@),
@@loop 0
    invariant it_ok(&iter), __r == it_rem(&iter), bl_ok(it_rem(&iter)), bytes@ + bl_dec(it_rem(&iter)) == bl_dec(uncompressed@),
    ensures it_rem(&iter).len() == 0,
    decreases it_dec(&iter),
@@before_loop 0
    let ghost mut __r = it_rem(&iter);
    proof { assert(__r =~= uncompressed@); assert(bytes@ + bl_dec(__r) =~= bl_dec(uncompressed@)); }
@@loop_start 0
    proof { assert(__r =~= seq![*block_size] + it_rem(&iter)); assert(__r.skip(1 + __r[0]) =~= it_rem(&iter).skip(__r[0] as int)); assert(__r.subrange(1, 1 + __r[0]) =~= it_rem(&iter).take(__r[0] as int)); }
    let ghost __b0 = bytes@; let ghost __r0 = it_rem(&iter); let ghost __d0 = it_dec(&iter);
@@loop 1
iter __it
    invariant it_ok(&iter), __it.seq().len() == block_size, it_dec(&iter) <= __d0, block_size <= __r0.len(), it_rem(&iter) == __r0.skip(__it.index()), bytes@ == __b0 + __r0.take(__it.index()),
@@loop_start 1
    let ghost __rr = it_rem(&iter);
    proof { assert(__it.index() < block_size); assert(__rr.len() > 0); assert(vstd::std_specs::iter::IteratorSpec::remaining(&iter).len() > 0); }
@@loop_end 1
    proof {
        assert(__rr =~= seq![bytes@.last()] + it_rem(&iter)); assert(it_rem(&iter) =~= __rr.skip(1)); assert(__rr.skip(1) =~= __r0.skip(__it.index() + 1)); assert(__rr[0] == __r0[__it.index()]);
        assert(__r0.take(__it.index() + 1) =~= __r0.take(__it.index()).push(__r0[__it.index()])); assert(bytes@ =~= __b0 + __r0.take(__it.index() + 1));
    }
@@after_loop 1
    proof { __r = it_rem(&iter); }
@@fn to_blocks
    requires max_block_len > 0,
    ensures r@ == bl_enc(compressed@, max_block_len as int),
@@before_loop 0
    proof { assert(blocks@ + bl_enc(block@ + compressed@.skip(0), max_block_len as int) =~= bl_enc(compressed@, max_block_len as int)) by { assert(block@ + compressed@.skip(0) =~= compressed@); } }
@@loop 0
iter __it
    invariant max_block_len > 0, block_len < max_block_len, block@.len() == block_len, __it.seq().len() == compressed@.len(), forall|i: int| #![auto] 0 <= i < compressed@.len() ==> *__it.seq()[i] == compressed@[i],
        blocks@ + bl_enc(block@ + compressed@.skip(__it.index()), max_block_len as int) == bl_enc(compressed@, max_block_len as int),
@@loop_start 0
    let ghost __x = block@ + compressed@.skip(__it.index()); let ghost __i = __it.index(); let ghost __bl = block@; let ghost __bs = blocks@;
@@loop_end 0
    proof {
        let y = __bl.push(*byte) + compressed@.skip(__i + 1);
        assert(__x =~= y);
        if __bl.len() + 1 == max_block_len {
            assert(__x.take(max_block_len as int) =~= __bl.push(*byte));
            assert(__x.skip(max_block_len as int) =~= compressed@.skip(__i + 1));
            assert(block@ + compressed@.skip(__i + 1) =~= compressed@.skip(__i + 1));
            assert(blocks@ =~= __bs + (seq![max_block_len] + __bl.push(*byte)));
        }
    }
@@after_loop 0
    proof {
        assert(block@ + compressed@.skip(compressed@.len() as int) =~= block@);
        if block@.len() > 0 { assert(block@.take(block@.len() as int) =~= block@); assert(bl_enc(block@, max_block_len as int) =~= seq![block_len] + block@) by { let e = block@.skip(block@.len() as int); assert(e.len() == 0); assert(bl_enc(e, max_block_len as int) =~= Seq::<u8>::empty()); } }
    }
@@fn to_lzw
@@external
    ensures r@ == lzw_enc(data@),
@@fn from_lzw
@@external
    requires lzw_ok(compressed@),
    ensures r@ == lzw_dec(compressed@),
@@fn to_lzw_blocks
    ensures r@ == bl_enc(lzw_enc(data@), 254),
@@fn from_lzw_blocks
    requires bl_ok(compressed@), lzw_ok(bl_dec(compressed@)),
    ensures r@ == lzw_dec(bl_dec(compressed@)),
@@extra
/// a sequence of sub-blocks: a size byte and that many bytes each
pub open spec fn bl_ok(s: Seq<u8>) -> bool decreases s.len() { s.len() == 0 || (s.len() >= 1 + s[0] && bl_ok(s.skip(1 + s[0]))) }
pub open spec fn bl_dec(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 || s.len() < 1 + s[0] { Seq::empty() } else { s.subrange(1, 1 + s[0]) + bl_dec(s.skip(1 + s[0])) } }
/// full blocks of m bytes, and a shorter last one when something is left
pub open spec fn bl_enc(d: Seq<u8>, m: int) -> Seq<u8> decreases d.len() {
    if d.len() == 0 || !(0 < m <= 255) { Seq::empty() } else {
        let k = if d.len() < m { d.len() as int } else { m };
        seq![k as u8] + d.take(k) + bl_enc(d.skip(k), m)
    }
}
pub proof fn lemma_blocks(d: Seq<u8>, m: int)
    requires 0 < m <= 255,
    ensures bl_ok(bl_enc(d, m)), bl_dec(bl_enc(d, m)) == d,
    decreases d.len(),
{
    if d.len() > 0 {
        let k = if d.len() < m { d.len() as int } else { m };
        let e = bl_enc(d, m);
        lemma_blocks(d.skip(k), m);
        assert(e.skip(1 + e[0]) =~= bl_enc(d.skip(k), m));
        assert(e.subrange(1, 1 + e[0]) =~= d.take(k));
        assert(d =~= d.take(k) + d.skip(k));
    }
}
/// the dictionary coder (crate weezl, assumed: its decoder undoes its encoder)
pub uninterp spec fn lzw_enc(d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lzw_dec(d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lzw_ok(d: Seq<u8>) -> bool;
pub axiom fn axiom_lzw(d: Seq<u8>) ensures lzw_ok(lzw_enc(d)), lzw_dec(lzw_enc(d)) == d;
/// compressing and decompressing gives the same bytes: composed from the contracts only
pub fn lzw_roundtrip(d: &[u8]) -> (r: Vec<u8>) ensures r@ == d@ {
    let c = to_lzw_blocks(d);
    proof { lemma_blocks(lzw_enc(d@), 254); axiom_lzw(d@); }
    from_lzw_blocks(&c)
}
