@@module utf16 src/vpx/utf16.rs
@@broadcast vpin_base, lemma_u16_pair
@@noinline
@@fn decode_utf16le
@@rename real_decode_utf16le
    ensures r is Ok == utf16_ok(bytes@), r is Ok ==> r->Ok_0@ == utf16_dec(bytes@),
@@start
    proof { reveal(utf16_ok); reveal(utf16_dec); }
@@loop 0
    iter __it
    invariant
        pairs_of(__it.seq(), bytes@), bytes@.len() % 2 == 0,
        __out1@.len() == __it.index(), forall|i: int| 0 <= i < __it.index() ==> #[trigger] __out1@[i] == u16_at(bytes@, 2 * i),
@@loop_start 0
    broadcast use {vpin_base, lemma_u16_pair};
    let ghost __i = __it.index() as int;
    proof { assert(chunk@ =~= bytes@.subrange(__i * 2, __i * 2 + 2)); assert(chunk@.len() == 2); lemma_u16_pair(bytes@.subrange(2 * __i, 2 * __i + 2)); assert(seq![chunk@[0], chunk@[1]] =~= bytes@.subrange(2 * __i, 2 * __i + 2)); }
@@after_loop 0
    proof { assert(__out1@ =~= units_at(bytes@)); }
@@fn encode_utf16le
@@rename real_encode_utf16le
    ensures r@ == utf16_enc(value@),
@@start
    proof { reveal(utf16_enc); }
@@before_loop 0
    let ghost __u = utf16_units(value@);
@@loop 0
    iter __it
    invariant
        __it.seq() == __u, __out1@ == le_units(__u.take(__it.index() as int)),
@@loop_start 0
    let ghost __i = __it.index() as int;
    proof { assert(__u.take(__i + 1).drop_last() =~= __u.take(__i)); assert(__u.take(__i + 1).last() == unit); }
@@after_loop 0
    proof { assert(__u.take(__u.len() as int) =~= __u); }
@@extra
/// the chunks of two bytes
pub open spec fn pairs_of(s: Seq<&[u8]>, d: Seq<u8>) -> bool { s.len() == d.len() / 2 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == d.subrange(i * 2, i * 2 + 2) }
pub broadcast proof fn lemma_u16_pair(s: Seq<u8>) requires s.len() == 2 ensures #[trigger] u16_at(s, 0) == le16(seq![s[0], s[1]]) { assert(s.subrange(0, 2) =~= seq![s[0], s[1]]); }
