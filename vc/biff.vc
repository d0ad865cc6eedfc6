@@module biff src/vpx/biff.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item struct BiffReader
@@item struct BiffWriter
@@item const RECORD_TAG_LEN
@@item const WARN
@@fn BiffReader::new
    ensures r.wf(), r.cur().len() == 0, r.rest() == data@, r.tag@.len() == 0, r.warn_remaining, r.data@ == data@, r.pos == 0,
@@start
    proof { reveal_strlit(""); }
@@post
    assert(__ret.rest() =~= data@);
@@fn BiffReader::with_remaining
    requires bytes_in_record_remaining <= data@.len(),
    ensures r.wf(), r.cur() == data@.take(bytes_in_record_remaining as int), r.rest() == data@.skip(bytes_in_record_remaining as int), r.warn_remaining,
@@fn BiffReader::disable_warn_remaining
    ensures *final(self) == (BiffReader { warn_remaining: false, ..*old(self) }),
@@fn BiffReader::tag
    ensures r@ == self.tag@,
@@fn BiffReader::pos
    ensures r == self.pos,
@@fn BiffReader::is_eof
    ensures r == (self.pos >= self.data@.len() || self.tag@ == "ENDB"@),
@@fn BiffReader::get_no_remaining_update
    requires old(self).pos + count <= old(self).data@.len(),
    ensures r@ == old(self).data@.subrange(old(self).pos as int, old(self).pos + count), final(self).adv(old(self), count as int),
@@fn BiffReader::get
    requires old(self).wf(), old(self).cur().len() >= count,
    ensures r@ == old(self).cur().take(count as int), final(self).took(old(self), count as int),
@@fn BiffReader::remaining_in_record
    ensures r == old(self).bytes_in_record_remaining, *final(self) == *old(self),
@@fn BiffReader::get_bool
    requires old(self).wf(), old(self).cur().len() >= 4,
    ensures r == (u32_at(old(self).cur(), 0) != 0), final(self).took(old(self), 4),
@@start
    proof { lemma_le32_zero_iff(self.cur().subrange(0, 4)); }
@@fn BiffReader::get_u8_no_remaining_update
    requires old(self).pos + 1 <= old(self).data@.len(),
    ensures r == old(self).data@[old(self).pos as int], final(self).adv(old(self), 1),
@@fn BiffReader::get_u8
    requires old(self).wf(), old(self).cur().len() >= 1,
    ensures r == old(self).cur()[0], final(self).took(old(self), 1),
@@fn BiffReader::get_u16_no_remaining_update
    requires old(self).pos + 2 <= old(self).data@.len(),
    ensures r == u16_at(old(self).data@, old(self).pos as int), final(self).adv(old(self), 2),
@@fn BiffReader::get_u16
    requires old(self).wf(), old(self).cur().len() >= 2,
    ensures r == u16_at(old(self).cur(), 0), final(self).took(old(self), 2),
@@fn BiffReader::get_u32_no_remaining_update
    requires old(self).pos + 4 <= old(self).data@.len(),
    ensures r == u32_at(old(self).data@, old(self).pos as int), final(self).adv(old(self), 4),
@@fn BiffReader::get_u32
    requires old(self).wf(), old(self).cur().len() >= 4,
    ensures r == u32_at(old(self).cur(), 0), final(self).took(old(self), 4),
@@fn BiffReader::get_32_no_remaining_update
    requires old(self).pos + 4 <= old(self).data@.len(),
    ensures r == (u32_at(old(self).data@, old(self).pos as int) as i32), final(self).adv(old(self), 4),
@@fn BiffReader::get_32
    requires old(self).wf(), old(self).cur().len() >= 4,
    ensures r == (u32_at(old(self).cur(), 0) as i32), final(self).took(old(self), 4),
@@fn BiffReader::get_f32
    requires old(self).wf(), old(self).cur().len() >= 4,
    ensures r == f32_of_bits(u32_at(old(self).cur(), 0)), final(self).took(old(self), 4),
@@fn BiffReader::get_i16
    requires old(self).wf(), old(self).cur().len() >= 2,
    ensures r == (u16_at(old(self).cur(), 0) as i16), final(self).took(old(self), 2),
@@fn BiffReader::get_i32
    requires old(self).wf(), old(self).cur().len() >= 4,
    ensures r == (u32_at(old(self).cur(), 0) as i32), final(self).took(old(self), 4),
@@fn BiffReader::get_i64
    requires old(self).wf(), old(self).cur().len() >= 8,
    ensures r == (u64_at(old(self).cur(), 0) as i64), final(self).took(old(self), 8),
@@fn BiffReader::get_u64
    requires old(self).wf(), old(self).cur().len() >= 8,
    ensures r == u64_at(old(self).cur(), 0), final(self).took(old(self), 8),
@@fn BiffReader::get_double
    requires old(self).wf(), old(self).cur().len() >= 8,
    ensures r == f64_of_bits(u64_at(old(self).cur(), 0)), final(self).took(old(self), 8),
@@fn BiffReader::get_str
    requires old(self).wf(), old(self).cur().len() >= count,
    ensures r@ == latin1_dec(until0(old(self).cur().take(count as int))), final(self).took(old(self), count as int),
@@loop 0
    invariant_except_break
        pos_0 == count,
        forall|i: int| 0 <= i < p ==> #[trigger] __blk[i] != 0,
    invariant
        __blk == self.data@.subrange(self.pos as int, self.pos + count), self.pos + count <= self.data@.len(), self.data@.len() <= isize::MAX, *self == *old(self),
    ensures
        pos_0 <= count,
        forall|i: int| 0 <= i < pos_0 ==> #[trigger] __blk[i] != 0,
        pos_0 == count || __blk[pos_0 as int] == 0,
@@loop_start 0
    proof { assert(__blk[p as int] == self.data@[self.pos + p]); }
@@start
    assert(self.cur().take(count as int) =~= self.data@.subrange(self.pos as int, self.pos + count));
    let ghost __blk = self.data@.subrange(self.pos as int, self.pos + count);
@@after_loop 0
    proof {
        lemma_until0(__blk, pos_0 as int);
        assert(__blk.take(pos_0 as int) =~= self.data@.subrange(self.pos as int, self.pos + pos_0));
    }
@@fn BiffReader::get_str_no_remaining_update
    requires old(self).pos + count <= old(self).data@.len(),
    ensures r@ == latin1_dec(until0(old(self).data@.subrange(old(self).pos as int, old(self).pos + count))), final(self).adv(old(self), count as int),
@@loop 0
    invariant_except_break
        pos_0 == count,
        forall|i: int| 0 <= i < p ==> #[trigger] __blk[i] != 0,
    invariant
        __blk == self.data@.subrange(self.pos as int, self.pos + count), self.pos + count <= self.data@.len(), self.data@.len() <= isize::MAX, *self == *old(self),
    ensures
        pos_0 <= count,
        forall|i: int| 0 <= i < pos_0 ==> #[trigger] __blk[i] != 0,
        pos_0 == count || __blk[pos_0 as int] == 0,
@@loop_start 0
    proof { assert(__blk[p as int] == self.data@[self.pos + p]); }
@@start
    let ghost __blk = self.data@.subrange(self.pos as int, self.pos + count);
@@after_loop 0
    proof {
        lemma_until0(__blk, pos_0 as int);
        assert(__blk.take(pos_0 as int) =~= self.data@.subrange(self.pos as int, self.pos + pos_0));
    }
@@fn BiffReader::get_str_with_encoding_no_remaining_update
    requires old(self).pos + count <= old(self).data@.len(),
    ensures swe_view(r) == swe_of(until0(old(self).data@.subrange(old(self).pos as int, old(self).pos + count))), final(self).adv(old(self), count as int),
@@loop 0
    invariant_except_break
        pos_0 == count,
        forall|i: int| 0 <= i < p ==> #[trigger] __blk[i] != 0,
    invariant
        __blk == self.data@.subrange(self.pos as int, self.pos + count), self.pos + count <= self.data@.len(), self.data@.len() <= isize::MAX, *self == *old(self),
    ensures
        pos_0 <= count,
        forall|i: int| 0 <= i < pos_0 ==> #[trigger] __blk[i] != 0,
        pos_0 == count || __blk[pos_0 as int] == 0,
@@loop_start 0
    proof { assert(__blk[p as int] == self.data@[self.pos + p]); }
@@start
    let ghost __blk = self.data@.subrange(self.pos as int, self.pos + count);
@@after_loop 0
    proof {
        lemma_until0(__blk, pos_0 as int);
        assert(__blk.take(pos_0 as int) =~= self.data@.subrange(self.pos as int, self.pos + pos_0));
    }
@@fn BiffReader::get_string
    requires old(self).wf(), old(self).cur().len() >= 4, old(self).cur().len() >= 4 + u32_at(old(self).cur(), 0),
    ensures r@ == latin1_dec(until0(old(self).cur().subrange(4, 4 + u32_at(old(self).cur(), 0)))), final(self).took(old(self), 4 + u32_at(old(self).cur(), 0)),
@@start
    proof { let c = self.cur(); let n = u32_at(c, 0) as int; assert(c.skip(4).take(n) =~= c.subrange(4, 4 + n)); assert(c.skip(4).skip(n) =~= c.skip(4 + n)); }
@@fn BiffReader::get_string_no_remaining_update
    requires old(self).pos + 4 <= old(self).data@.len(), old(self).pos + 4 + u32_at(old(self).data@, old(self).pos as int) <= old(self).data@.len(),
    ensures r@ == latin1_dec(until0(old(self).data@.subrange(old(self).pos + 4, old(self).pos + 4 + u32_at(old(self).data@, old(self).pos as int)))), final(self).adv(old(self), 4 + u32_at(old(self).data@, old(self).pos as int)),
@@fn BiffReader::get_wide_string
    requires old(self).wf(), old(self).cur().len() >= 4, old(self).cur().len() >= 4 + u32_at(old(self).cur(), 0),
        utf16_ok(old(self).cur().subrange(4, 4 + u32_at(old(self).cur(), 0))),
    ensures r@ == utf16_dec(old(self).cur().subrange(4, 4 + u32_at(old(self).cur(), 0))), final(self).took(old(self), 4 + u32_at(old(self).cur(), 0)),
@@start
    proof { let c = self.cur(); let n = u32_at(c, 0) as int; assert(c.skip(4).take(n) =~= c.subrange(4, 4 + n)); assert(c.skip(4).skip(n) =~= c.skip(4 + n));
        assert(self.data@.subrange(self.pos + 4, self.pos + 4 + n) =~= c.subrange(4, 4 + n)); }
@@fn BiffReader::get_u32_array
    requires old(self).wf(), old(self).cur().len() >= 4 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == u32_at(old(self).cur(),4 * i), final(self).took(old(self), 4 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 4 * count,
        v@.len() == __it.index(), self.took(old(self), 4 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == u32_at(old(self).cur(),4 * i),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(4 * k).subrange(0, 4) =~= c.subrange(4 * k, 4 * k + 4));
        assert(c.skip(4 * k).skip(4) =~= c.skip(4 * (k + 1)));
    }
@@fn BiffReader::get_u16_array
    requires old(self).wf(), old(self).cur().len() >= 2 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == u16_at(old(self).cur(),2 * i), final(self).took(old(self), 2 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 2 * count,
        v@.len() == __it.index(), self.took(old(self), 2 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == u16_at(old(self).cur(),2 * i),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(2 * k).subrange(0, 2) =~= c.subrange(2 * k, 2 * k + 2));
        assert(c.skip(2 * k).skip(2) =~= c.skip(2 * (k + 1)));
    }
@@fn BiffReader::get_i16_array
    requires old(self).wf(), old(self).cur().len() >= 2 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == (u16_at(old(self).cur(),2 * i) as i16), final(self).took(old(self), 2 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 2 * count,
        v@.len() == __it.index(), self.took(old(self), 2 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == (u16_at(old(self).cur(),2 * i) as i16),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(2 * k).subrange(0, 2) =~= c.subrange(2 * k, 2 * k + 2));
        assert(c.skip(2 * k).skip(2) =~= c.skip(2 * (k + 1)));
    }
@@fn BiffReader::get_i32_array
    requires old(self).wf(), old(self).cur().len() >= 4 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == (u32_at(old(self).cur(),4 * i) as i32), final(self).took(old(self), 4 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 4 * count,
        v@.len() == __it.index(), self.took(old(self), 4 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == (u32_at(old(self).cur(),4 * i) as i32),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(4 * k).subrange(0, 4) =~= c.subrange(4 * k, 4 * k + 4));
        assert(c.skip(4 * k).skip(4) =~= c.skip(4 * (k + 1)));
    }
@@fn BiffReader::get_i64_array
    requires old(self).wf(), old(self).cur().len() >= 8 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == (u64_at(old(self).cur(),8 * i) as i64), final(self).took(old(self), 8 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 8 * count,
        v@.len() == __it.index(), self.took(old(self), 8 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == (u64_at(old(self).cur(),8 * i) as i64),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(8 * k).subrange(0, 8) =~= c.subrange(8 * k, 8 * k + 8));
        assert(c.skip(8 * k).skip(8) =~= c.skip(8 * (k + 1)));
    }
@@fn BiffReader::get_u64_array
    requires old(self).wf(), old(self).cur().len() >= 8 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == u64_at(old(self).cur(),8 * i), final(self).took(old(self), 8 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 8 * count,
        v@.len() == __it.index(), self.took(old(self), 8 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == u64_at(old(self).cur(),8 * i),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(8 * k).subrange(0, 8) =~= c.subrange(8 * k, 8 * k + 8));
        assert(c.skip(8 * k).skip(8) =~= c.skip(8 * (k + 1)));
    }
@@fn BiffReader::get_f32_array
    requires old(self).wf(), old(self).cur().len() >= 4 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == f32_of_bits(u32_at(old(self).cur(),4 * i)), final(self).took(old(self), 4 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 4 * count,
        v@.len() == __it.index(), self.took(old(self), 4 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == f32_of_bits(u32_at(old(self).cur(),4 * i)),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(4 * k).subrange(0, 4) =~= c.subrange(4 * k, 4 * k + 4));
        assert(c.skip(4 * k).skip(4) =~= c.skip(4 * (k + 1)));
    }
@@fn BiffReader::get_f64_array
    requires old(self).wf(), old(self).cur().len() >= 8 * count,
    ensures r@.len() == count, forall|i: int| 0 <= i < count ==> r@[i] == f64_of_bits(u64_at(old(self).cur(),8 * i)), final(self).took(old(self), 8 * count),
@@start
    proof { assert(self.cur().skip(0) =~= self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), old(self).cur().len() >= 8 * count,
        v@.len() == __it.index(), self.took(old(self), 8 * __it.index()),
        forall|i: int| 0 <= i < __it.index() ==> v@[i] == f64_of_bits(u64_at(old(self).cur(),8 * i)),
@@loop_start 0
    proof {
        let k = v@.len() as int; let c = old(self).cur();
        assert(c.skip(8 * k).subrange(0, 8) =~= c.subrange(8 * k, 8 * k + 8));
        assert(c.skip(8 * k).skip(8) =~= c.skip(8 * (k + 1)));
    }
@@fn BiffReader::get_string_array
    requires old(self).wf(), str_items(old(self).cur(), count as nat) is Some,
    ensures r@.len() == count, views(r@) == si_v(old(self).cur(), count as nat),
        final(self).wf(), final(self).cur() == si_r(old(self).cur(), count as nat), final(self).rest() == old(self).rest(),
@@start
    proof { lemma_str_items_step(self.cur()); }
@@loop 0
    iter __it
    invariant
        __it.index() <= count, old(self).wf(), self.wf(), v@.len() == __it.index(), self.rest() == old(self).rest(),
        str_items(old(self).cur(), count as nat) is Some,
        str_items(old(self).cur(), __it.index() as nat) is Some,
        self.cur() == si_r(old(self).cur(), __it.index() as nat),
        views(v@) =~= si_v(old(self).cur(), __it.index() as nat),
        si_v(old(self).cur(), __it.index() as nat).len() == __it.index(),
@@loop_start 0
    proof { lemma_str_items_prefix(old(self).cur(), (v@.len() + 1) as nat, count as nat); }
@@fn BiffReader::get_record_data
    requires old(self).wf(), with_tag ==> old(self).pos >= 4, !with_tag ==> old(self).rest().len() > 0,
    ensures r@ == (if with_tag { old(self).data@.subrange(old(self).pos - 4, old(self).pos as int) + old(self).cur() } else { old(self).cur() }),
        final(self).took(old(self), old(self).cur().len() as int),
@@start
    proof { if with_tag { assert(self.data@.subrange(self.pos - 4, self.pos + self.bytes_in_record_remaining) =~= self.data@.subrange(self.pos - 4, self.pos as int) + self.cur()); } }
@@fn BiffReader::get_data_no_remaining_update
    requires old(self).pos + 4 <= old(self).data@.len(), old(self).pos + 4 + u32_at(old(self).data@, old(self).pos as int) <= old(self).data@.len(),
    ensures r@ == old(self).data@.subrange(old(self).pos + 4, old(self).pos + 4 + u32_at(old(self).data@, old(self).pos as int)),
        final(self).pos == old(self).pos + 4 + u32_at(old(self).data@, old(self).pos as int), final(self).bytes_in_record_remaining == 0, final(self).same_input(old(self)),
@@fn BiffReader::get_data
    requires old(self).pos + count <= old(self).data@.len(),
    ensures r@ == old(self).data@.subrange(old(self).pos as int, old(self).pos + count),
        final(self).pos == old(self).pos + count, final(self).bytes_in_record_remaining == 0, final(self).same_input(old(self)),
@@fn BiffReader::get_remaining
    requires self.pos <= self.data@.len(),
    ensures r@ == self.data@.skip(self.pos as int),
@@fn BiffReader::skip
    requires old(self).wf(), old(self).cur().len() >= count,
    ensures final(self).took(old(self), count as int),
@@fn BiffReader::skip_end_tag
    requires old(self).pos + count <= old(self).data@.len(),
    ensures final(self).pos == old(self).pos + count, final(self).bytes_in_record_remaining == 0, final(self).same_input(old(self)),
@@fn BiffReader::skip_tag
    requires old(self).wf(),
    ensures r == old(self).cur().len(), final(self).took(old(self), old(self).cur().len() as int),
@@fn BiffReader::sub_remaining
    requires old(self).bytes_in_record_remaining >= count,
    ensures final(self).bytes_in_record_remaining == old(self).bytes_in_record_remaining - count, final(self).pos == old(self).pos, final(self).same_input(old(self)),
@@fn BiffReader::next
    requires old(self).wf(), rec_ok(old(self).rest()),
        !(old(self).warn_remaining && rec_tag(old(self).rest()) == "ENDB"@ && rec_rest(old(self).rest()).len() > 0 && rec_payload(old(self).rest()).len() == 0),
        old(self).warn_remaining && rec_tag(old(self).rest()) == "ENDB"@ ==> 4 + rec_len(old(self).rest()) == 4 + 4 && rec_rest(old(self).rest()).len() == 0,
    ensures final(self).wf(), final(self).tag@ == rec_tag(old(self).rest()), final(self).cur() == rec_payload(old(self).rest()),
        final(self).rest() == rec_rest(old(self).rest()), final(self).data == old(self).data, final(self).warn_remaining == old(self).warn_remaining,
        final(self).pos >= old(self).pos + 8,
        final(self).pos == old(self).pos + old(self).cur().len() + 8,
        (r is None) == (final(self).pos >= final(self).data@.len() || final(self).tag@ == "ENDB"@),
        r is Some ==> r->0@ == final(self).tag@,
@@start
    proof {
        reveal_strlit("");
        let d = self.data@; let p = self.pos + self.bytes_in_record_remaining;
        let rest = self.rest();
        lemma_rec_tag_plain(rest);
        assert(rest.subrange(0, 4) =~= d.subrange(p, p + 4));
        assert(rest.subrange(4, 8) =~= d.subrange(p + 4, p + 8));
        let n = rec_len(rest);
        assert(d.subrange(p + 4, p + 4 + n).take(4) =~= d.subrange(p + 4, p + 8));
        assert(rec_payload(rest) =~= d.subrange(p + 8, p + 4 + n));
        assert(rec_rest(rest) =~= d.skip(p + 4 + n));
        assert(d.subrange(p + 4, p + 4 + n).skip(4) =~= d.subrange(p + 8, p + 4 + n));
        assert(self.cur().skip(self.bytes_in_record_remaining as int) =~= Seq::empty());
    }
@@fn BiffReader::child_reader
    requires old(self).pos <= old(self).data@.len(),
    ensures r.wf(), r.cur().len() == 0, r.rest() == old(self).data@.skip(old(self).pos as int), r.pos == 0, !r.warn_remaining, r.tag@.len() == 0, r.data@ == old(self).data@.skip(old(self).pos as int), *final(self) == *old(self),
@@start
    proof { reveal_strlit(""); let s = self.data@.skip(self.pos as int); assert(s.skip(0) =~= s); }
@@fn BiffReader::data_until
    requires old(self).pos + 4 <= old(self).data@.len(),
        exists|k: int| old(self).pos + 4 <= k && first_at(old(self).data@, old(self).pos as int, k, tag@),
    ensures exists|k: int| first_at(old(self).data@, old(self).pos as int, k, tag@) && r@ == old(self).data@.subrange(old(self).pos as int, k - 4) && final(self).pos == k - 4,
        final(self).bytes_in_record_remaining == 0, final(self).same_input(old(self)),
@@start
    let ghost __k = choose|k: int| self.pos + 4 <= k && first_at(self.data@, self.pos as int, k, tag@);
@@loop 0
    invariant_except_break !found, self.pos <= pos <= __k, 
    invariant *self == *old(self), first_at(self.data@, self.pos as int, __k, tag@), self.pos + 4 <= __k,
    ensures found ==> pos == __k, !found ==> false,
    decreases self.data@.len() - pos,
@@fn BiffReader::blocks_until
    requires header@.len() > 0, old(self).pos <= old(self).data@.len(),
    ensures
        r is None ==> *final(self) == *old(self) && blk_end(old(self).data@, old(self).pos as int, header@) is None,
        r is Some ==> ({ let k = blk_end(old(self).data@, old(self).pos as int, header@); k == Some(final(self).pos as int) && r->0@ == old(self).data@.subrange(old(self).pos as int, final(self).pos as int) }),
        r is Some ==> final(self).bytes_in_record_remaining == 0 && final(self).same_input(old(self)) && old(self).pos <= final(self).pos <= old(self).data@.len(),
@@start
    proof { axiom_slice_len(self.data); }
@@loop 0
    invariant *self == *old(self), self.data@.len() <= isize::MAX, header@.len() > 0, self.pos <= pos, pos <= self.data@.len() + 256, blk_end(self.data@, pos as int, header@) == blk_end(self.data@, self.pos as int, header@),
    decreases self.data@.len() + 256 - pos,
@@fn BiffWriter::default@Default
    ensures r.data@.len() == 0, r.wf(), !r.open(), r.done() == Seq::<u8>::empty(),
@@post
    assert(__ret.done() =~= Seq::<u8>::empty());
@@start
    proof { reveal_strlit(""); }
@@fn BiffWriter::new
    ensures r.data@.len() == 0, r.wf(), !r.open(), r.done() == Seq::<u8>::empty(),
@@post
    assert(__ret.done() =~= Seq::<u8>::empty());
@@fn BiffWriter::get_data
    ensures r@ == self.data@,
@@fn BiffWriter::end_tag
    requires old(self).wf(), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done(),
@@start
    proof { reveal(enc_rec); reveal_strlit(""); }
@@post
    if old(self).open() { let x = old(self).record_size as u32; let t = old(self).tag_start as int; assert(self.data@ =~= old(self).data@.take(t) + b32(x) + old(self).data@.skip(t + 4)); lemma_done(old(self), self.data@, x); }
@@fn BiffWriter::end_tag_no_size
    requires old(self).wf(),
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done_no_size(),
@@start
    proof { reveal_strlit(""); }
@@post
    if old(self).open() { let t = old(self).tag_start as int; assert(self.data@ =~= old(self).data@.take(t) + b32(4) + old(self).data@.skip(t + 4)); lemma_done(old(self), self.data@, 4); }
@@fn BiffWriter::new_tag
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), final(self).open(), final(self).base() == old(self).done(), final(self).payload().len() == 0, final(self).payload() == Seq::<u8>::empty(), final(self).record_size == 4, final(self).tag@ == tag@,
@@start
    proof { reveal(tag_ok); lemma_tag_utf8(tag@); }
@@post
    assert(self.data@.subrange(self.tag_start + 4, self.tag_start + 8) =~= tag_bytes(tag@));
    assert(self.payload() =~= Seq::empty());
    assert(self.base() =~= old(self).done());
@@fn BiffWriter::write_u8
    requires old(self).wf(),
    ensures final(self).appended(old(self), seq![value]),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (seq![value]));
    lemma_appended(old(self), self, seq![value]);
@@fn BiffWriter::write_8
    requires old(self).wf(),
    ensures final(self).appended(old(self), seq![value as u8]),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (seq![value as u8]));
    lemma_appended(old(self), self, seq![value as u8]);
@@fn BiffWriter::write_u16
    requires old(self).wf(),
    ensures final(self).appended(old(self), b16(value)),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (b16(value)));
    lemma_appended(old(self), self, b16(value));
@@fn BiffWriter::write_16
    requires old(self).wf(),
    ensures final(self).appended(old(self), b16(value as u16)),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (b16(value as u16)));
    lemma_appended(old(self), self, b16(value as u16));
@@fn BiffWriter::write_u32
    requires old(self).wf(),
    ensures final(self).appended(old(self), b32(value)),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (b32(value)));
    lemma_appended(old(self), self, b32(value));
@@fn BiffWriter::write_32
    requires old(self).wf(),
    ensures final(self).appended(old(self), pl_i32(value)),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (pl_i32(value)));
    lemma_appended(old(self), self, pl_i32(value));
@@fn BiffWriter::write_f32
    requires old(self).wf(),
    ensures final(self).appended(old(self), b32(f32_bits(value))),
@@start
@@post
    assert(self.data@ =~= old(self).data@ + (b32(f32_bits(value))));
    lemma_appended(old(self), self, b32(f32_bits(value)));
@@fn BiffWriter::write_data
    requires old(self).wf(),
    ensures final(self).appended(old(self), value@),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (value@));
    lemma_appended(old(self), self, value@);
@@fn BiffWriter::write_short_string
    requires old(self).wf(), is_latin1(value@), value@.len() <= 255,
    ensures final(self).appended(old(self), seq![value@.len() as u8] + latin1_enc(value@)),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (seq![value@.len() as u8] + latin1_enc(value@)));
    lemma_appended(old(self), self, seq![value@.len() as u8] + latin1_enc(value@));
@@fn BiffWriter::write_string
    requires old(self).wf(), is_latin1(value@), value@.len() <= u32::MAX,
    ensures final(self).appended(old(self), pl_str(value@)),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (pl_str(value@)));
    lemma_appended(old(self), self, pl_str(value@));
@@fn BiffWriter::write_string_with_encoding
    requires old(self).wf(), swe_bytes_ok(swe_view(*value)), swe_bytes(swe_view(*value)).len() <= u32::MAX,
    ensures final(self).appended(old(self), b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value))),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value))));
    lemma_appended(old(self), self, b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value)));
@@fn BiffWriter::write_string_empty_zero
    requires old(self).wf(), is_latin1(value@), value@.len() <= u32::MAX,
    ensures final(self).appended(old(self), if value@.len() == 0 { b32(1) + seq![0u8] } else { pl_str(value@) }),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (if value@.len() == 0 { b32(1) + seq![0u8] } else { pl_str(value@) }));
    lemma_appended(old(self), self, if value@.len() == 0 { b32(1) + seq![0u8] } else { pl_str(value@) });
@@fn BiffWriter::write_wide_string
    requires old(self).wf(), utf16_enc(value@).len() <= u32::MAX,
    ensures final(self).appended(old(self), pl_wide(value@)),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (pl_wide(value@)));
    lemma_appended(old(self), self, pl_wide(value@));
@@fn BiffWriter::write_bool
    requires old(self).wf(),
    ensures final(self).appended(old(self), pl_bool(value)),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (pl_bool(value)));
    lemma_appended(old(self), self, pl_bool(value));
@@fn BiffWriter::write_length_prefixed_data
    requires old(self).wf(), value@.len() <= u32::MAX,
    ensures final(self).appended(old(self), b32(value@.len() as u32) + value@),
@@start
    
@@post
    assert(self.data@ =~= old(self).data@ + (b32(value@.len() as u32) + value@));
    lemma_appended(old(self), self, b32(value@.len() as u32) + value@);
@@fn BiffWriter::write_tagged_empty
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, Seq::<u8>::empty()),
@@start
@@post
    assert(Seq::<u8>::empty() + (Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, Seq::<u8>::empty()));
@@fn BiffWriter::write_tagged_bool
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, pl_bool(value)),
@@start
@@post
    assert(Seq::<u8>::empty() + (pl_bool(value)) =~= pl_bool(value));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, pl_bool(value)));
@@fn BiffWriter::write_tagged_f32
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, b32(f32_bits(value))),
@@start
@@post
    assert(Seq::<u8>::empty() + (b32(f32_bits(value))) =~= b32(f32_bits(value)));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, b32(f32_bits(value))));
@@fn BiffWriter::write_tagged_u32
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, b32(value)),
@@start
@@post
    assert(Seq::<u8>::empty() + (b32(value)) =~= b32(value));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, b32(value)));
@@fn BiffWriter::write_tagged_i32
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, pl_i32(value)),
@@start
@@post
    assert(Seq::<u8>::empty() + (pl_i32(value)) =~= pl_i32(value));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, pl_i32(value)));
@@fn BiffWriter::write_tagged_string
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX, is_latin1(value@), value@.len() <= 0x7fff_ffff,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, pl_str(value@)),
@@start
@@post
    assert(Seq::<u8>::empty() + (pl_str(value@)) =~= pl_str(value@));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, pl_str(value@)));
@@fn BiffWriter::write_tagged_wide_string
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX, utf16_enc(value@).len() <= 0x7fff_ffff,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, pl_wide(value@)),
@@start
@@post
    assert(Seq::<u8>::empty() + (pl_wide(value@)) =~= pl_wide(value@));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, pl_wide(value@)));
@@fn BiffWriter::write_tagged_vec2
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, b32(f32_bits(x)) + b32(f32_bits(y))),
@@start
@@post
    assert(Seq::<u8>::empty() + (b32(f32_bits(x)) + b32(f32_bits(y))) =~= b32(f32_bits(x)) + b32(f32_bits(y)));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, b32(f32_bits(x)) + b32(f32_bits(y))));
@@fn BiffWriter::write_tagged_padded_vector
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z)) + b32(f32_bits(0.0f32))),
@@start
@@post
    assert(Seq::<u8>::empty() + (b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z)) + b32(f32_bits(0.0f32))) =~= b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z)) + b32(f32_bits(0.0f32)));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z)) + b32(f32_bits(0.0f32))));
@@fn BiffWriter::write_tagged_unpadded_vector
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z))),
@@start
@@post
    assert(Seq::<u8>::empty() + (b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z))) =~= b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z)));
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, b32(f32_bits(x)) + b32(f32_bits(y)) + b32(f32_bits(z))));
@@fn BiffWriter::write_tagged_data
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX, value@.len() <= 0x7fff_ffff,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, value@),
@@start
@@post
    assert(Seq::<u8>::empty() + (value@) =~= value@);
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, value@));
@@fn BiffWriter::write_marker_tag
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec(tag@, Seq::<u8>::empty()),
@@start
@@post
    assert(Seq::<u8>::empty() + (Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert(self.data@ =~= old(self).done() + enc_rec(tag@, Seq::<u8>::empty()));
@@fn BiffWriter::write_tagged_string_no_size
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX, is_latin1(value@), value@.len() <= 0x7fff_ffff,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec_nosize(tag@, pl_str(value@)),
@@start
@@post
    assert(Seq::<u8>::empty() + (pl_str(value@)) =~= pl_str(value@));
    assert(self.data@ =~= old(self).done() + enc_rec_nosize(tag@, pl_str(value@)));
@@fn BiffWriter::write_tagged_string_with_encoding_no_size
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX, swe_bytes_ok(swe_view(*value)), swe_bytes(swe_view(*value)).len() <= 0x7fff_ffff,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec_nosize(tag@, b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value))),
@@start
@@post
    assert(Seq::<u8>::empty() + (b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value))) =~= b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value)));
    assert(self.data@ =~= old(self).done() + enc_rec_nosize(tag@, b32(swe_bytes(swe_view(*value)).len() as u32) + swe_bytes(swe_view(*value))));
@@fn BiffWriter::write_tagged_data_without_size
    requires old(self).wf(), tag_ok(tag@), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == old(self).done() + enc_rec_nosize(tag@, value@),
@@start
@@post
    assert(Seq::<u8>::empty() + (value@) =~= value@);
    assert(self.data@ =~= old(self).done() + enc_rec_nosize(tag@, value@));
@@fn BiffWriter::close
    requires old(self).wf(), old(self).open() ==> old(self).record_size <= u32::MAX,
    ensures final(self).wf(), !final(self).open(), final(self).data@ == (if write_endb { old(self).done() + enc_rec("ENDB"@, Seq::<u8>::empty()) } else { old(self).done() }),
@@start
    proof { lemma_endb(); }
@@extra
pub broadcast proof fn lemma_took(n: &BiffReader, o: &BiffReader, k: int)
    requires o.wf(), 0 <= k <= o.bytes_in_record_remaining, n.pos == o.pos + k, n.bytes_in_record_remaining == o.bytes_in_record_remaining - k, n.same_input(o),
    ensures #[trigger] n.took(o, k),
{
    assert(n.cur() =~= o.cur().skip(k));
}
pub broadcast group vpin_rd { lemma_took }
pub broadcast proof fn lemma_wdone(w: &BiffWriter)
    ensures #[trigger] w.done() == (if w.open() { w.base() + enc_rec(w.tag@, w.payload()) } else { w.data@ }),
{}
pub broadcast proof fn lemma_wdone_no_size(w: &BiffWriter)
    ensures #[trigger] w.done_no_size() == (if w.open() { w.base() + enc_rec_nosize(w.tag@, w.payload()) } else { w.data@ }),
{}
impl<'a> BiffReader<'a> {
    pub open spec fn wf(&self) -> bool { self.pos + self.bytes_in_record_remaining <= self.data@.len() && self.data@.len() <= isize::MAX }
    /// unread bytes of the current record
    pub open spec fn cur(&self) -> Seq<u8> { self.data@.subrange(self.pos as int, self.pos + self.bytes_in_record_remaining) }
    /// bytes after the current record
    pub open spec fn rest(&self) -> Seq<u8> { self.data@.skip(self.pos + self.bytes_in_record_remaining) }
    pub open spec fn same_input(&self, o: &Self) -> bool { self.data == o.data && self.tag == o.tag && self.warn_remaining == o.warn_remaining }
    pub open spec fn adv(&self, o: &Self, n: int) -> bool {
        self.pos == o.pos + n && self.bytes_in_record_remaining == o.bytes_in_record_remaining && self.same_input(o)
    }
    pub open spec fn took(&self, o: &Self, n: int) -> bool {
        self.wf() && self.pos == o.pos + n && self.bytes_in_record_remaining == o.bytes_in_record_remaining - n && self.same_input(o)
        && self.cur() == o.cur().skip(n) && self.rest() == o.rest()
    }
}
pub open spec fn first_at(d: Seq<u8>, from: int, k: int, t: Seq<u8>) -> bool {
    from <= k && k + t.len() <= d.len() && k < d.len() && d.subrange(k, k + t.len()) == t && forall|j: int| from <= j < k ==> j + t.len() <= d.len() && #[trigger] d.subrange(j, j + t.len()) != t
}
/// n length-prefixed strings at the start of s, and what follows them
pub open spec fn str_items(s: Seq<u8>, n: nat) -> Option<(Seq<Seq<char>>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else {
        match str_items(s, (n - 1) as nat) {
            Some((v, c)) => if c.len() >= 4 && c.len() >= 4 + u32_at(c, 0) { Some((v.push(latin1_dec(until0(c.subrange(4, 4 + u32_at(c, 0))))), c.skip(4 + u32_at(c, 0)))) } else { None },
            None => None,
        }
    }
}
pub open spec fn si_v(s: Seq<u8>, n: nat) -> Seq<Seq<char>> { match str_items(s, n) { Some((v, _c)) => v, None => Seq::empty() } }
pub open spec fn si_r(s: Seq<u8>, n: nat) -> Seq<u8> { match str_items(s, n) { Some((_v, c)) => c, None => Seq::empty() } }
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn lemma_str_items_step(s: Seq<u8>) ensures str_items(s, 0) == Some((Seq::<Seq<char>>::empty(), s)) {}
pub proof fn lemma_str_items_prefix(s: Seq<u8>, k: nat, n: nat)
    requires 1 <= k <= n, str_items(s, n) is Some,
    ensures str_items(s, k) is Some, str_items(s, (k - 1) as nat) is Some,
    decreases n,
{ if k < n { lemma_str_items_prefix(s, k, (n - 1) as nat); } }

// payload encodings
pub open spec fn pl_bool(b: bool) -> Seq<u8> { if b { b32(1) } else { b32(0) } }
pub open spec fn pl_i32(x: i32) -> Seq<u8> { b32(x as u32) }
pub open spec fn pl_str(s: Seq<char>) -> Seq<u8> { b32(s.len() as u32) + latin1_enc(s) }
pub open spec fn pl_wide(s: Seq<char>) -> Seq<u8> { b32(utf16_enc(s).len() as u32) + utf16_enc(s) }

impl BiffWriter {
    /*opaque-in-client*/ pub open spec fn open(&self) -> bool { self.tag@.len() > 0 }
    /*opaque-in-client*/ pub open spec fn wf(&self) -> bool {
        &&& self.record_size <= self.data@.len()
        &&& self.open() ==> tag_ok(self.tag@) && self.tag_start + 8 <= self.data@.len()
              && self.record_size == self.data@.len() - self.tag_start - 4
              && self.data@.subrange(self.tag_start + 4, self.tag_start + 8) == tag_bytes(self.tag@)
    }
    /// everything before the open record
    /*opaque-in-client*/ pub open spec fn base(&self) -> Seq<u8> { if self.open() { self.data@.take(self.tag_start as int) } else { self.data@ } }
    /// payload written so far to the open record
    /*opaque-in-client*/ pub open spec fn payload(&self) -> Seq<u8> { if self.open() { self.data@.skip(self.tag_start + 8) } else { Seq::empty() } }
    /// the stream once the open record is closed
    /*opaque-in-client*/ pub open spec fn done(&self) -> Seq<u8> { if self.open() { self.base() + enc_rec(self.tag@, self.payload()) } else { self.data@ } }
    /*opaque-in-client*/ pub open spec fn done_no_size(&self) -> Seq<u8> { if self.open() { self.base() + enc_rec_nosize(self.tag@, self.payload()) } else { self.data@ } }
    pub open spec fn appended(&self, o: &Self, e: Seq<u8>) -> bool {
        &&& self.wf() && self.open() == o.open() && self.tag == o.tag && self.tag_start == o.tag_start && self.data@ == o.data@ + e && self.record_size == o.record_size + e.len()
        &&& self.base() == (if o.open() { o.base() } else { self.data@ }) && (o.open() ==> self.payload() == o.payload() + e)
    }
}
pub proof fn lemma_appended(o: &BiffWriter, n: &BiffWriter, e: Seq<u8>)
    requires o.wf(), n.tag == o.tag, n.tag_start == o.tag_start, n.data@ == o.data@ + e, n.record_size == o.record_size + e.len(),
    ensures n.appended(o, e),
{
    if o.open() {
        assert(n.data@.subrange(n.tag_start + 4, n.tag_start + 8) =~= o.data@.subrange(o.tag_start + 4, o.tag_start + 8));
        assert(n.data@.take(n.tag_start as int) =~= o.data@.take(o.tag_start as int));
        assert(n.data@.skip(n.tag_start + 8) =~= o.data@.skip(o.tag_start + 8) + e);
    }
}
pub proof fn lemma_done(w: &BiffWriter, d: Seq<u8>, x: u32)
    requires w.wf(), w.open(), d == w.data@.take(w.tag_start as int) + b32(x) + w.data@.skip(w.tag_start + 4),
    ensures d == w.base() + (b32(x) + tag_bytes(w.tag@) + w.payload()), w.payload().len() + 4 == w.record_size,
{
    broadcast use vpin_base;
    let t = w.tag_start as int;
    let q = w.data@.skip(t + 4);
    assert(q =~= tag_bytes(w.tag@) + w.payload()) by {
        assert(q.take(4) =~= w.data@.subrange(t + 4, t + 8));
        assert(q.skip(4) =~= w.payload());
        assert(q =~= q.take(4) + q.skip(4));
    }
    assert(d =~= w.base() + (b32(x) + tag_bytes(w.tag@) + w.payload()));
}
pub proof fn lemma_tag_utf8(t: Seq<char>)
    requires tag_ok(t),
    ensures utf8_bytes(t).len() == t.len(), forall|i: int| #![auto] 0 <= i < t.len() ==> utf8_bytes(t)[i] == tag_bytes(t)[i], tag_bytes(t).len() == 4,
        forall|i: int| #![auto] t.len() <= i < 4 ==> tag_bytes(t)[i] == 0,
{
    reveal(tag_ok);
    assert(vstd::utf8::is_ascii_chars(t)) by { assert forall|i: int| 0 <= i < t.len() implies 0 <= ((#[trigger] t[i]) as u32) && ((t[i] as u32) < 128) by { assert(t[i] as u32 <= 127); } }
    vstd::utf8::is_ascii_chars_encode_utf8(t);
}
pub proof fn lemma_endb()
    ensures tag_ok("ENDB"@), code_of("ENDB"@) == 0x42_0000_0000_4e_00_0000_45 * 0 + code_of("ENDB"@),
{ reveal(tag_ok); reveal_strlit("ENDB"); assert("ENDB"@.len() == 4); assert('E' as u32 == 69 && 'N' as u32 == 78 && 'D' as u32 == 68 && 'B' as u32 == 66); }
/// where the first sub-block boundary with the given header lies
pub open spec fn blk_end(d: Seq<u8>, p: int, h: Seq<u8>) -> Option<int> decreases d.len() + 256 - p {
    if p < 0 || p > d.len() || d.len() - p < h.len() || p == d.len() { None } else if d.subrange(p, p + h.len()) == h { Some(p) } else { blk_end(d, p + 1 + d[p], h) }
}
