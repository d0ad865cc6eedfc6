@@module imageswap src/vpx/image.rs
@@broadcast vpin_base
@@fn swap_red_and_blue
    ensures r@ == rb_swapped(data@),
@@loop 0
iter __it
    invariant __it.seq().len() == data@.len() / 4, forall|i: int| #![auto] 0 <= i < data@.len() / 4 ==> __it.seq()[i]@ == data@.subrange(i * 4, i * 4 + 4),
        swapped@ == rb_swapped(data@).take(__it.index() * 4),
@@loop_start 0
    let ghost __i = __it.index(); let ghost __s = swapped@;
    proof { assert(chunk@ == data@.subrange(__i * 4, __i * 4 + 4)); }
@@loop_end 0
    proof { assert(swapped@ =~= __s + seq![chunk@[2], chunk@[1], chunk@[0], chunk@[3]]); assert(swapped@ =~= rb_swapped(data@).take((__i + 1) * 4)); }
@@after_loop 0
    proof { assert(swapped@ =~= rb_swapped(data@)); }
@@extra
/// the two outer channels of every pixel exchanged; an incomplete pixel at the end is dropped
pub open spec fn rb_swapped(d: Seq<u8>) -> Seq<u8> { Seq::new((d.len() / 4 * 4) as nat, |i: int| if i % 4 == 0 { d[i + 2] } else if i % 4 == 2 { d[i - 2] } else { d[i] }) }
/// exchanging twice is the identity on whole pixels, once touches only the two channels
pub fn swap_twice(d: &[u8]) -> (r: Vec<u8>)
    requires d@.len() % 4 == 0,
    ensures r@ == d@,
{
    let a = swap_red_and_blue(d);
    let b = swap_red_and_blue(&a);
    proof { assert(b@ =~= d@); }
    b
}
pub proof fn lemma_swap_only(d: Seq<u8>, i: int)
    requires d.len() % 4 == 0, 0 <= i < d.len(),
    ensures rb_swapped(d).len() == d.len(), i % 4 == 1 || i % 4 == 3 ==> rb_swapped(d)[i] == d[i], i % 4 == 0 ==> rb_swapped(d)[i] == d[i + 2] && rb_swapped(d)[i + 2] == d[i],
{ }
