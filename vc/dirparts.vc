@@module dirparts -
@@broadcast vpin_base
@@extra
/// the parts of a table's directory, in the order they are written
pub open spec fn parts(k: int) -> Seq<char> {
    if k == 0 { "version"@ } else if k == 1 { "screenshot"@ } else if k == 2 { "info"@ } else if k == 3 { "collections"@ } else if k == 4 { "gameitems"@ } else if k == 5 { "images"@ } else if k == 6 { "sounds"@ } else if k == 7 { "fonts"@ } else if k == 8 { "gamedata"@ } else if k == 9 { "script"@ } else if k == 10 { "materials"@ } else if k == 11 { "materials-old"@ } else if k == 12 { "materials-physics-old"@ } else { "renderprobes"@ }
}
/// a part's number, told from its name
pub open spec fn part_no(p: Seq<char>) -> int {
    if p.len() == 7 { 0 } else if p.len() == 10 { 1 } else if p.len() == 4 { 2 } else if p.len() == 11 { 3 } else if p.len() == 9 { if p[0] == 'g' { 4 } else { 10 } }
    else if p.len() == 6 { if p[0] == 'i' { 5 } else if p[1] == 'o' { 6 } else { 9 } } else if p.len() == 5 { 7 } else if p.len() == 8 { 8 } else if p.len() == 13 { 11 } else if p.len() == 21 { 12 } else { 13 }
}
pub proof fn lemma_part0() ensures plain_part(parts(0)), part_no(parts(0)) == 0 { reveal_strlit("version"); }
pub proof fn lemma_part1() ensures plain_part(parts(1)), part_no(parts(1)) == 1 { reveal_strlit("screenshot"); }
pub proof fn lemma_part2() ensures plain_part(parts(2)), part_no(parts(2)) == 2 { reveal_strlit("info"); }
pub proof fn lemma_part3() ensures plain_part(parts(3)), part_no(parts(3)) == 3 { reveal_strlit("collections"); }
pub proof fn lemma_part4() ensures plain_part(parts(4)), part_no(parts(4)) == 4 { reveal_strlit("gameitems"); }
pub proof fn lemma_part5() ensures plain_part(parts(5)), part_no(parts(5)) == 5 { reveal_strlit("images"); }
pub proof fn lemma_part6() ensures plain_part(parts(6)), part_no(parts(6)) == 6 { reveal_strlit("sounds"); }
pub proof fn lemma_part7() ensures plain_part(parts(7)), part_no(parts(7)) == 7 { reveal_strlit("fonts"); }
pub proof fn lemma_part8() ensures plain_part(parts(8)), part_no(parts(8)) == 8 { reveal_strlit("gamedata"); }
pub proof fn lemma_part9() ensures plain_part(parts(9)), part_no(parts(9)) == 9 { reveal_strlit("script"); }
pub proof fn lemma_part10() ensures plain_part(parts(10)), part_no(parts(10)) == 10 { reveal_strlit("materials"); }
pub proof fn lemma_part11() ensures plain_part(parts(11)), part_no(parts(11)) == 11 { reveal_strlit("materials-old"); }
pub proof fn lemma_part12() ensures plain_part(parts(12)), part_no(parts(12)) == 12 { reveal_strlit("materials-physics-old"); }
pub proof fn lemma_part13() ensures plain_part(parts(13)), part_no(parts(13)) == 13 { reveal_strlit("renderprobes"); }
pub proof fn lemma_parts(a: int, b: int)
    requires 0 <= a < 14, 0 <= b < 14, a != b,
    ensures plain_part(parts(a)), plain_part(parts(b)), parts(a) != parts(b),
{
    lemma_part0(); lemma_part1(); lemma_part2(); lemma_part3(); lemma_part4(); lemma_part5(); lemma_part6(); lemma_part7(); lemma_part8(); lemma_part9(); lemma_part10(); lemma_part11(); lemma_part12(); lemma_part13();
    assert(part_no(parts(a)) == a && part_no(parts(b)) == b);
}
/// the files, as the parts are written one after another
pub type Files = Map<Seq<char>, Seq<u8>>;
#[verifier::opaque] pub open spec fn steps(m: Seq<Files>, dir: Seq<char>, n: int) -> bool { m.len() > n && forall|k: int| 0 <= k < n ==> only(#[trigger] m[k], m[k + 1], dir, parts(k)) }
pub proof fn lemma_step(m: Seq<Files>, dir: Seq<char>, n: int, x: Files)
    requires m.len() == n + 1, steps(m, dir, n), 0 <= n, only(m[n], x, dir, parts(n)),
    ensures steps(m.push(x), dir, n + 1), m.push(x).len() == n + 2, m.push(x)[n + 1] == x, m.push(x)[0] == m[0],
        forall|i: int| 0 <= i <= n ==> m.push(x)[i] == m[i],
{ reveal(steps); let w = m.push(x); assert forall|k: int| 0 <= k < n + 1 implies only(#[trigger] w[k], w[k + 1], dir, parts(k)) by { if k < n { assert(only(m[k], m[k + 1], dir, parts(k))); } } }
/// a part stays as it was written
pub proof fn lemma_chain(m: Seq<Files>, dir: Seq<char>, t: int, i: int, n: int, j: int)
    requires steps(m, dir, t), 0 <= i <= n <= t <= 14, 0 <= j < 14, j < i || n <= j,
    ensures agree(m[i], m[n], dir, parts(j)),
    decreases n - i,
{
    if i == n { lemma_agree_self(m[i], dir, parts(j)); } else {
        lemma_chain(m, dir, t, i, n - 1, j);
        lemma_parts(j, n - 1);
        assert(only(m[n - 1], m[n], dir, parts(n - 1))) by { reveal(steps); assert(only(m[n - 1], m[n - 1 + 1], dir, parts(n - 1))); }
        lemma_agree_on(m[i], m[n - 1], m[n], dir, parts(j), parts(n - 1));
    }
}
/// nothing of a table is there yet
pub open spec fn clear(m: Files, dir: Seq<char>) -> bool { forall|j: int, k: Seq<char>| 0 <= j < 14 && #[trigger] owns(dir, parts(j), k) ==> !m.contains_key(k) }
