@@module tableinfo src/vpx/tableinfo.rs
@@broadcast vpin_cfb
@@item struct TableInfo
@@itemsubst HashMap=>InfoMap
@@fn TableInfo::new
@@subst HashMap::new=>InfoMap::new
    ensures r.table_name is None, r.author_name is None, r.screenshot is None, r.table_blurb is None, r.table_rules is None, r.author_email is None, r.release_date is None, r.table_save_rev is None, r.table_version is None, r.author_website is None, r.table_save_date is None, r.table_description is None, r.properties.map() == Map::<Seq<char>, Seq<char>>::empty(), no_fields(r),
@@fn write_stream_string
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(norm(path@), utf16_enc(str@)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@fn write_stream_binary
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(norm(path@), bytes@), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@fn read_stream_string
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> old(comp)@.contains_key(norm(path@)) && utf16_ok(old(comp)@[norm(path@)]) && r->Ok_0@ == utf16_dec(old(comp)@[norm(path@)]),
        old(comp)@.contains_key(norm(path@)) && utf16_ok(old(comp)@[norm(path@)]) ==> r is Ok,
@@subst \.unwrap\(\)=>.v_must()
@@fn read_stream_binary
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> old(comp)@.contains_key(norm(path@)) && r->Ok_0@ == old(comp)@[norm(path@)],
        old(comp).ok() && old(comp)@.contains_key(norm(path@)) ==> r is Ok,
@@fn write_tableinfo
    requires forall|j: int| 0 <= j < table_info.properties.pairs().len() ==> plain(#[trigger] table_info.properties.pairs()[j].0@),
    ensures r is Ok ==> final(comp)@ == put_info(old(comp)@, *table_info), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@before_loop 0
    let ghost __m = comp@;
    let __pv = table_info.properties.v_pairs();
    proof { assert(__m == put_std(old(comp)@, *table_info)); }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == __pv@.len(), forall|j: int| 0 <= j < __pv@.len() ==> *(#[trigger] __it.seq()[j]) == __pv@[j], __pv@ == table_info.properties.pairs(), __m == put_std(old(comp)@, *table_info), table_info_path@ == "TableInfo"@,
        comp@ == put_props(__m, __pv@, __it.index() as int), comp.ok() == old(comp).ok(), forall|j: int| 0 <= j < __pv@.len() ==> plain(#[trigger] __pv@[j].0@),
@@loop_start 0
    broadcast use {vpin_cfb};
    proof { lemma_tips(); }
@@subst (?s)(let table_info_path = Path::new\([^;]*;)=>\1 assert(table_info_path@ == "TableInfo"@) by { lemma_tips(); lemma_names(); }
@@subst (?s)(if let Some\(\w+\) = &table_info\s*\.(\w+)\s*\{[^{}]*\{\s*write_stream_(\w+)\([^{}]*?join\(("\w+")\)[^{}]*\}\?;\s*\})=>let ghost __g = comp@; loop invariant_except_break comp@ == __g, invariant comp.ok() == old(comp).ok(), table_info_path@ == "TableInfo"@, ensures comp@ == put_opt(__g, \4@, of_\3(table_info.\2)), decreases 0int { broadcast use {vpin_cfb}; \1 proof { reveal(put_opt); lemma_wr(\4@); } break; }
@@subst (?s)for \(key, value\) in(.*?)&?table_info\s*\.properties(\.iter\(\))?(\s*\n[^{]*)\{=>for __kv in\1__pv.iter()\3{ let (key, value) = (&__kv.0, &__kv.1); let ghost __i = __it.index() as int; proof { assert(*__kv == __pv@[__i]); assert(plain(__pv@[__i].0@)); }
@@fn read_tableinfo
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> info_in(old(comp)@, r->Ok_0),
        old(comp).ok() && info_texts(old(comp)@) ==> r is Ok,
@@subst \.unwrap\(\)=>.v_must()
@@subst let mut (__out\d+): Vec\s*<\s*_\s*>=>let mut \1: Vec<Path>
@@start
    proof { lemma_tips(); lemma_names(); }
@@before_loop 0
    let ghost __l = entries@;
    proof { lemma_gather0(__l, __out2@); }
@@loop 0
    iter __it
    invariant
        __it.seq() == __l, *comp == *old(comp),
        gathered(__l, __it.index() as int, __out2@),
@@loop_start 0
    let ghost __o = __out2@;
    let ghost __i = __it.index() as int;
@@loop_end 0
    proof {
        assert(__l[__i].s ==> __out2@.take(__o.len() as int) =~= __o);
        lemma_gather(__l, __i, __o, __out2@);
    }
@@before_loop 1
    let ghost __m = old(comp)@;
    let ghost __q = paths@;
    proof { lemma_listed(__m, __l, __q); lemma_read_none(__m, table_info, __q); }
@@loop 1
    iter __it
    invariant
        __it.seq().len() == __q.len(), forall|j: int| 0 <= j < __q.len() ==> *(#[trigger] __it.seq()[j]) == __q[j], __q == paths@, comp@ == __m, __m == old(comp)@, comp.ok() == old(comp).ok(),
        told(__m, table_info, seen(__q, __it.index() as int)), listed(__m, __q),
@@loop_start 1
    let ghost __j = __it.index() as int;
    let ghost __t = table_info;
    proof { lemma_tips(); lemma_names(); lemma_texts(__m, __q, __j); axiom_base_name(__q[__j]@); assert(path@ == __q[__j]@); assert(info_key(path@)); lemma_tip_of(path@); }
@@loop_end 1
    proof {
        assert(read_one(__m, __t, table_info, path@.skip(10)));
        lemma_read_one(__m, __t, table_info, __q, __j);
    }
@@after_loop 1
    proof { lemma_all(__m, table_info, __q); }
@@extra
impl<T> VMust<T> for Result<T, Error> {
    open spec fn good(&self, r: T) -> bool { *self is Ok && r == self->Ok_0 }
    #[verifier::external_body] fn v_must(self) -> T { self.unwrap() }
}
/// Result::unwrap seen as an operation that does not return on an error
pub trait VMust<T>: Sized { spec fn good(&self, r: T) -> bool; fn v_must(self) -> (r: T) ensures self.good(r); }
/// assumed: std's hash map holds one value per key and its iterator lists each key once, in any order
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct InfoMap<K, V> { k: Vec<(K, V)> }
impl InfoMap<String, String> {
    pub uninterp spec fn pairs(&self) -> Seq<(String, String)>;
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: InfoMap<String, String>) ensures r.pairs().len() == 0, r.map() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>) ensures final(self).map() == old(self).map().insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn v_pairs(&self) -> (r: Vec<(String, String)>) ensures r@ == self.pairs() { unimplemented!() }
    #[verifier::external_body] pub proof fn axiom_pairs(&self)
        ensures
            forall|i: int, j: int| 0 <= i < j < self.pairs().len() ==> (#[trigger] self.pairs()[i]).0@ != (#[trigger] self.pairs()[j]).0@,
            forall|i: int| 0 <= i < self.pairs().len() ==> self.map().contains_key((#[trigger] self.pairs()[i]).0@) && self.map()[self.pairs()[i].0@] == self.pairs()[i].1@,
            forall|k: Seq<char>| #[trigger] self.map().contains_key(k) ==> exists|i: int| 0 <= i < self.pairs().len() && (#[trigger] self.pairs()[i]).0@ == k { }
}
/// a name the container takes as one component of a path
pub open spec fn plain(n: Seq<char>) -> bool { n.len() > 0 && !n.contains('/') && n != "."@ && n != ".."@ }
pub open spec fn tip(n: Seq<char>) -> Seq<char> { "TableInfo/"@ + n }
/// the names the format gives a meaning
pub open spec fn fixed_name(n: Seq<char>) -> bool { n == "TableName"@ || n == "AuthorName"@ || n == "Screenshot"@ || n == "TableBlurb"@ || n == "TableRules"@ || n == "AuthorEmail"@ || n == "ReleaseDate"@ || n == "TableSaveRev"@ || n == "TableVersion"@ || n == "AuthorWebSite"@ || n == "TableSaveDate"@ || n == "TableDescription"@ }
pub open spec fn of_string(o: Option<String>) -> Option<Seq<u8>> { if o is Some { Some(utf16_enc(o->0@)) } else { None } }
pub open spec fn of_binary(o: Option<Vec<u8>>) -> Option<Seq<u8>> { if o is Some { Some(o->0@) } else { None } }
pub open spec fn as_text(o: Option<String>) -> Option<Seq<char>> { if o is Some { Some(o->0@) } else { None } }
pub open spec fn as_bytes(o: Option<Vec<u8>>) -> Option<Seq<u8>> { if o is Some { Some(o->0@) } else { None } }
pub open spec fn in_text(h: bool, m: Map<Seq<char>, Seq<u8>>, n: Seq<char>) -> Option<Seq<char>> { if h { Some(utf16_dec(m[tip(n)])) } else { None } }
pub open spec fn in_bytes(h: bool, m: Map<Seq<char>, Seq<u8>>, n: Seq<char>) -> Option<Seq<u8>> { if h { Some(m[tip(n)]) } else { None } }
#[verifier::opaque]
pub open spec fn put_opt(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, o: Option<Seq<u8>>) -> Map<Seq<char>, Seq<u8>> { if o is Some { m.insert(tip(n), o->0) } else { m } }
pub open spec fn put_std(m: Map<Seq<char>, Seq<u8>>, i: TableInfo) -> Map<Seq<char>, Seq<u8>> {
    put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(put_opt(m, "TableName"@, of_string(i.table_name)), "AuthorName"@, of_string(i.author_name)), "Screenshot"@, of_binary(i.screenshot)), "TableBlurb"@, of_string(i.table_blurb)), "TableRules"@, of_string(i.table_rules)), "AuthorEmail"@, of_string(i.author_email)), "ReleaseDate"@, of_string(i.release_date)), "TableSaveRev"@, of_string(i.table_save_rev)), "TableVersion"@, of_string(i.table_version)), "AuthorWebSite"@, of_string(i.author_website)), "TableSaveDate"@, of_string(i.table_save_date)), "TableDescription"@, of_string(i.table_description))
}
pub open spec fn put_props(m: Map<Seq<char>, Seq<u8>>, p: Seq<(String, String)>, n: int) -> Map<Seq<char>, Seq<u8>> decreases n {
    if n <= 0 { m } else { put_props(m, p, n - 1).insert(tip(p[n - 1].0@), utf16_enc(p[n - 1].1@)) }
}
/// the streams of a table's information
pub open spec fn put_info(m: Map<Seq<char>, Seq<u8>>, i: TableInfo) -> Map<Seq<char>, Seq<u8>> { put_props(put_std(m, i), i.properties.pairs(), i.properties.pairs().len() as int) }
/// the information in streams of which the predicate has says which are there
#[verifier::opaque]
pub open spec fn told(m: Map<Seq<char>, Seq<u8>>, i: TableInfo, has: spec_fn(Seq<char>) -> bool) -> bool {
    &&& as_text(i.table_name) == in_text(has(tip("TableName"@)), m, "TableName"@)
    &&& as_text(i.author_name) == in_text(has(tip("AuthorName"@)), m, "AuthorName"@)
    &&& as_bytes(i.screenshot) == in_bytes(has(tip("Screenshot"@)), m, "Screenshot"@)
    &&& as_text(i.table_blurb) == in_text(has(tip("TableBlurb"@)), m, "TableBlurb"@)
    &&& as_text(i.table_rules) == in_text(has(tip("TableRules"@)), m, "TableRules"@)
    &&& as_text(i.author_email) == in_text(has(tip("AuthorEmail"@)), m, "AuthorEmail"@)
    &&& as_text(i.release_date) == in_text(has(tip("ReleaseDate"@)), m, "ReleaseDate"@)
    &&& as_text(i.table_save_rev) == in_text(has(tip("TableSaveRev"@)), m, "TableSaveRev"@)
    &&& as_text(i.table_version) == in_text(has(tip("TableVersion"@)), m, "TableVersion"@)
    &&& as_text(i.author_website) == in_text(has(tip("AuthorWebSite"@)), m, "AuthorWebSite"@)
    &&& as_text(i.table_save_date) == in_text(has(tip("TableSaveDate"@)), m, "TableSaveDate"@)
    &&& as_text(i.table_description) == in_text(has(tip("TableDescription"@)), m, "TableDescription"@)
    &&& forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) == (has(tip(n)) && plain(n) && !fixed_name(n))
    &&& forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) ==> i.properties.map()[n] == utf16_dec(m[tip(n)])
}
/// u is t after reading the stream named n
pub open spec fn read_one(m: Map<Seq<char>, Seq<u8>>, t: TableInfo, u: TableInfo, n: Seq<char>) -> bool {
        &&& as_text(u.table_name) == (if n == "TableName"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_name) })
        &&& as_text(u.author_name) == (if n == "AuthorName"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.author_name) })
        &&& as_bytes(u.screenshot) == (if n == "Screenshot"@ { Some(m[tip(n)]) } else { as_bytes(t.screenshot) })
        &&& as_text(u.table_blurb) == (if n == "TableBlurb"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_blurb) })
        &&& as_text(u.table_rules) == (if n == "TableRules"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_rules) })
        &&& as_text(u.author_email) == (if n == "AuthorEmail"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.author_email) })
        &&& as_text(u.release_date) == (if n == "ReleaseDate"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.release_date) })
        &&& as_text(u.table_save_rev) == (if n == "TableSaveRev"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_save_rev) })
        &&& as_text(u.table_version) == (if n == "TableVersion"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_version) })
        &&& as_text(u.author_website) == (if n == "AuthorWebSite"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.author_website) })
        &&& as_text(u.table_save_date) == (if n == "TableSaveDate"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_save_date) })
        &&& as_text(u.table_description) == (if n == "TableDescription"@ { Some(utf16_dec(m[tip(n)])) } else { as_text(t.table_description) })
        &&& u.properties.map() == (if fixed_name(n) { t.properties.map() } else { t.properties.map().insert(n, utf16_dec(m[tip(n)])) })
}
pub proof fn lemma_read_one(m: Map<Seq<char>, Seq<u8>>, t: TableInfo, u: TableInfo, q: Seq<Path>, j: int)
    requires 0 <= j < q.len(), info_key(q[j]@), told(m, t, seen(q, j)), read_one(m, t, u, q[j]@.skip(10)),
    ensures told(m, u, seen(q, j + 1)),
{
    reveal(told);
    lemma_next(q, j); lemma_tip_of(q[j]@); lemma_names(); lemma_fixed_plain();
    let n = q[j]@.skip(10);
    let s = seen(q, j);
    assert forall|x: Seq<char>| #[trigger] seen(q, j + 1)(tip(x)) == (s(tip(x)) || x == n) by { }
}
pub proof fn lemma_read_none(m: Map<Seq<char>, Seq<u8>>, t: TableInfo, q: Seq<Path>)
    requires t.properties.map() == Map::<Seq<char>, Seq<char>>::empty(), t.table_name is None, t.author_name is None, t.screenshot is None, t.table_blurb is None, t.table_rules is None, t.author_email is None, t.release_date is None, t.table_save_rev is None, t.table_version is None, t.author_website is None, t.table_save_date is None, t.table_description is None,
    ensures told(m, t, seen(q, 0)),
{ reveal(told); }
pub open spec fn info_in(m: Map<Seq<char>, Seq<u8>>, i: TableInfo) -> bool { told(m, i, |k: Seq<char>| m.contains_key(k)) }
/// every stream of the information is text, save the screenshot
pub open spec fn info_texts(m: Map<Seq<char>, Seq<u8>>) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(tip(n)) && plain(n) && n != "Screenshot"@ ==> utf16_ok(m[tip(n)]) }
pub proof fn lemma_texts(m: Map<Seq<char>, Seq<u8>>, q: Seq<Path>, j: int)
    requires 0 <= j < q.len(), listed(m, q),
    ensures m.contains_key(q[j]@), info_texts(m) && q[j]@.skip(10) != "Screenshot"@ ==> utf16_ok(m[q[j]@]),
{ lemma_tip_of(q[j]@); let n = q[j]@.skip(10); assert(m.contains_key(tip(n))); }
/// one of the first n listed streams
pub open spec fn seen(l: Seq<Path>, n: int) -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| exists|j: int| 0 <= j < n && (#[trigger] l[j])@ == k }
pub open spec fn info_key(k: Seq<char>) -> bool { k.len() > 10 && k.take(10) == "TableInfo/"@ && plain(k.skip(10)) }
pub struct Entry { pub p: Path, pub s: bool }
impl Entry {
    pub fn is_stream(&self) -> (r: bool) ensures r == self.s { self.s }
    pub fn path(&self) -> (r: &Path) ensures *r == self.p { &self.p }
}
impl VToOwned for Path {
    type O = Path;
    open spec fn to_spec(&self, r: Path) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: Path) { unimplemented!() }
}
pub struct OsName { pub s: String }
impl OsName { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, (r->0)@ == self.s@ { unimplemented!() } }
/// assumed: std::path's file_name is the part after the last separator
pub uninterp spec fn base_name(p: Seq<char>) -> Option<Seq<char>>;
pub axiom fn axiom_base_name(p: Seq<char>) requires info_key(p) ensures base_name(p) == Some(p.skip(10));
impl Path { #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsName>) ensures r is Some == base_name(self@) is Some, r is Some ==> (r->0).s@ == base_name(self@)->0 { unimplemented!() } }
impl<F> CompoundFile<F> {
    /// assumed: crate cfb lists each stream directly below a storage once, and nothing else counts as a stream
    #[verifier::external_body] pub fn read_storage<P: VPath>(&mut self, p: P) -> (r: Result<Vec<Entry>, Error>)
        ensures
            *final(self) == *old(self),
            r is Ok && p.key() == "TableInfo"@ ==> {
                &&& forall|i: int| 0 <= i < r->Ok_0@.len() && (#[trigger] r->Ok_0@[i]).s ==> info_key(r->Ok_0@[i].p@) && old(self)@.contains_key(r->Ok_0@[i].p@)
                &&& forall|k: Seq<char>| #[trigger] old(self)@.contains_key(k) && info_key(k) ==> exists|i: int| 0 <= i < r->Ok_0@.len() && (#[trigger] r->Ok_0@[i]).s && r->Ok_0@[i].p@ == k
            } { unimplemented!() }
}
/// the listed paths are exactly the information streams
pub open spec fn listed(m: Map<Seq<char>, Seq<u8>>, q: Seq<Path>) -> bool {
    &&& forall|j: int| 0 <= j < q.len() ==> info_key((#[trigger] q[j])@) && m.contains_key(q[j]@)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && info_key(k) ==> exists|j: int| 0 <= j < q.len() && (#[trigger] q[j])@ == k
}
pub open spec fn in_entries(l: Seq<Entry>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] l[i]).s && l[i].p@ == k }
pub open spec fn in_paths(q: Seq<Path>, k: Seq<char>) -> bool { exists|j: int| 0 <= j < q.len() && (#[trigger] q[j])@ == k }
/// q lists the streams among the first n entries
#[verifier::opaque]
pub open spec fn gathered(l: Seq<Entry>, n: int, q: Seq<Path>) -> bool {
    &&& forall|i: int| 0 <= i < n && (#[trigger] l[i]).s ==> in_paths(q, l[i].p@)
    &&& forall|j: int| 0 <= j < q.len() ==> in_entries(l, n, (#[trigger] q[j])@)
}
pub proof fn lemma_gather(l: Seq<Entry>, n: int, o: Seq<Path>, q: Seq<Path>)
    requires 0 <= n < l.len(), gathered(l, n, o), if l[n].s { q.len() == o.len() + 1 && q.take(o.len() as int) == o && q.last()@ == l[n].p@ } else { q == o },
    ensures gathered(l, n + 1, q),
{
    reveal(gathered);
    assert forall|k: Seq<char>| in_paths(o, k) implies #[trigger] in_paths(q, k) by { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j])@ == k; if l[n].s { assert(q.take(o.len() as int)[j] == q[j]); } assert(q[j]@ == k); }
    assert forall|k: Seq<char>| in_entries(l, n, k) implies #[trigger] in_entries(l, n + 1, k) by { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).s && l[i].p@ == k; assert(l[i].s); }
    if l[n].s { assert(q[o.len() as int]@ == l[n].p@); assert(in_paths(q, l[n].p@)); assert(in_entries(l, n + 1, l[n].p@)); }
    assert forall|j: int| 0 <= j < q.len() implies in_entries(l, n + 1, (#[trigger] q[j])@) by { if j < o.len() { if l[n].s { assert(q.take(o.len() as int)[j] == q[j]); } assert(in_entries(l, n, o[j]@)); } }
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] l[i]).s implies in_paths(q, l[i].p@) by { if i < n { assert(in_paths(o, l[i].p@)); } }
}
pub proof fn lemma_gather0(l: Seq<Entry>, q: Seq<Path>) requires q.len() == 0 ensures gathered(l, 0, q) { reveal(gathered); }
pub proof fn lemma_listed(m: Map<Seq<char>, Seq<u8>>, l: Seq<Entry>, q: Seq<Path>)
    requires
        forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).s ==> info_key(l[i].p@) && m.contains_key(l[i].p@),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) && info_key(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).s && l[i].p@ == k,
        gathered(l, l.len() as int, q),
    ensures listed(m, q),
{
    reveal(gathered);
    assert forall|j: int| 0 <= j < q.len() implies info_key((#[trigger] q[j])@) && m.contains_key(q[j]@) by { assert(in_entries(l, l.len() as int, q[j]@)); }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && info_key(k) implies exists|j: int| 0 <= j < q.len() && (#[trigger] q[j])@ == k by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).s && l[i].p@ == k; assert(in_paths(q, l[i].p@)); }
}
pub proof fn lemma_next(q: Seq<Path>, n: int)
    requires 0 <= n < q.len(),
    ensures forall|k: Seq<char>| #[trigger] seen(q, n + 1)(k) == (seen(q, n)(k) || k == q[n]@),
{
    assert forall|k: Seq<char>| #[trigger] seen(q, n + 1)(k) == (seen(q, n)(k) || k == q[n]@) by {
        if seen(q, n)(k) { let j = choose|j: int| 0 <= j < n && (#[trigger] q[j])@ == k; assert(q[j]@ == k && j < n + 1); }
        if k == q[n]@ { assert(n < n + 1 && q[n]@ == k); }
    }
}
pub proof fn lemma_tip_of(p: Seq<char>) requires info_key(p) ensures p == tip(p.skip(10)), plain(p.skip(10)), p.len() != 1, forall|n: Seq<char>| #[trigger] tip(n) == p ==> n == p.skip(10),
{
    reveal_strlit("TableInfo/");
    assert(p =~= tip(p.skip(10)));
    assert forall|n: Seq<char>| #[trigger] tip(n) == p implies n == p.skip(10) by { assert(tip(n).skip(10) =~= n); }
}
pub proof fn lemma_all(m: Map<Seq<char>, Seq<u8>>, i: TableInfo, q: Seq<Path>)
    requires told(m, i, seen(q, q.len() as int)), listed(m, q),
    ensures info_in(m, i),
{
    reveal(told);
    lemma_names();
    let s = seen(q, q.len() as int);
    assert forall|n: Seq<char>| plain(n) implies s(#[trigger] tip(n)) == m.contains_key(tip(n)) by { reveal_strlit("TableInfo/"); assert(tip(n).take(10) =~= "TableInfo/"@); assert(tip(n).skip(10) =~= n); assert(info_key(tip(n))); }
    lemma_fixed_plain();
}
pub proof fn lemma_no_slash(n: Seq<char>) requires forall|i: int| 0 <= i < n.len() ==> n[i] != '/' ensures !n.contains('/') { }
pub proof fn lemma_fixed_plain() ensures forall|n: Seq<char>| #[trigger] fixed_name(n) ==> plain(n), plain("TableName"@), plain("AuthorName"@), plain("Screenshot"@), plain("TableBlurb"@), plain("TableRules"@), plain("AuthorEmail"@), plain("ReleaseDate"@), plain("TableSaveRev"@), plain("TableVersion"@), plain("AuthorWebSite"@), plain("TableSaveDate"@), plain("TableDescription"@),
{
    reveal_strlit("TableName"); reveal_strlit("AuthorName"); reveal_strlit("Screenshot"); reveal_strlit("TableBlurb"); reveal_strlit("TableRules"); reveal_strlit("AuthorEmail"); reveal_strlit("ReleaseDate"); reveal_strlit("TableSaveRev"); reveal_strlit("TableVersion"); reveal_strlit("AuthorWebSite"); reveal_strlit("TableSaveDate"); reveal_strlit("TableDescription");
    reveal_strlit("."); reveal_strlit("..");
    assert(!"TableName"@.contains('/')) by { lemma_no_slash("TableName"@); }
    assert(!"AuthorName"@.contains('/')) by { lemma_no_slash("AuthorName"@); }
    assert(!"Screenshot"@.contains('/')) by { lemma_no_slash("Screenshot"@); }
    assert(!"TableBlurb"@.contains('/')) by { lemma_no_slash("TableBlurb"@); }
    assert(!"TableRules"@.contains('/')) by { lemma_no_slash("TableRules"@); }
    assert(!"AuthorEmail"@.contains('/')) by { lemma_no_slash("AuthorEmail"@); }
    assert(!"ReleaseDate"@.contains('/')) by { lemma_no_slash("ReleaseDate"@); }
    assert(!"TableSaveRev"@.contains('/')) by { lemma_no_slash("TableSaveRev"@); }
    assert(!"TableVersion"@.contains('/')) by { lemma_no_slash("TableVersion"@); }
    assert(!"AuthorWebSite"@.contains('/')) by { lemma_no_slash("AuthorWebSite"@); }
    assert(!"TableSaveDate"@.contains('/')) by { lemma_no_slash("TableSaveDate"@); }
    assert(!"TableDescription"@.contains('/')) by { lemma_no_slash("TableDescription"@); }
}
pub proof fn lemma_names()
    ensures
        "TableName"@.len() == 9,
        "AuthorName"@.len() == 10,
        "Screenshot"@.len() == 10,
        "TableBlurb"@.len() == 10,
        "TableRules"@.len() == 10,
        "AuthorEmail"@.len() == 11,
        "ReleaseDate"@.len() == 11,
        "TableSaveRev"@.len() == 12,
        "TableVersion"@.len() == 12,
        "AuthorWebSite"@.len() == 13,
        "TableSaveDate"@.len() == 13,
        "TableDescription"@.len() == 16,
        "AuthorName"@ != "Screenshot"@, "AuthorName"@ != "TableBlurb"@, "AuthorName"@ != "TableRules"@, "Screenshot"@ != "TableBlurb"@, "Screenshot"@ != "TableRules"@, "TableBlurb"@ != "TableRules"@, "AuthorEmail"@ != "ReleaseDate"@, "TableSaveRev"@ != "TableVersion"@, "AuthorWebSite"@ != "TableSaveDate"@,
{
    reveal_strlit("TableName"); reveal_strlit("AuthorName"); reveal_strlit("Screenshot"); reveal_strlit("TableBlurb"); reveal_strlit("TableRules"); reveal_strlit("AuthorEmail"); reveal_strlit("ReleaseDate"); reveal_strlit("TableSaveRev"); reveal_strlit("TableVersion"); reveal_strlit("AuthorWebSite"); reveal_strlit("TableSaveDate"); reveal_strlit("TableDescription");
    assert("AuthorName"@[0] != "Screenshot"@[0]); assert("AuthorName"@[0] != "TableBlurb"@[0]); assert("AuthorName"@[0] != "TableRules"@[0]); assert("Screenshot"@[0] != "TableBlurb"@[0]); assert("Screenshot"@[0] != "TableRules"@[0]); assert("TableBlurb"@[5] != "TableRules"@[5]); assert("AuthorEmail"@[0] != "ReleaseDate"@[0]); assert("TableSaveRev"@[5] != "TableVersion"@[5]); assert("AuthorWebSite"@[0] != "TableSaveDate"@[0]);
}
pub proof fn lemma_tips()
    ensures
        norm("/"@).len() == 0, norm("TableInfo"@) == "TableInfo"@, "TableInfo"@.len() == 9,
        forall|s: Seq<char>| s.len() != 1 ==> #[trigger] norm(s) == s,
        forall|n: Seq<char>| plain(n) ==> #[trigger] norm(n) == n,
        forall|n: Seq<char>| #[trigger] joined("TableInfo"@, n) == tip(n),
        forall|n: Seq<char>| (#[trigger] tip(n)).len() == 10 + n.len(),
{
    lemma_names();
    reveal_strlit("/"); reveal_strlit("TableInfo"); reveal_strlit("TableInfo/");
    assert forall|n: Seq<char>| plain(n) implies #[trigger] norm(n) == n by { if n == "/"@ { assert(n[0] == '/'); assert(n.contains('/')); } }
    assert forall|n: Seq<char>| #[trigger] joined("TableInfo"@, n) == tip(n) by { assert(joined("TableInfo"@, n) =~= tip(n)); }
}
/// every further information name can be a stream of its own
pub open spec fn names_ok(i: TableInfo) -> bool { forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) ==> plain(n) && !fixed_name(n) }
pub open spec fn no_info(m: Map<Seq<char>, Seq<u8>>) -> bool { forall|n: Seq<char>| !#[trigger] m.contains_key(tip(n)) }
/// equal as Rust's == sees it
pub open spec fn same_info(a: TableInfo, b: TableInfo) -> bool {
    &&& as_text(a.table_name) == as_text(b.table_name) && as_text(a.author_name) == as_text(b.author_name) && as_bytes(a.screenshot) == as_bytes(b.screenshot) && as_text(a.table_blurb) == as_text(b.table_blurb) && as_text(a.table_rules) == as_text(b.table_rules) && as_text(a.author_email) == as_text(b.author_email) && as_text(a.release_date) == as_text(b.release_date) && as_text(a.table_save_rev) == as_text(b.table_save_rev) && as_text(a.table_version) == as_text(b.table_version) && as_text(a.author_website) == as_text(b.author_website) && as_text(a.table_save_date) == as_text(b.table_save_date) && as_text(a.table_description) == as_text(b.table_description)
    &&& a.properties.map() == b.properties.map()
}
pub proof fn lemma_tip_inj(a: Seq<char>, b: Seq<char>) requires tip(a) == tip(b) ensures a == b { reveal_strlit("TableInfo/"); assert(tip(a).skip(10) =~= a); assert(tip(b).skip(10) =~= b); }
/// not a path below TableInfo
#[verifier::opaque]
pub open spec fn apart(k: Seq<char>) -> bool { !(k.len() >= 10 && k.take(10) == "TableInfo/"@) }
pub proof fn lemma_apart() ensures forall|x: Seq<char>| !apart(#[trigger] tip(x)) { reveal(apart); reveal_strlit("TableInfo/"); assert forall|x: Seq<char>| !apart(#[trigger] tip(x)) by { assert(tip(x).take(10) =~= "TableInfo/"@); } }
pub proof fn lemma_opt_apart(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, o: Option<Seq<u8>>, k: Seq<char>)
    requires apart(k),
    ensures put_opt(m, n, o).contains_key(k) == m.contains_key(k), put_opt(m, n, o)[k] == m[k],
{ reveal(put_opt); lemma_apart(); assert(!apart(tip(n))); }
pub proof fn lemma_opt_at(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, o: Option<Seq<u8>>, x: Seq<char>)
    ensures
        put_opt(m, n, o).contains_key(tip(x)) == ((x == n && o is Some) || m.contains_key(tip(x))),
        put_opt(m, n, o)[tip(x)] == (if x == n && o is Some { o->0 } else { m[tip(x)] }),
{ reveal(put_opt); if tip(x) == tip(n) { lemma_tip_inj(x, n); } }
/// the stream of a name the format gives a meaning
pub open spec fn std_of(i: TableInfo, x: Seq<char>) -> Option<Seq<u8>> {
    if x == "TableName"@ { of_string(i.table_name) } else if x == "AuthorName"@ { of_string(i.author_name) } else if x == "Screenshot"@ { of_binary(i.screenshot) } else if x == "TableBlurb"@ { of_string(i.table_blurb) } else if x == "TableRules"@ { of_string(i.table_rules) } else if x == "AuthorEmail"@ { of_string(i.author_email) } else if x == "ReleaseDate"@ { of_string(i.release_date) } else if x == "TableSaveRev"@ { of_string(i.table_save_rev) } else if x == "TableVersion"@ { of_string(i.table_version) } else if x == "AuthorWebSite"@ { of_string(i.author_website) } else if x == "TableSaveDate"@ { of_string(i.table_save_date) } else if x == "TableDescription"@ { of_string(i.table_description) } else { None }
}
pub proof fn lemma_std_apart(m: Map<Seq<char>, Seq<u8>>, i: TableInfo, k: Seq<char>)
    requires apart(k),
    ensures put_std(m, i).contains_key(k) == m.contains_key(k), put_std(m, i)[k] == m[k],
{
    let m1 = put_opt(m, "TableName"@, of_string(i.table_name)); lemma_opt_apart(m, "TableName"@, of_string(i.table_name), k);
    let m2 = put_opt(m1, "AuthorName"@, of_string(i.author_name)); lemma_opt_apart(m1, "AuthorName"@, of_string(i.author_name), k);
    let m3 = put_opt(m2, "Screenshot"@, of_binary(i.screenshot)); lemma_opt_apart(m2, "Screenshot"@, of_binary(i.screenshot), k);
    let m4 = put_opt(m3, "TableBlurb"@, of_string(i.table_blurb)); lemma_opt_apart(m3, "TableBlurb"@, of_string(i.table_blurb), k);
    let m5 = put_opt(m4, "TableRules"@, of_string(i.table_rules)); lemma_opt_apart(m4, "TableRules"@, of_string(i.table_rules), k);
    let m6 = put_opt(m5, "AuthorEmail"@, of_string(i.author_email)); lemma_opt_apart(m5, "AuthorEmail"@, of_string(i.author_email), k);
    let m7 = put_opt(m6, "ReleaseDate"@, of_string(i.release_date)); lemma_opt_apart(m6, "ReleaseDate"@, of_string(i.release_date), k);
    let m8 = put_opt(m7, "TableSaveRev"@, of_string(i.table_save_rev)); lemma_opt_apart(m7, "TableSaveRev"@, of_string(i.table_save_rev), k);
    let m9 = put_opt(m8, "TableVersion"@, of_string(i.table_version)); lemma_opt_apart(m8, "TableVersion"@, of_string(i.table_version), k);
    let m10 = put_opt(m9, "AuthorWebSite"@, of_string(i.author_website)); lemma_opt_apart(m9, "AuthorWebSite"@, of_string(i.author_website), k);
    let m11 = put_opt(m10, "TableSaveDate"@, of_string(i.table_save_date)); lemma_opt_apart(m10, "TableSaveDate"@, of_string(i.table_save_date), k);
    let m12 = put_opt(m11, "TableDescription"@, of_string(i.table_description)); lemma_opt_apart(m11, "TableDescription"@, of_string(i.table_description), k);
}
pub proof fn lemma_std_at(m: Map<Seq<char>, Seq<u8>>, i: TableInfo, x: Seq<char>)
    ensures
        put_std(m, i).contains_key(tip(x)) == (std_of(i, x) is Some || m.contains_key(tip(x))),
        put_std(m, i)[tip(x)] == (if std_of(i, x) is Some { std_of(i, x)->0 } else { m[tip(x)] }),
{
    lemma_names();
    let m1 = put_opt(m, "TableName"@, of_string(i.table_name)); lemma_opt_at(m, "TableName"@, of_string(i.table_name), x);
    let m2 = put_opt(m1, "AuthorName"@, of_string(i.author_name)); lemma_opt_at(m1, "AuthorName"@, of_string(i.author_name), x);
    let m3 = put_opt(m2, "Screenshot"@, of_binary(i.screenshot)); lemma_opt_at(m2, "Screenshot"@, of_binary(i.screenshot), x);
    let m4 = put_opt(m3, "TableBlurb"@, of_string(i.table_blurb)); lemma_opt_at(m3, "TableBlurb"@, of_string(i.table_blurb), x);
    let m5 = put_opt(m4, "TableRules"@, of_string(i.table_rules)); lemma_opt_at(m4, "TableRules"@, of_string(i.table_rules), x);
    let m6 = put_opt(m5, "AuthorEmail"@, of_string(i.author_email)); lemma_opt_at(m5, "AuthorEmail"@, of_string(i.author_email), x);
    let m7 = put_opt(m6, "ReleaseDate"@, of_string(i.release_date)); lemma_opt_at(m6, "ReleaseDate"@, of_string(i.release_date), x);
    let m8 = put_opt(m7, "TableSaveRev"@, of_string(i.table_save_rev)); lemma_opt_at(m7, "TableSaveRev"@, of_string(i.table_save_rev), x);
    let m9 = put_opt(m8, "TableVersion"@, of_string(i.table_version)); lemma_opt_at(m8, "TableVersion"@, of_string(i.table_version), x);
    let m10 = put_opt(m9, "AuthorWebSite"@, of_string(i.author_website)); lemma_opt_at(m9, "AuthorWebSite"@, of_string(i.author_website), x);
    let m11 = put_opt(m10, "TableSaveDate"@, of_string(i.table_save_date)); lemma_opt_at(m10, "TableSaveDate"@, of_string(i.table_save_date), x);
    let m12 = put_opt(m11, "TableDescription"@, of_string(i.table_description)); lemma_opt_at(m11, "TableDescription"@, of_string(i.table_description), x);
}
pub proof fn lemma_put_std(m: Map<Seq<char>, Seq<u8>>, i: TableInfo)
    ensures
        forall|x: Seq<char>| !fixed_name(x) ==> (#[trigger] put_std(m, i).contains_key(tip(x))) == m.contains_key(tip(x)) && put_std(m, i)[tip(x)] == m[tip(x)],
        forall|k: Seq<char>| apart(k) ==> (#[trigger] put_std(m, i).contains_key(k)) == m.contains_key(k) && put_std(m, i)[k] == m[k],
        no_info(m) ==> {
            &&& put_std(m, i).contains_key(tip("TableName"@)) == (i.table_name is Some) && (i.table_name is Some ==> put_std(m, i)[tip("TableName"@)] == of_string(i.table_name)->0)
            &&& put_std(m, i).contains_key(tip("AuthorName"@)) == (i.author_name is Some) && (i.author_name is Some ==> put_std(m, i)[tip("AuthorName"@)] == of_string(i.author_name)->0)
            &&& put_std(m, i).contains_key(tip("Screenshot"@)) == (i.screenshot is Some) && (i.screenshot is Some ==> put_std(m, i)[tip("Screenshot"@)] == of_binary(i.screenshot)->0)
            &&& put_std(m, i).contains_key(tip("TableBlurb"@)) == (i.table_blurb is Some) && (i.table_blurb is Some ==> put_std(m, i)[tip("TableBlurb"@)] == of_string(i.table_blurb)->0)
            &&& put_std(m, i).contains_key(tip("TableRules"@)) == (i.table_rules is Some) && (i.table_rules is Some ==> put_std(m, i)[tip("TableRules"@)] == of_string(i.table_rules)->0)
            &&& put_std(m, i).contains_key(tip("AuthorEmail"@)) == (i.author_email is Some) && (i.author_email is Some ==> put_std(m, i)[tip("AuthorEmail"@)] == of_string(i.author_email)->0)
            &&& put_std(m, i).contains_key(tip("ReleaseDate"@)) == (i.release_date is Some) && (i.release_date is Some ==> put_std(m, i)[tip("ReleaseDate"@)] == of_string(i.release_date)->0)
            &&& put_std(m, i).contains_key(tip("TableSaveRev"@)) == (i.table_save_rev is Some) && (i.table_save_rev is Some ==> put_std(m, i)[tip("TableSaveRev"@)] == of_string(i.table_save_rev)->0)
            &&& put_std(m, i).contains_key(tip("TableVersion"@)) == (i.table_version is Some) && (i.table_version is Some ==> put_std(m, i)[tip("TableVersion"@)] == of_string(i.table_version)->0)
            &&& put_std(m, i).contains_key(tip("AuthorWebSite"@)) == (i.author_website is Some) && (i.author_website is Some ==> put_std(m, i)[tip("AuthorWebSite"@)] == of_string(i.author_website)->0)
            &&& put_std(m, i).contains_key(tip("TableSaveDate"@)) == (i.table_save_date is Some) && (i.table_save_date is Some ==> put_std(m, i)[tip("TableSaveDate"@)] == of_string(i.table_save_date)->0)
            &&& put_std(m, i).contains_key(tip("TableDescription"@)) == (i.table_description is Some) && (i.table_description is Some ==> put_std(m, i)[tip("TableDescription"@)] == of_string(i.table_description)->0)
        },
{
    hide(put_std);
    assert forall|k: Seq<char>| apart(k) implies (#[trigger] put_std(m, i).contains_key(k)) == m.contains_key(k) && put_std(m, i)[k] == m[k] by { lemma_std_apart(m, i, k); }
    assert forall|x: Seq<char>| !fixed_name(x) implies (#[trigger] put_std(m, i).contains_key(tip(x))) == m.contains_key(tip(x)) && put_std(m, i)[tip(x)] == m[tip(x)] by { lemma_std_at(m, i, x); }
    if no_info(m) {
        lemma_names();
        lemma_std_at(m, i, "TableName"@); assert(std_of(i, "TableName"@) == of_string(i.table_name)); assert(!m.contains_key(tip("TableName"@)));
        lemma_std_at(m, i, "AuthorName"@); assert(std_of(i, "AuthorName"@) == of_string(i.author_name)); assert(!m.contains_key(tip("AuthorName"@)));
        lemma_std_at(m, i, "Screenshot"@); assert(std_of(i, "Screenshot"@) == of_binary(i.screenshot)); assert(!m.contains_key(tip("Screenshot"@)));
        lemma_std_at(m, i, "TableBlurb"@); assert(std_of(i, "TableBlurb"@) == of_string(i.table_blurb)); assert(!m.contains_key(tip("TableBlurb"@)));
        lemma_std_at(m, i, "TableRules"@); assert(std_of(i, "TableRules"@) == of_string(i.table_rules)); assert(!m.contains_key(tip("TableRules"@)));
        lemma_std_at(m, i, "AuthorEmail"@); assert(std_of(i, "AuthorEmail"@) == of_string(i.author_email)); assert(!m.contains_key(tip("AuthorEmail"@)));
        lemma_std_at(m, i, "ReleaseDate"@); assert(std_of(i, "ReleaseDate"@) == of_string(i.release_date)); assert(!m.contains_key(tip("ReleaseDate"@)));
        lemma_std_at(m, i, "TableSaveRev"@); assert(std_of(i, "TableSaveRev"@) == of_string(i.table_save_rev)); assert(!m.contains_key(tip("TableSaveRev"@)));
        lemma_std_at(m, i, "TableVersion"@); assert(std_of(i, "TableVersion"@) == of_string(i.table_version)); assert(!m.contains_key(tip("TableVersion"@)));
        lemma_std_at(m, i, "AuthorWebSite"@); assert(std_of(i, "AuthorWebSite"@) == of_string(i.author_website)); assert(!m.contains_key(tip("AuthorWebSite"@)));
        lemma_std_at(m, i, "TableSaveDate"@); assert(std_of(i, "TableSaveDate"@) == of_string(i.table_save_date)); assert(!m.contains_key(tip("TableSaveDate"@)));
        lemma_std_at(m, i, "TableDescription"@); assert(std_of(i, "TableDescription"@) == of_string(i.table_description)); assert(!m.contains_key(tip("TableDescription"@)));
    }
}
/// k is the key of one of the first n properties
#[verifier::opaque]
pub open spec fn hit(p: Seq<(String, String)>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && k == tip((#[trigger] p[j]).0@) }
pub proof fn lemma_hit(p: Seq<(String, String)>, n: int, k: Seq<char>) requires 0 < n <= p.len(), !hit(p, n, k) ensures k != tip(p[n - 1].0@), !hit(p, n - 1, k) { reveal(hit); let a = p[n - 1]; assert(a.0@ == p[n - 1].0@); }
pub proof fn lemma_put_props(m: Map<Seq<char>, Seq<u8>>, p: Seq<(String, String)>, n: int)
    requires 0 <= n <= p.len(), forall|a: int, b: int| 0 <= a < b < p.len() ==> (#[trigger] p[a]).0@ != (#[trigger] p[b]).0@,
    ensures
        forall|j: int| 0 <= j < n ==> put_props(m, p, n).contains_key(tip((#[trigger] p[j]).0@)) && put_props(m, p, n)[tip(p[j].0@)] == utf16_enc(p[j].1@),
        forall|k: Seq<char>| !hit(p, n, k) ==> (#[trigger] put_props(m, p, n).contains_key(k)) == m.contains_key(k) && put_props(m, p, n)[k] == m[k],
    decreases n,
{
    if n > 0 {
        lemma_put_props(m, p, n - 1);
        assert forall|j: int| 0 <= j < n implies put_props(m, p, n).contains_key(tip((#[trigger] p[j]).0@)) && put_props(m, p, n)[tip(p[j].0@)] == utf16_enc(p[j].1@) by {
            if j < n - 1 { if tip(p[j].0@) == tip(p[n - 1].0@) { lemma_tip_inj(p[j].0@, p[n - 1].0@); } }
        }
        assert forall|k: Seq<char>| !hit(p, n, k) implies (#[trigger] put_props(m, p, n).contains_key(k)) == m.contains_key(k) && put_props(m, p, n)[k] == m[k] by {
            lemma_hit(p, n, k);
            let z = put_props(m, p, n - 1);
            assert(z.contains_key(k) == m.contains_key(k) && z[k] == m[k]);
            assert(put_props(m, p, n) == z.insert(tip(p[n - 1].0@), utf16_enc(p[n - 1].1@)));
        }
    }
}
/// other streams are left alone
pub proof fn lemma_info_apart(m: Map<Seq<char>, Seq<u8>>, i: TableInfo)
    ensures forall|k: Seq<char>| apart(k) ==> (#[trigger] put_info(m, i).contains_key(k)) == m.contains_key(k) && put_info(m, i)[k] == m[k],
{
    i.properties.axiom_pairs(); lemma_put_std(m, i);
    let p = i.properties.pairs();
    lemma_put_props(put_std(m, i), p, p.len() as int);
    assert forall|k: Seq<char>| apart(k) implies (#[trigger] put_info(m, i).contains_key(k)) == m.contains_key(k) && put_info(m, i)[k] == m[k] by {
        assert(!hit(p, p.len() as int, k)) by { reveal(hit); lemma_apart(); }
        assert(put_std(m, i).contains_key(k) == m.contains_key(k));
    }
}
/// what the streams of written information hold
pub proof fn lemma_info_put(m: Map<Seq<char>, Seq<u8>>, i: TableInfo)
    requires no_info(m), names_ok(i),
    ensures
        forall|n: Seq<char>| fixed_name(n) ==> (#[trigger] put_info(m, i).contains_key(tip(n))) == put_std(m, i).contains_key(tip(n)) && put_info(m, i)[tip(n)] == put_std(m, i)[tip(n)],
        forall|n: Seq<char>| !fixed_name(n) ==> #[trigger] put_info(m, i).contains_key(tip(n)) == i.properties.map().contains_key(n),
        forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) ==> put_info(m, i)[tip(n)] == utf16_enc_of(i.properties.map()[n]),
{
    lemma_put_std(m, i); i.properties.axiom_pairs();
    let p = i.properties.pairs();
    let c = p.len() as int;
    let a = put_std(m, i);
    let b = put_info(m, i);
    lemma_put_props(a, p, c);
    assert forall|n: Seq<char>| !i.properties.map().contains_key(n) implies !#[trigger] hit(p, c, tip(n)) by {
        reveal(hit);
        assert forall|j: int| 0 <= j < p.len() implies tip(n) != tip((#[trigger] p[j]).0@) by { assert(i.properties.map().contains_key(p[j].0@)); if tip(n) == tip(p[j].0@) { lemma_tip_inj(n, p[j].0@); } }
    }
    assert forall|n: Seq<char>| fixed_name(n) implies (#[trigger] b.contains_key(tip(n))) == a.contains_key(tip(n)) && b[tip(n)] == a[tip(n)] by {
        assert(!i.properties.map().contains_key(n)); assert(!hit(p, c, tip(n)));
    }
    assert forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) implies b.contains_key(tip(n)) && b[tip(n)] == utf16_enc_of(i.properties.map()[n]) by {
        let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).0@ == n;
        assert(b.contains_key(tip(p[j].0@)));
    }
    assert forall|n: Seq<char>| !fixed_name(n) implies #[trigger] b.contains_key(tip(n)) == i.properties.map().contains_key(n) by {
        if !i.properties.map().contains_key(n) { assert(!hit(p, c, tip(n))); assert(a.contains_key(tip(n)) == m.contains_key(tip(n))); }
    }
}
pub open spec fn utf16_enc_of(s: Seq<char>) -> Seq<u8> { utf16_enc(s) }
/// table information written and read again is the same
pub proof fn lemma_info_back(m: Map<Seq<char>, Seq<u8>>, i: TableInfo, w: TableInfo)
    requires no_info(m), names_ok(i), info_in(put_info(m, i), w),
    ensures same_info(i, w),
{
    broadcast use lemma_utf16;
    reveal(told);
    lemma_fixed_plain(); lemma_put_std(m, i); lemma_info_put(m, i);
    let b = put_info(m, i);
    assert(fixed_name("TableName"@)); assert(b.contains_key(tip("TableName"@)) == (i.table_name is Some));
    assert(fixed_name("AuthorName"@)); assert(b.contains_key(tip("AuthorName"@)) == (i.author_name is Some));
    assert(fixed_name("Screenshot"@)); assert(b.contains_key(tip("Screenshot"@)) == (i.screenshot is Some));
    assert(fixed_name("TableBlurb"@)); assert(b.contains_key(tip("TableBlurb"@)) == (i.table_blurb is Some));
    assert(fixed_name("TableRules"@)); assert(b.contains_key(tip("TableRules"@)) == (i.table_rules is Some));
    assert(fixed_name("AuthorEmail"@)); assert(b.contains_key(tip("AuthorEmail"@)) == (i.author_email is Some));
    assert(fixed_name("ReleaseDate"@)); assert(b.contains_key(tip("ReleaseDate"@)) == (i.release_date is Some));
    assert(fixed_name("TableSaveRev"@)); assert(b.contains_key(tip("TableSaveRev"@)) == (i.table_save_rev is Some));
    assert(fixed_name("TableVersion"@)); assert(b.contains_key(tip("TableVersion"@)) == (i.table_version is Some));
    assert(fixed_name("AuthorWebSite"@)); assert(b.contains_key(tip("AuthorWebSite"@)) == (i.author_website is Some));
    assert(fixed_name("TableSaveDate"@)); assert(b.contains_key(tip("TableSaveDate"@)) == (i.table_save_date is Some));
    assert(fixed_name("TableDescription"@)); assert(b.contains_key(tip("TableDescription"@)) == (i.table_description is Some));
    assert forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) == w.properties.map().contains_key(n) by {
        assert(b.contains_key(tip(n)) == b.contains_key(tip(n)));
    }
    assert forall|n: Seq<char>| #[trigger] i.properties.map().contains_key(n) implies i.properties.map()[n] == w.properties.map()[n] by { assert(w.properties.map().contains_key(n)); }
    assert(i.properties.map() =~= w.properties.map());
}
/// the information depends on its own streams alone
pub proof fn lemma_info_frame(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, w: TableInfo)
    requires forall|n: Seq<char>| (#[trigger] a.contains_key(tip(n))) == b.contains_key(tip(n)) && a[tip(n)] == b[tip(n)], info_in(a, w),
    ensures info_in(b, w),
{ reveal(told); }
pub proof fn lemma_info_texts(m: Map<Seq<char>, Seq<u8>>, i: TableInfo)
    requires no_info(m), names_ok(i),
    ensures info_texts(put_info(m, i)),
{
    broadcast use lemma_utf16;
    lemma_fixed_plain(); lemma_put_std(m, i); lemma_info_put(m, i);
    let b = put_info(m, i);
    assert forall|n: Seq<char>| #[trigger] b.contains_key(tip(n)) && plain(n) && n != "Screenshot"@ implies utf16_ok(b[tip(n)]) by {
        if fixed_name(n) {
            assert(b.contains_key(tip(n)) == put_std(m, i).contains_key(tip(n)));
        } else {
            assert(i.properties.map().contains_key(n));
        }
    }
}
pub open spec fn no_fields(i: TableInfo) -> bool {
    &&& i.table_name is None && i.author_name is None && i.screenshot is None && i.table_blurb is None && i.table_rules is None && i.author_email is None && i.release_date is None && i.table_save_rev is None
    &&& i.table_version is None && i.author_website is None && i.table_save_date is None && i.table_description is None && i.properties.pairs().len() == 0
}
/// empty information takes no stream
pub broadcast proof fn lemma_put_none(m: Map<Seq<char>, Seq<u8>>, i: TableInfo) requires no_fields(i) ensures #[trigger] put_info(m, i) == m { reveal(put_opt); }
/// the path a name is written under
pub proof fn lemma_wr(n: Seq<char>) requires fixed_name(n) ensures norm(joined("TableInfo"@, norm(n))) == tip(n) { lemma_tips(); lemma_names(); }
