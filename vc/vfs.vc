@@module vfs src/vpx/expanded/util.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_cfb
@@extra
/// where a file lies, as callers give it
pub trait VAsPath { spec fn at(&self) -> Seq<char>; fn as_ref(&self) -> (r: &Path) ensures r@ == self.at(); }
impl VAsPath for Path { open spec fn at(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &Path) { self } }
impl<'a> VAsPath for &'a Path { open spec fn at(&self) -> Seq<char> { self.s@ } fn as_ref(&self) -> (r: &Path) { *self } }
/// assumed: a file system keeps a map from the paths of its files to their bytes; a file created is empty, and what is written goes to its end.
/// While a function runs, nothing else changes it. `ok`: it does not fail.
#[verifier::external_body] pub struct Fs { f: u8 }
impl View for Fs { type V = Map<Seq<char>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<u8>>; }
#[verifier::external_body] pub struct File { f: u8 }
impl View for File { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl File {
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self)@ == old(self)@ + b@, final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize, Error>)
        ensures final(self)@ == old(self)@, final(self).ok() == old(self).ok(), r is Ok ==> vstd::utf8::valid_utf8(old(self)@) && final(s)@ == old(s)@ + vstd::utf8::decode_utf8(old(self)@),
            old(self).ok() && vstd::utf8::valid_utf8(old(self)@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>)
        ensures final(self)@ == old(self)@, final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
}
impl Fs {
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body] pub fn exists<P: VPath>(&self, p: P) -> (r: bool) ensures r == self@.contains_key(p.key()) { unimplemented!() }
    #[verifier::external_body] pub fn read_file<P: VPath>(&mut self, p: P) -> (r: Result<Vec<u8>, Error>)
        ensures final(self)@ == old(self)@, final(self).ok() == old(self).ok(), r is Ok ==> old(self)@.contains_key(p.key()) && r->Ok_0@ == old(self)@[p.key()], old(self).ok() && old(self)@.contains_key(p.key()) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn open_file<P: VPath>(&mut self, p: P) -> (r: Result<&mut File, Error>)
        ensures r is Err ==> final(self)@ == old(self)@,
            r is Ok ==> old(self)@.contains_key(p.key()) && (*(r->Ok_0))@ == old(self)@[p.key()] && (*(r->Ok_0)).ok() == old(self).ok() && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() && old(self)@.contains_key(p.key()) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_dir_all<P: VPath>(&mut self, p: P) -> (r: Result<(), Error>)
        ensures final(self)@ == old(self)@, final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_file<P: VPath>(&mut self, p: P) -> (r: Result<&mut File, Error>)
        ensures r is Ok ==> (*(r->Ok_0))@.len() == 0 && (*(r->Ok_0)).ok() == old(self).ok() && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_buffered_file<P: VPath>(&mut self, p: P) -> (r: Result<&mut File, Error>)
        ensures r is Ok ==> (*(r->Ok_0))@.len() == 0 && (*(r->Ok_0)).ok() == old(self).ok() && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn open_buffered_file<P: VPath>(&mut self, p: P) -> (r: Result<&mut File, Error>)
        ensures r is Err ==> final(self)@ == old(self)@,
            r is Ok ==> old(self)@.contains_key(p.key()) && (*(r->Ok_0))@ == old(self)@[p.key()] && (*(r->Ok_0)).ok() == old(self).ok() && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() && old(self)@.contains_key(p.key()) ==> r is Ok { unimplemented!() }
}
/// what a value is as JSON
pub trait VJson: Sized { type J; spec fn json(&self) -> Self::J; }
/// assumed: serde_json writes a value as one text, and reads from that text the value it was written from, unless a number in it is infinite or not one
pub uninterp spec fn json_plain<J>(j: J) -> bool;
pub uninterp spec fn json_text<J>(j: J) -> Seq<u8>;
pub uninterp spec fn json_of<J>(t: Seq<u8>) -> Option<J>;
pub broadcast axiom fn axiom_json<J>(j: J) requires json_plain(j) ensures json_of::<J>(#[trigger] json_text::<J>(j)) == Some(j);
#[verifier::external_body] pub fn to_writer_pretty<T: VJson>(w: &mut File, v: &T) -> (r: Result<(), Error>)
    ensures r is Ok ==> final(w)@ == old(w)@ + json_text(v.json()), final(w).ok() == old(w).ok(), old(w).ok() ==> r is Ok { unimplemented!() }
#[verifier::external_body] pub fn from_reader<T: VJson>(f: &mut File) -> (r: Result<T, Error>)
    ensures final(f)@ == old(f)@, final(f).ok() == old(f).ok(), r is Ok ==> json_of::<T::J>(old(f)@) == Some(r->Ok_0.json()), old(f).ok() && json_of::<T::J>(old(f)@) is Some ==> r is Ok { unimplemented!() }
impl UniqueFileNames {
    #[verifier::external_body] pub fn default() -> (r: UniqueFileNames) ensures r.used_names_lowercase@ == Set::<Seq<char>>::empty(), r.dupe_counter == 0 { unimplemented!() }
}
@@fn read_json
@@ret out
@@sigsubst P : AsRef < Path > , T >=>P : VAsPath + VPath , T : VJson >
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst where T : DeserializeOwned ,?=>
@@subst from_reader\(&mut json_file\)=>from_reader(&mut *json_file)
    requires json_path.at() == norm(json_path.at()),
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        !old(fs)@.contains_key(json_path.at()) ==> out is Err,
        old(fs).ok() && old(fs)@.contains_key(json_path.at()) && json_of::<T::J>(old(fs)@[json_path.at()]) is Some ==> out is Ok,
        out is Ok ==> json_of::<T::J>(old(fs)@[json_path.at()]) == Some(out->Ok_0.json()),
@@extra
/// the directory a part of the table is in, and a file of it
pub open spec fn file_at(dir: Seq<char>, part: Seq<char>, n: Seq<char>) -> Seq<char> { joined(joined(dir, part), n) }
/// a name followed by what says its kind
pub open spec fn dotted(n: Seq<char>, ext: Seq<char>) -> Seq<char> { n + "."@ + ext }
pub open spec fn dotless(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '.' }
pub proof fn lemma_dotted(a: Seq<char>, ea: Seq<char>, b: Seq<char>, eb: Seq<char>)
    requires dotless(ea), dotless(eb), dotted(a, ea) == dotted(b, eb),
    ensures a == b && ea == eb,
{
    reveal_strlit(".");
    let p = dotted(a, ea); let q = dotted(b, eb);
    assert(p[a.len() as int] == '.'); assert(q[b.len() as int] == '.');
    assert(p.len() == a.len() + 1 + ea.len() && q.len() == b.len() + 1 + eb.len());
    if a.len() < b.len() { assert(p[b.len() as int] == ea[b.len() - a.len() - 1]); }
    if b.len() < a.len() { assert(q[a.len() as int] == eb[a.len() - b.len() - 1]); }
    assert(a.len() == b.len());
    assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(p[i] == a[i] && q[i] == b[i]); } }
    assert(ea =~= eb) by { assert forall|i: int| 0 <= i < ea.len() implies ea[i] == eb[i] by { assert(p[a.len() + 1 + i] == ea[i] && q[a.len() + 1 + i] == eb[i]); } }
}
pub proof fn lemma_joined(a: Seq<char>, x: Seq<char>, y: Seq<char>) requires joined(a, x) == joined(a, y) ensures x == y {
    reveal_strlit("/");
    let n = if a.len() == 0 { 0int } else { a.len() + 1int };
    assert(joined(a, x).skip(n) =~= x); assert(joined(a, y).skip(n) =~= y);
}
/// files of different names in one directory are different files
pub proof fn lemma_file_at(dir: Seq<char>, part: Seq<char>, a: Seq<char>, b: Seq<char>) requires file_at(dir, part, a) == file_at(dir, part, b) ensures a == b { lemma_joined(joined(dir, part), a, b); }
/// a list of fresh names has no two alike
pub open spec fn apart(n: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < n.len() ==> #[trigger] n[i] != #[trigger] n[j] }
/// the files of one part of a table: PART.json and what is in PART/
pub open spec fn under(p: Seq<char>, k: Seq<char>) -> bool { k.len() > p.len() && k.subrange(0, p.len() as int) == p && (k[p.len() as int] == '.' || k[p.len() as int] == '/') }
pub open spec fn owns(dir: Seq<char>, part: Seq<char>, k: Seq<char>) -> bool { under(joined(dir, part), k) }
/// nothing but one part's files changed
#[verifier::opaque] pub open spec fn only(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, part: Seq<char>) -> bool {
    forall|k: Seq<char>| #![trigger b.contains_key(k)] #![trigger a.contains_key(k)] !owns(dir, part, k) ==> a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k])
}
/// one part's files are the same
#[verifier::opaque] pub open spec fn agree(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, part: Seq<char>) -> bool {
    forall|k: Seq<char>| #![trigger b.contains_key(k)] #![trigger a.contains_key(k)] owns(dir, part, k) ==> a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k])
}
pub broadcast proof fn lemma_only_self(a: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, part: Seq<char>) ensures #[trigger] only(a, a, dir, part) { reveal(only); }
pub proof fn lemma_only_put(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, part: Seq<char>, k: Seq<char>, v: Seq<u8>)
    requires only(a, b, dir, part), owns(dir, part, k),
    ensures only(a, b.insert(k, v), dir, part),
{ reveal(only); }
pub open spec fn plain_part(p: Seq<char>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != '.' && p[i] != '/' }
/// a file belongs to one part
pub proof fn lemma_owns_one(dir: Seq<char>, p: Seq<char>, q: Seq<char>, k: Seq<char>)
    requires plain_part(p), plain_part(q), owns(dir, p, k), owns(dir, q, k),
    ensures p == q,
{
    reveal_strlit("/");
    let n = if dir.len() == 0 { 0int } else { dir.len() + 1int };
    let a = joined(dir, p); let b = joined(dir, q);
    assert(a.len() == n + p.len() && b.len() == n + q.len());
    assert forall|i: int| 0 <= i < p.len() implies p[i] == k[n + i] by { assert(a[n + i] == p[i]); assert(k.subrange(0, a.len() as int)[n + i] == k[n + i]); }
    assert forall|i: int| 0 <= i < q.len() implies q[i] == k[n + i] by { assert(b[n + i] == q[i]); assert(k.subrange(0, b.len() as int)[n + i] == k[n + i]); }
    if p.len() < q.len() { assert(q[p.len() as int] == k[n + p.len()]); }
    if q.len() < p.len() { assert(p[q.len() as int] == k[n + q.len()]); }
    assert(p =~= q);
}
/// what another part's files become does not matter to a part
pub proof fn lemma_agree_on(x: Map<Seq<char>, Seq<u8>>, a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires agree(x, a, dir, p), only(a, b, dir, q), plain_part(p), plain_part(q), p != q,
    ensures agree(x, b, dir, p),
{
    reveal(agree); reveal(only);
    assert forall|k: Seq<char>| #![trigger b.contains_key(k)] owns(dir, p, k) implies x.contains_key(k) == b.contains_key(k) && (x.contains_key(k) ==> x[k] == b[k]) by {
        assert(!owns(dir, q, k)) by { if owns(dir, q, k) { lemma_owns_one(dir, p, q, k); } }
        assert(x.contains_key(k) == a.contains_key(k));
    }
}
pub proof fn lemma_agree_self(a: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, p: Seq<char>) ensures agree(a, a, dir, p) { reveal(agree); }
/// one file of a directory holds this, or is not there
pub open spec fn file_is(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, n: Seq<char>, b: Option<Seq<u8>>) -> bool { match b { Some(x) => m.contains_key(joined(dir, n)) && m[joined(dir, n)] == x, None => !m.contains_key(joined(dir, n)) } }
/// PART.KIND is a file of the part
pub proof fn lemma_file_of(dir: Seq<char>, part: Seq<char>, n: Seq<char>)
    requires dir.len() > 0, part.len() > 0, n.len() > part.len(), n.subrange(0, part.len() as int) == part, n[part.len() as int] == '.',
    ensures norm(n) == n, norm(joined(dir, n)) == joined(dir, n), owns(dir, part, joined(dir, n)),
{
    reveal_strlit("/");
    let p = joined(dir, part); let k = joined(dir, n);
    assert(n[part.len() as int] == '.');
    assert(k.subrange(0, p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < part.len() implies n[i] == part[i] by { assert(n.subrange(0, part.len() as int)[i] == n[i]); } }
    assert(k[p.len() as int] == '.');
}
pub proof fn lemma_same_file(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, part: Seq<char>, n: Seq<char>, x: Option<Seq<u8>>)
    requires agree(a, b, dir, part), owns(dir, part, joined(dir, n)), file_is(a, dir, n, x),
    ensures file_is(b, dir, n, x),
{ reveal(agree); let k = joined(dir, n); assert(a.contains_key(k) == b.contains_key(k)); }
pub broadcast group vpin_vfs { axiom_json, lemma_only_self }
