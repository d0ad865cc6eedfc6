@@module cfb -
@@extra
/// the path of a stream, without the leading separator
pub struct Path { pub s: String }
pub type PathBuf = Path;
impl View for Path { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
pub const MAIN_SEPARATOR_STR: &'static str = "/";
pub open spec fn norm(s: Seq<char>) -> Seq<char> { if s == "/"@ { Seq::empty() } else { s } }
/// assumed: std::path joins components with one separator (on this platform, "/")
pub open spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else { a + "/"@ + b } }
pub trait VPath { spec fn key(&self) -> Seq<char>; }
impl VPath for Path { open spec fn key(&self) -> Seq<char> { norm(self@) } }
impl VPath for String { open spec fn key(&self) -> Seq<char> { norm(self@) } }
impl VPath for str { open spec fn key(&self) -> Seq<char> { norm(self@) } }
impl<'a, T: VPath + ?Sized> VPath for &'a T { open spec fn key(&self) -> Seq<char> { (**self).key() } }
impl Path {
    #[verifier::external_body] pub fn new<T: VPath + ?Sized>(s: &T) -> (r: Path) ensures r@ == s.key() { unimplemented!() }
    #[verifier::external_body] pub fn from<T: VPath>(s: T) -> (r: Path) ensures r@ == s.key() { unimplemented!() }
    #[verifier::external_body] pub fn join<T: VPath>(&self, b: T) -> (r: Path) ensures r@ == joined(self@, b.key()) { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn ends_with(&self, b: &str) -> (r: bool) ensures r == path_ends(self@, b@) { unimplemented!() }
}
pub open spec fn path_ends(p: Seq<char>, b: Seq<char>) -> bool { p == b || (p.len() > b.len() && p.subrange(p.len() - b.len() - 1, p.len() as int) == "/"@ + b) }
pub trait Read { }
pub trait Write { }
pub trait Seek { }
/// assumed: crate cfb keeps a map from stream paths to their bytes; a stream opened is the whole of it
#[verifier::external_body] #[verifier::reject_recursive_types(F)]
pub struct CompoundFile<F> { f: F }
impl<F> View for CompoundFile<F> { type V = Map<Seq<char>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<u8>>; }
#[verifier::external_body] #[verifier::reject_recursive_types(F)]
pub struct Stream<F> { f: F }
impl<F> View for Stream<F> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait Endian { spec fn le() -> bool; }
pub struct LittleEndian;
pub struct BigEndian;
impl Endian for LittleEndian { open spec fn le() -> bool { true } }
impl Endian for BigEndian { open spec fn le() -> bool { false } }
impl<F> Stream<F> {
    pub uninterp spec fn pos(&self) -> int;
    /// the storage below does not fail
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures r is Ok ==> final(b)@ == old(b)@ + old(self)@.skip(old(self).pos()), final(self)@ == old(self)@, final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
        ensures r is Ok && old(self).pos() == old(self)@.len() ==> final(self)@ == old(self)@ + b@ && final(self).pos() == final(self)@.len(), final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn read_u32<T: Endian>(&mut self) -> (r: Result<u32, Error>)
        ensures r is Ok && T::le() ==> r->Ok_0 == u32_at(old(self)@, old(self).pos()), final(self)@ == old(self)@, final(self).ok() == old(self).ok(), old(self).ok() && old(self).pos() + 4 <= old(self)@.len() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_u32<T: Endian>(&mut self, x: u32) -> (r: Result<(), Error>)
        ensures r is Ok && T::le() && old(self).pos() == old(self)@.len() ==> final(self)@ == old(self)@ + b32(x) && final(self).pos() == final(self)@.len(), final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>)
        ensures final(self)@ == old(self)@, final(self).pos() == old(self).pos(), final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
}
impl<F> CompoundFile<F> {
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body] pub fn open_strict(f: F) -> (r: Result<CompoundFile<F>, Error>) { unimplemented!() }
    #[verifier::external_body] pub fn exists<P: VPath>(&self, p: P) -> (r: bool) ensures r == self@.contains_key(p.key()) { unimplemented!() }
    #[verifier::external_body] pub fn is_stream<P: VPath>(&self, p: P) -> (r: bool) ensures r == self@.contains_key(p.key()) { unimplemented!() }
    #[verifier::external_body] pub fn open_stream<P: VPath>(&mut self, p: P) -> (r: Result<&mut Stream<F>, Error>)
        ensures
            r is Err ==> final(self)@ == old(self)@,
            r is Ok ==> old(self)@.contains_key(p.key()) && (*(r->Ok_0))@ == old(self)@[p.key()] && (*(r->Ok_0)).pos() == 0 && (*(r->Ok_0)).ok() == old(self).ok()
                && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() && old(self)@.contains_key(p.key()) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_stream<P: VPath>(&mut self, p: P) -> (r: Result<&mut Stream<F>, Error>)
        ensures
            r is Ok ==> (*(r->Ok_0))@.len() == 0 && (*(r->Ok_0)).pos() == 0 && (*(r->Ok_0)).ok() == old(self).ok()
                && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_new_stream<P: VPath>(&mut self, p: P) -> (r: Result<&mut Stream<F>, Error>)
        ensures
            r is Ok ==> !old(self)@.contains_key(p.key()) && (*(r->Ok_0))@.len() == 0 && (*(r->Ok_0)).pos() == 0 && (*(r->Ok_0)).ok() == old(self).ok()
                && final(self)@ == old(self)@.insert(p.key(), final(r->Ok_0)@),
            final(self).ok() == old(self).ok(), old(self).ok() && !old(self)@.contains_key(p.key()) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn create_storage<P: VPath>(&mut self, p: P) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self)@ == old(self)@, final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>)
        ensures final(self)@ == old(self)@, final(self).ok() == old(self).ok(), old(self).ok() ==> r is Ok { unimplemented!() }
}
pub broadcast proof fn lemma_insert_same<K, V>(m: Map<K, V>, k: K, v: V)
    requires m.contains_key(k), m[k] == v,
    ensures #[trigger] m.insert(k, v) == m,
{ assert(m.insert(k, v) =~= m); }
pub broadcast proof fn lemma_skip0(d: Seq<u8>) ensures #[trigger] d.skip(0) == d { assert(d.skip(0) =~= d); }
pub broadcast proof fn lemma_empty_add(a: Seq<u8>, b: Seq<u8>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub broadcast proof fn lemma_empty_text(a: Seq<char>, b: Seq<char>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub broadcast group vpin_cfb { lemma_insert_same, lemma_skip0, lemma_empty_add, lemma_empty_text }
