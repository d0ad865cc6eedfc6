@@module names -
@@extra
/// a set of strings, by their text (std's HashSet<String>)
#[verifier::external_body]
pub struct NameSet { s: Vec<String> }
impl View for NameSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl NameSet {
    #[verifier::external_body] pub fn contains(&self, x: &String) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: String) -> (r: bool) ensures r == !old(self)@.contains(x@), final(self)@ == old(self)@.insert(x@) { unimplemented!() }
}
/// assumed: letter case folding is a function of the text
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VLower { fn to_lowercase(&self) -> (r: String); }
impl VLower for String { #[verifier::external_body] fn to_lowercase(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() } }
/// assumed: different numbers have different digits, and folding keeps them
pub axiom fn axiom_lower_count(s: Seq<char>, sep: Seq<char>, a: int, b: int)
    requires a != b, 0 <= a, 0 <= b, sep == "__"@ || sep == "_dedup"@,
    ensures lower(s + sep + dec_text(a)) != lower(s + sep + dec_text(b));
/// what both name makers promise: a name whose folded form no name before had, and which is now taken
pub open spec fn fresh(before: Set<Seq<char>>, after: Set<Seq<char>>, n: Seq<char>) -> bool {
    !before.contains(lower(n)) && after == before.insert(lower(n))
}
