@@module mac src/vpx/mod.rs
@@broadcast vpin_base, vpin_str, vpin_cfb, vpin_rd, axiom_mk_vec
@@item enum FileType
@@item struct FileStructureItem
@@fn FileStructureItem::new
    ensures fs_view(r) == (norm(path@), file_type is Biff, hashed),
@@fn read_bytes_at
@@sigsubst AsRef\s*<\s*Path\s*>=>VPath
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> old(comp)@.contains_key(path.key()) && r->Ok_0@ == old(comp)@[path.key()],
        old(comp).ok() && old(comp)@.contains_key(path.key()) ==> r is Ok,
@@fn item_path
    requires numbered(path@, index as int),
    ensures r@ == nth(path@, index as int),
@@fn append_structure
    requires src_path@.len() > 1, !old(comp)@.contains_key(nth(src_path@, 0x7fff_ffff)), forall|i: int| 0 <= i ==> #[trigger] numbered(src_path@, i),
    ensures *final(comp) == *old(comp), fs_views(final(file_structure)@) == fs_views(old(file_structure)@) + found(old(comp)@, src_path@, file_type is Biff, hashed, 0),
@@start
    proof { lemma_paths(); }
@@loop_start 0
    let ghost __k = index as int;
    let ghost __f = fs_views(file_structure@);
@@loop_end 0
    proof {
        let x = (nth(src_path@, __k), file_type is Biff, hashed);
        assert(fs_views(file_structure@) =~= __f + seq![x]);
        assert((__f + seq![x]) + found(comp@, src_path@, file_type is Biff, hashed, __k + 1) =~= __f + (seq![x] + found(comp@, src_path@, file_type is Biff, hashed, __k + 1)));
    }
@@post
    assert(fs_views(file_structure@) + Seq::<FsV>::empty() =~= fs_views(file_structure@));
@@loop 0
    invariant
        0 <= index <= 0x7fff_ffff, *comp == *old(comp), path@ == src_path@, src_path@.len() > 1, forall|s: Seq<char>| s.len() != 1 ==> #[trigger] norm(s) == s,
        !comp@.contains_key(nth(src_path@, 0x7fff_ffff)), forall|i: int| 0 <= i ==> #[trigger] numbered(src_path@, i),
        fs_views(file_structure@) + found(comp@, src_path@, file_type is Biff, hashed, index as int) == fs_views(old(file_structure)@) + found(comp@, src_path@, file_type is Biff, hashed, 0),
    decreases 0x7fff_ffff - index
@@fn generate_mac
    requires mac_ok(old(comp)@),
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> r->Ok_0@ == md2_of(mac_input(old(comp)@)), old(comp).ok() ==> r is Ok,
@@start
    let ghost __m = comp@;
    proof { lemma_coll_numbers(); lemma_paths(); lemma_keys(); }
@@loop 0
    iter __it
    invariant
        __it.seq() == __l, comp@ == __m, __m == old(comp)@, comp.ok() == old(comp).ok(), forall|s: Seq<char>| s.len() != 1 ==> #[trigger] norm(s) == s, fs_ok(__m, fs_views(__l)),
        hasher@ + fold(__m, fs_views(__l), __it.index() as int) == mac_head() + fold(__m, fs_views(__l), 0),
@@loop_start 0
    let ghost __i = __it.index() as int;
    let ghost __h0 = hasher@;
    let ghost __rest = fold(__m, fs_views(__l), __i + 1);
    let ghost __x = fs_view(item);
    proof { assert(fs_views(__l)[__i] == __x); assert(one_ok(__m, __x)); reveal_strlit("ENDB"); reveal_strlit(""); reveal_strlit("TableInfo/"); }
@@loop_end 0
    proof { assert(hasher@ =~= __h0 + one(__m, __x)); assert(hasher@ + __rest =~= __h0 + (one(__m, __x) + __rest)); }
@@before_loop 0
    let ghost __l = file_structure@;
    proof {
        let c = found(__m, k_coll(), true, true, 0);
        let a = fs_views(__l).take(__l.len() - c.len());
        lemma_paths();
        assert(fs_views(__l) =~= a + c);
        reveal_with_fuel(sel, 20);
        assert(sel(a, 0) =~= fixed());
        lemma_found(__m, 0);
        assert forall|j: int| 0 <= j < __l.len() implies norm((#[trigger] fs_views(__l)[j]).0) == fs_views(__l)[j].0 by { if j >= a.len() { assert(one_ok(__m, c[j - a.len()])); } }
        lemma_list(__m, fs_views(__l));
        assert(hasher@ =~= mac_head());
    }
@@after_loop 0
    proof { assert(hasher@ + Seq::<u8>::empty() =~= hasher@); }
@@before_loop 1
    let ghost __h1 = hasher@;
    proof { assert(biff.rest() =~= bytes@); assert(__h1 + mac_biff(bytes@) =~= __h1 + mac_biff(biff.rest())); }
@@loop 1
    invariant_except_break
        biff.tag@ != "ENDB"@ ==> biff_ok(biff.rest()),
        hasher@ + (if biff.tag@ == "ENDB"@ { Seq::empty() } else { mac_biff(biff.rest()) }) == __h1 + mac_biff(bytes@),
    invariant
        biff.wf(), biff.bytes_in_record_remaining == 0,
    ensures
        hasher@ == __h1 + mac_biff(bytes@),
    decreases biff.data@.len() - biff.pos
@@loop_start 1
    let ghost __s = biff.rest();
    let ghost __hb = hasher@;
    proof { lemma_tag_names(); }
    broadcast use lemma_rest_u32;
    let ghost __p = biff.pos as int;
@@loop_end 1
    proof {
        let d = biff.data@; let t = rec_rest(__s);
        if rec_tag(__s) == "CODE"@ {
            let n = u32_at(t, 0) as int;
            assert(t =~= d.skip(__p + 8)); assert(t.subrange(0, 4) =~= d.subrange(__p + 8, __p + 12));
            assert(biff.rest() =~= t.skip(4 + n));
            assert(t.subrange(4, 4 + n) =~= d.subrange(__p + 12, __p + 12 + n));
            assert(hasher@ =~= __hb + (seq![67u8, 79u8, 68u8, 69u8] + t.subrange(4, 4 + n)));
            assert(hasher@ + mac_biff(biff.rest()) =~= __hb + mac_biff(__s));
        } else {
            assert(__s.subrange(4, 8) =~= d.subrange(__p + 4, __p + 8));
            assert(hasher@ =~= __hb + (__s.subrange(4, 8) + rec_payload(__s)));
            assert(hasher@ + (if biff.tag@ == "ENDB"@ { Seq::empty() } else { mac_biff(biff.rest()) }) =~= __hb + mac_biff(__s));
        }
    }
@@loop_end 2
    proof {
        assert(hasher@ =~= __hb + (if rec_tag(__s) == "CUST"@ { raw(__m, custom_key(rec_payload(__s))) } else { Seq::empty() }));
        assert(hasher@ + (if biff.tag@ == "ENDB"@ { Seq::empty() } else { mac_tags(__m, biff.rest()) }) =~= __hb + mac_tags(__m, __s));
    }
@@before_loop 2
    let ghost __h2 = hasher@;
    proof { assert(biff.rest() =~= bytes@); }
@@loop 2
    invariant_except_break
        biff.tag@ != "ENDB"@ ==> tags_ok(biff.rest()),
        hasher@ + (if biff.tag@ == "ENDB"@ { Seq::empty() } else { mac_tags(__m, biff.rest()) }) == __h2 + mac_tags(__m, bytes@),
    invariant
        biff.wf(), biff.bytes_in_record_remaining == 0, comp@ == __m, __m == old(comp)@, forall|s: Seq<char>| s.len() != 1 ==> #[trigger] norm(s) == s, "TableInfo/"@.len() == 10, comp.ok() == old(comp).ok(),
    ensures
        hasher@ == __h2 + mac_tags(__m, bytes@),
    decreases biff.data@.len() - biff.pos
@@loop_start 2
    let ghost __s = biff.rest();
    let ghost __hb = hasher@;
    proof { lemma_tag_names(); }
    broadcast use lemma_rest_u32;
    let ghost __p = biff.pos as int;
@@extra
pub use FileType::*;
impl Clone for FileType { fn clone(&self) -> (r: FileType) ensures r == *self { match self { FileType::UnstructuredBytes => FileType::UnstructuredBytes, FileType::Biff => FileType::Biff } } }
/// assumed: crate md2 digests the concatenation of what it is given
pub uninterp spec fn md2_of(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub struct Md2 { s: Vec<u8> }
impl View for Md2 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait VHashed { spec fn hv(&self) -> Seq<u8>; }
impl VHashed for Vec<u8> { open spec fn hv(&self) -> Seq<u8> { self@ } }
impl VHashed for [u8] { open spec fn hv(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VHashed for [u8; N] { open spec fn hv(&self) -> Seq<u8> { self@ } }
impl<'a, T: VHashed + ?Sized> VHashed for &'a T { open spec fn hv(&self) -> Seq<u8> { (**self).hv() } }
impl Md2 {
    #[verifier::external_body] pub fn new() -> (r: Md2) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<T: VHashed>(&mut self, x: T) ensures final(self)@ == old(self)@ + x.hv() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Vec<u8>) ensures r@ == md2_of(self@) { unimplemented!() }
}
/// assumed: std's parts of a path
pub struct OsName { pub s: String }
impl OsName { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.s@ { unimplemented!() } }
pub uninterp spec fn base_name(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn with_name(p: Seq<char>, n: Seq<char>) -> Seq<char>;
impl Path {
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<OsName>) ensures r is Some == base_name(self@) is Some, r is Some ==> r->0.s@ == base_name(self@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn with_file_name(&self, n: String) -> (r: Path) ensures r@ == with_name(self@, n@) { unimplemented!() }
}
pub axiom fn axiom_base_name(dir: Seq<char>, name: Seq<char>) requires dir.len() > 0, name.len() > 2, !name.contains('/') ensures base_name(joined(dir, name)) == Some(name), forall|n: Seq<char>| n.len() > 2 && n[0] != '/' ==> #[trigger] with_name(joined(dir, name), n) == joined(dir, n);
pub axiom fn axiom_digits(n: int) requires 0 <= n ensures dec_text(n).len() > 0, forall|i: int| 0 <= i < dec_text(n).len() ==> '0' <= #[trigger] dec_text(n)[i] <= '9';
pub open spec fn numbered(p: Seq<char>, i: int) -> bool { base_name(p) is Some && with_name(p, base_name(p)->0 + dec_text(i)) == nth(p, i) }
pub type FsV = (Seq<char>, bool, bool);
pub open spec fn fs_view(x: FileStructureItem) -> FsV { (x.path@, x.file_type is Biff, x.hashed) }
pub open spec fn fs_views(l: Seq<FileStructureItem>) -> Seq<FsV> { Seq::new(l.len(), |i: int| fs_view(l[i])) }
/// the numbered streams, from the i-th up to the first missing one
pub open spec fn found(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, b: bool, h: bool, i: int) -> Seq<FsV> decreases 0x7fff_ffff - i {
    if i >= 0x7fff_ffff || !m.contains_key(nth(p, i)) { Seq::empty() } else { seq![(nth(p, i), b, h)] + found(m, p, b, h, i + 1) }
}
/// what a stream of records adds: tags and contents without the sizes, the script without its length
pub open spec fn mac_biff(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if !rec_ok(s) { Seq::empty() }
    else if rec_tag(s) == "CODE"@ {
        let t = rec_rest(s);
        let n = u32_at(t, 0) as int;
        if t.len() < 4 + n { Seq::empty() } else { (seq![67u8, 79u8, 68u8, 69u8] + t.subrange(4, 4 + n)) + mac_biff(t.skip(4 + n)) }
    } else { (s.subrange(4, 8) + rec_payload(s)) + (if rec_tag(s) == "ENDB"@ { Seq::empty() } else { mac_biff(rec_rest(s)) }) }
}
/// what the values of the custom fields add, in the order of their tags
pub open spec fn mac_tags(m: Map<Seq<char>, Seq<u8>>, s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if !rec_ok(s) { Seq::empty() }
    else {
        (if rec_tag(s) == "CUST"@ { raw(m, custom_key(rec_payload(s))) } else { Seq::empty() })
            + (if rec_tag(s) == "ENDB"@ { Seq::empty() } else { mac_tags(m, rec_rest(s)) })
    }
}
pub open spec fn custom_key(p: Seq<u8>) -> Seq<char> { "TableInfo/"@ + latin1_dec(until0(p.subrange(4, 4 + u32_at(p, 0)))) }
pub open spec fn raw(m: Map<Seq<char>, Seq<u8>>, k: Seq<char>) -> Seq<u8> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
pub open spec fn biff(m: Map<Seq<char>, Seq<u8>>, k: Seq<char>) -> Seq<u8> { if m.contains_key(k) { mac_biff(m[k]) } else { Seq::empty() } }
pub open spec fn tags(m: Map<Seq<char>, Seq<u8>>, k: Seq<char>) -> Seq<u8> { if m.contains_key(k) { mac_biff(m[k]) + mac_tags(m, m[k]) } else { Seq::empty() } }
pub open spec fn colls(m: Map<Seq<char>, Seq<u8>>, i: int) -> Seq<u8> decreases 0x7fff_ffff - i {
    if i >= 0x7fff_ffff || !m.contains_key(nth(k_coll(), i)) { Seq::empty() } else { biff(m, nth(k_coll(), i)) + colls(m, i + 1) }
}
pub open spec fn mac_head() -> Seq<u8> { seq![86u8, 105u8, 115u8, 117u8, 97u8, 108u8, 32u8, 80u8, 105u8, 110u8, 98u8, 97u8, 108u8, 108u8] }
/// the text that is signed (format: PinTable::SaveToStorage of VPinball)
pub open spec fn mac_input(m: Map<Seq<char>, Seq<u8>>) -> Seq<u8> {
    mac_head() + (raw(m, "GameStg/Version"@) + (raw(m, "TableInfo/TableName"@) + (raw(m, "TableInfo/AuthorName"@) + (raw(m, "TableInfo/TableVersion"@)
        + (raw(m, "TableInfo/ReleaseDate"@) + (raw(m, "TableInfo/AuthorEmail"@) + (raw(m, "TableInfo/AuthorWebSite"@) + (raw(m, "TableInfo/TableBlurb"@)
        + (raw(m, "TableInfo/TableDescription"@) + (raw(m, "TableInfo/TableRules"@) + (raw(m, "TableInfo/Screenshot"@)
        + (tags(m, "GameStg/CustomInfoTags"@) + (biff(m, "GameStg/GameData"@) + colls(m, 0))))))))))))))
}
/// the signed streams are well framed
pub open spec fn biff_ok(s: Seq<u8>) -> bool decreases s.len() {
    s.len() == 0 || (rec_ok(s) && (
        if rec_tag(s) == "CODE"@ { let t = rec_rest(s); rec_payload(s).len() == 0 && t.len() >= 4 + u32_at(t, 0) && biff_ok(t.skip(4 + u32_at(t, 0) as int)) }
        else if rec_tag(s) == "ENDB"@ { rec_payload(s).len() == 0 && rec_rest(s).len() == 0 }
        else { biff_ok(rec_rest(s)) }))
}
pub open spec fn tags_ok(s: Seq<u8>) -> bool decreases s.len() {
    s.len() == 0 || (rec_ok(s) && (
        if rec_tag(s) == "ENDB"@ { rec_payload(s).len() == 0 && rec_rest(s).len() == 0 }
        else { (rec_tag(s) == "CUST"@ ==> rec_payload(s).len() >= 4 && rec_payload(s).len() == 4 + u32_at(rec_payload(s), 0)) && tags_ok(rec_rest(s)) }))
}
pub open spec fn mac_ok(m: Map<Seq<char>, Seq<u8>>) -> bool {
    (m.contains_key(k_tags()) ==> biff_ok(m[k_tags()]) && tags_ok(m[k_tags()])) && (m.contains_key(k_gamedata()) ==> biff_ok(m[k_gamedata()]))
        && (forall|i: int| 0 <= i && m.contains_key(#[trigger] nth(k_coll(), i)) ==> biff_ok(m[nth(k_coll(), i)])) && !m.contains_key(nth(k_coll(), 0x7fff_ffff))
}
pub open spec fn one(m: Map<Seq<char>, Seq<u8>>, x: FsV) -> Seq<u8> {
    if !x.2 { Seq::empty() } else if !m.contains_key(x.0) { Seq::empty() }
    else { (if x.1 { mac_biff(m[x.0]) } else { m[x.0] }) + (if path_ends(x.0, "CustomInfoTags"@) { mac_tags(m, m[x.0]) } else { Seq::empty() }) }
}
pub open spec fn one_ok(m: Map<Seq<char>, Seq<u8>>, x: FsV) -> bool {
    norm(x.0) == x.0 && (x.2 && m.contains_key(x.0) ==> (x.1 ==> biff_ok(m[x.0])) && (path_ends(x.0, "CustomInfoTags"@) ==> tags_ok(m[x.0])))
}
pub open spec fn fs_ok(m: Map<Seq<char>, Seq<u8>>, l: Seq<FsV>) -> bool { forall|i: int| 0 <= i < l.len() ==> one_ok(m, #[trigger] l[i]) }
pub open spec fn fold(m: Map<Seq<char>, Seq<u8>>, l: Seq<FsV>, i: int) -> Seq<u8> decreases l.len() - i {
    if i < 0 || i >= l.len() { Seq::empty() } else { one(m, l[i]) + fold(m, l, i + 1) }
}
pub proof fn lemma_coll_numbers()
    ensures norm(k_coll()) == k_coll(), forall|i: int| 0 <= i ==> #[trigger] numbered(k_coll(), i), k_coll() == "GameStg/Collection"@,
{
    lemma_keys();
    reveal_strlit("GameStg/Collection"); reveal_strlit("GameStg"); reveal_strlit("Collection"); reveal_strlit("/");
    assert(joined("GameStg"@, "Collection"@) =~= k_coll());
    assert(!"Collection"@.contains('/')) by {
        assert forall|i: int| 0 <= i < 10 implies "Collection"@[i] != '/' by {}
    }
    axiom_base_name("GameStg"@, "Collection"@);
    assert forall|i: int| 0 <= i implies #[trigger] numbered(k_coll(), i) by {
        let n = "Collection"@ + dec_text(i);
        assert(n[0] == 'C');
        assert(with_name(joined("GameStg"@, "Collection"@), n) == joined("GameStg"@, n));
        assert(joined("GameStg"@, n) =~= nth(k_coll(), i));
    }
}
pub proof fn lemma_fold_cat(m: Map<Seq<char>, Seq<u8>>, a: Seq<FsV>, b: Seq<FsV>, i: int)
    requires 0 <= i <= a.len(),
    ensures fold(m, a + b, i) == fold(m, a, i) + fold(m, b, 0),
    decreases a.len() - i,
{
    if i < a.len() {
        lemma_fold_cat(m, a, b, i + 1);
        assert((a + b)[i] == a[i]);
        assert(one(m, a[i]) + (fold(m, a, i + 1) + fold(m, b, 0)) =~= (one(m, a[i]) + fold(m, a, i + 1)) + fold(m, b, 0));
    } else {
        lemma_fold_shift(m, a, b, 0);
        assert(Seq::<u8>::empty() + fold(m, b, 0) =~= fold(m, b, 0));
    }
}
pub proof fn lemma_fold_shift(m: Map<Seq<char>, Seq<u8>>, a: Seq<FsV>, b: Seq<FsV>, j: int)
    requires 0 <= j <= b.len(),
    ensures fold(m, a + b, a.len() + j) == fold(m, b, j),
    decreases b.len() - j,
{
    if j < b.len() { lemma_fold_shift(m, a, b, j + 1); assert((a + b)[a.len() + j] == b[j]); }
}
/// a numbered stream is not the stream of tags
pub broadcast proof fn lemma_not_tags(p: Seq<char>)
    requires p.len() >= 2, p[p.len() - 1] != 's' || p[p.len() - 2] != 'g',
    ensures !(#[trigger] path_ends(p, "CustomInfoTags"@)),
{
    reveal_strlit("CustomInfoTags"); reveal_strlit("/");
    let b = "CustomInfoTags"@;
    if p.len() > b.len() && p.subrange(p.len() - b.len() - 1, p.len() as int) == "/"@ + b {
        let q = p.subrange(p.len() - b.len() - 1, p.len() as int);
        assert(q[14] == p[p.len() - 1]); assert(q[13] == p[p.len() - 2]);
        assert(("/"@ + b)[14] == 's'); assert(("/"@ + b)[13] == 'g');
    }
}
pub proof fn lemma_found(m: Map<Seq<char>, Seq<u8>>, i: int)
    requires 0 <= i, mac_ok(m),
    ensures fold(m, found(m, k_coll(), true, true, i), 0) == colls(m, i), fs_ok(m, found(m, k_coll(), true, true, i)),
    decreases 0x7fff_ffff - i,
{
    if i < 0x7fff_ffff && m.contains_key(nth(k_coll(), i)) {
        lemma_found(m, i + 1);
        let x = (nth(k_coll(), i), true, true);
        let f = found(m, k_coll(), true, true, i + 1);
        lemma_paths(); lemma_keys();
        axiom_digits(i);
        let d = dec_text(i);
        assert(x.0[x.0.len() - 1] == d[d.len() - 1]);
        lemma_not_tags(x.0);
        assert(one_ok(m, x));
        assert(one(m, x) =~= biff(m, x.0));
        lemma_fold_cat(m, seq![x], f, 0);
        assert(fold(m, seq![x], 1) =~= Seq::<u8>::empty());
        assert(fold(m, seq![x], 0) =~= one(m, x));
        assert forall|j: int| 0 <= j < (seq![x] + f).len() implies one_ok(m, #[trigger] (seq![x] + f)[j]) by { if j > 0 { assert((seq![x] + f)[j] == f[j - 1]); } }
    }
}
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_one_hashed(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, b: bool)
    requires !path_ends(p, "CustomInfoTags"@),
    ensures #[trigger] one(m, (p, b, true)) == (if b { biff(m, p) } else { raw(m, p) }),
{ assert(one(m, (p, b, true)) =~= (if b { biff(m, p) } else { raw(m, p) })); }
/// only what is hashed counts
pub open spec fn sel(l: Seq<FsV>, i: int) -> Seq<FsV> decreases l.len() - i {
    if i < 0 || i >= l.len() { Seq::empty() } else if l[i].2 { seq![l[i]] + sel(l, i + 1) } else { sel(l, i + 1) }
}
pub proof fn lemma_sel(m: Map<Seq<char>, Seq<u8>>, l: Seq<FsV>, i: int)
    requires 0 <= i <= l.len(),
    ensures fold(m, l, i) == fold(m, sel(l, i), 0), fs_ok(m, sel(l, i)) && (forall|j: int| i <= j < l.len() ==> norm((#[trigger] l[j]).0) == l[j].0) ==> forall|j: int| i <= j < l.len() ==> one_ok(m, #[trigger] l[j]),
    decreases l.len() - i,
{
    if i < l.len() {
        lemma_sel(m, l, i + 1);
        let r = sel(l, i + 1);
        if l[i].2 {
            lemma_fold_shift(m, seq![l[i]], r, 0);
            let w = seq![l[i]] + r;
            assert(fold(m, w, 0) == one(m, w[0]) + fold(m, w, 1));
            if fs_ok(m, w) && (forall|j: int| i <= j < l.len() ==> norm((#[trigger] l[j]).0) == l[j].0) {
                assert(one_ok(m, w[0]));
                assert forall|j: int| 0 <= j < r.len() implies one_ok(m, #[trigger] r[j]) by { assert(w[j + 1] == r[j]); }
            }
        } else {
            assert(Seq::<u8>::empty() + fold(m, r, 0) =~= fold(m, r, 0));
        }
    }
}
pub open spec fn fixed() -> Seq<FsV> {
    seq![("GameStg/Version"@, false, true), ("TableInfo/TableName"@, false, true), ("TableInfo/AuthorName"@, false, true), ("TableInfo/TableVersion"@, false, true),
        ("TableInfo/ReleaseDate"@, false, true), ("TableInfo/AuthorEmail"@, false, true), ("TableInfo/AuthorWebSite"@, false, true), ("TableInfo/TableBlurb"@, false, true),
        ("TableInfo/TableDescription"@, false, true), ("TableInfo/TableRules"@, false, true), ("TableInfo/Screenshot"@, false, true),
        ("GameStg/CustomInfoTags"@, true, true), ("GameStg/GameData"@, true, true)]
}
pub proof fn lemma_paths()
    ensures
        forall|s: Seq<char>| s.len() != 1 ==> #[trigger] norm(s) == s,
        "GameStg/Version"@.len() > 1, "TableInfo/TableName"@.len() > 1, "TableInfo/AuthorName"@.len() > 1, "TableInfo/TableVersion"@.len() > 1, "TableInfo/ReleaseDate"@.len() > 1,
        "TableInfo/AuthorEmail"@.len() > 1, "TableInfo/AuthorWebSite"@.len() > 1, "TableInfo/TableBlurb"@.len() > 1, "TableInfo/TableDescription"@.len() > 1,
        "TableInfo/TableRules"@.len() > 1, "TableInfo/Screenshot"@.len() > 1, "GameStg/CustomInfoTags"@.len() > 1, "GameStg/GameData"@.len() > 1,
        "TableInfo/TableSaveDate"@.len() > 1, "TableInfo/TableSaveRev"@.len() > 1,
        forall|i: int| 0 <= i < 13 && i != 11 ==> !path_ends((#[trigger] fixed()[i]).0, "CustomInfoTags"@),
        path_ends("GameStg/CustomInfoTags"@, "CustomInfoTags"@),
{
    broadcast use lemma_not_tags;
    lemma_keys();
    reveal_strlit("GameStg/Version"); reveal_strlit("TableInfo/TableName"); reveal_strlit("TableInfo/AuthorName"); reveal_strlit("TableInfo/TableVersion"); reveal_strlit("TableInfo/ReleaseDate");
    reveal_strlit("TableInfo/AuthorEmail"); reveal_strlit("TableInfo/AuthorWebSite"); reveal_strlit("TableInfo/TableBlurb"); reveal_strlit("TableInfo/TableDescription");
    reveal_strlit("TableInfo/TableRules"); reveal_strlit("TableInfo/Screenshot"); reveal_strlit("GameStg/CustomInfoTags"); reveal_strlit("GameStg/GameData");
    reveal_strlit("TableInfo/TableSaveDate"); reveal_strlit("TableInfo/TableSaveRev"); reveal_strlit("CustomInfoTags"); reveal_strlit("/");
    let p = "GameStg/CustomInfoTags"@;
    assert(p.subrange(p.len() - 15, p.len() as int) =~= "/"@ + "CustomInfoTags"@);
}
pub proof fn lemma_fixed(m: Map<Seq<char>, Seq<u8>>)
    requires mac_ok(m),
    ensures mac_head() + (fold(m, fixed(), 0) + colls(m, 0)) == mac_input(m), fs_ok(m, fixed()),
{
    lemma_paths();
    let f = fixed();
    let c = colls(m, 0);
    assert(f[11] == (k_tags(), true, true));
    assert(f[12] == (k_gamedata(), true, true));
    assert forall|j: int| 0 <= j < f.len() implies one_ok(m, #[trigger] f[j]) by {}
    assert(one(m, f[11]) =~= tags(m, k_tags()));
    broadcast use lemma_one_hashed, lemma_assoc;
    assert(fold(m, f, 13) + c =~= c);
    assert(fold(m, f, 12) + c == biff(m, f[12].0) + (fold(m, f, 13) + c));
    assert(fold(m, f, 11) + c == tags(m, f[11].0) + (fold(m, f, 12) + c));
    assert(fold(m, f, 10) + c == raw(m, f[10].0) + (fold(m, f, 11) + c));
    assert(fold(m, f, 9) + c == raw(m, f[9].0) + (fold(m, f, 10) + c));
    assert(fold(m, f, 8) + c == raw(m, f[8].0) + (fold(m, f, 9) + c));
    assert(fold(m, f, 7) + c == raw(m, f[7].0) + (fold(m, f, 8) + c));
    assert(fold(m, f, 6) + c == raw(m, f[6].0) + (fold(m, f, 7) + c));
    assert(fold(m, f, 5) + c == raw(m, f[5].0) + (fold(m, f, 6) + c));
    assert(fold(m, f, 4) + c == raw(m, f[4].0) + (fold(m, f, 5) + c));
    assert(fold(m, f, 3) + c == raw(m, f[3].0) + (fold(m, f, 4) + c));
    assert(fold(m, f, 2) + c == raw(m, f[2].0) + (fold(m, f, 3) + c));
    assert(fold(m, f, 1) + c == raw(m, f[1].0) + (fold(m, f, 2) + c));
    assert(fold(m, f, 0) + c == raw(m, f[0].0) + (fold(m, f, 1) + c));
}
/// the list of streams, whatever is left out of it for not being signed
pub proof fn lemma_list(m: Map<Seq<char>, Seq<u8>>, l: Seq<FsV>)
    requires mac_ok(m), l.len() >= found(m, k_coll(), true, true, 0).len(),
        l == l.take(l.len() - found(m, k_coll(), true, true, 0).len()) + found(m, k_coll(), true, true, 0),
        sel(l.take(l.len() - found(m, k_coll(), true, true, 0).len()), 0) == fixed(), forall|j: int| 0 <= j < l.len() ==> norm((#[trigger] l[j]).0) == l[j].0,
    ensures mac_head() + fold(m, l, 0) == mac_input(m), fs_ok(m, l),
{
    let c = found(m, k_coll(), true, true, 0);
    let a = l.take(l.len() - c.len());
    assert forall|j: int| 0 <= j < a.len() implies norm((#[trigger] a[j]).0) == a[j].0 by { assert(a[j] == l[j]); }
    lemma_found(m, 0); lemma_fixed(m); lemma_sel(m, a, 0); lemma_fold_cat(m, a, c, 0);
    assert forall|j: int| 0 <= j < l.len() implies one_ok(m, #[trigger] l[j]) by { if j < a.len() { assert(l[j] == a[j]); } else { assert(l[j] == c[j - a.len()]); } }
}
pub proof fn lemma_tag_names()
    ensures "CODE"@ != "ENDB"@, "CUST"@ != "ENDB"@, "CODE"@ != "CUST"@,
{
    reveal_strlit("ENDB"); reveal_strlit("CODE"); reveal_strlit("CUST");
    assert("CODE"@[0] != "ENDB"@[0]); assert("CUST"@[0] != "ENDB"@[0]); assert("CODE"@[1] != "CUST"@[1]);
}
pub broadcast proof fn lemma_rest_u32(r: &BiffReader)
    requires r.bytes_in_record_remaining == 0, r.pos + 4 <= r.data@.len(),
    ensures #[trigger] u32_at(r.rest(), 0) == u32_at(r.data@, r.pos as int),
{ assert(r.rest().subrange(0, 4) =~= r.data@.subrange(r.pos as int, r.pos + 4)); }
