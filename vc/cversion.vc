@@module cversion src/vpx/version.rs
@@broadcast vpin_base, vpin_cfb, lemma_b32
@@item struct Version
@@fn Version::new
    ensures r == Version(version),
@@fn vpx_version_path
    ensures r@ == k_version(),
@@start
    proof { lemma_keys(); }
@@fn read_version_data
    ensures r is Ok ==> r->Ok_0.0 == u32_at(old(stream)@, old(stream).pos()), final(stream)@ == old(stream)@, final(stream).ok() == old(stream).ok(), old(stream).ok() && old(stream).pos() + 4 <= old(stream)@.len() ==> r is Ok,
@@fn write_version_data
    ensures r is Ok && old(stream).pos() == old(stream)@.len() ==> final(stream)@ == old(stream)@ + b32(version.0), final(stream).ok() == old(stream).ok(), old(stream).ok() ==> r is Ok,
@@fn read_version
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> old(comp)@.contains_key(k_version()) && r->Ok_0.0 == u32_at(old(comp)@[k_version()], 0),
        old(comp).ok() && has4(old(comp)@, k_version()) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@subst &mut stream=>stream
@@fn write_version
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(k_version(), b32(version.0)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@subst &mut stream=>stream
@@extra
pub open spec fn has4(m: Map<Seq<char>, Seq<u8>>, k: Seq<char>) -> bool { m.contains_key(k) && m[k].len() >= 4 }
pub open spec fn k_version() -> Seq<char> { "GameStg/Version"@ }
pub open spec fn k_gamedata() -> Seq<char> { "GameStg/GameData"@ }
pub open spec fn k_mac() -> Seq<char> { "GameStg/MAC"@ }
pub open spec fn k_tags() -> Seq<char> { "GameStg/CustomInfoTags"@ }
pub open spec fn k_item() -> Seq<char> { "GameStg/GameItem"@ }
pub open spec fn k_image() -> Seq<char> { "GameStg/Image"@ }
pub open spec fn k_sound() -> Seq<char> { "GameStg/Sound"@ }
pub open spec fn k_font() -> Seq<char> { "GameStg/Font"@ }
pub open spec fn k_coll() -> Seq<char> { "GameStg/Collection"@ }
/// the key of the i-th stream of a kind
pub open spec fn nth(p: Seq<char>, i: int) -> Seq<char> { p + dec_text(i) }
/// assumed: different numbers have different decimal digits
pub axiom fn axiom_dec_text(a: int, b: int) requires 0 <= a, 0 <= b, dec_text(a) == dec_text(b) ensures a == b;
/// what the code's path expressions mean
pub proof fn lemma_keys()
    ensures
        norm("/"@).len() == 0, norm("GameStg"@) == "GameStg"@,
        forall|s: Seq<char>| s.len() != 1 ==> #[trigger] norm(s) == s,
        joined("GameStg"@, "Version"@) == k_version(), joined("GameStg"@, "GameData"@) == k_gamedata(), joined("GameStg"@, "MAC"@) == k_mac(), joined("GameStg"@, "CustomInfoTags"@) == k_tags(),
        "GameStg"@.len() == 7, "Version"@.len() == 7, "GameData"@.len() == 8, "MAC"@.len() == 3, "CustomInfoTags"@.len() == 14, "GameItem"@.len() == 8, "Sound"@.len() == 5, "Collection"@.len() == 10,
        k_image().len() == 13, k_font().len() == 12, k_version().len() == 15, k_gamedata().len() == 16, k_mac().len() == 11, k_tags().len() == 22,
        k_item().len() == 16, k_sound().len() == 13, k_coll().len() == 18,
        forall|d: Seq<char>| joined("GameStg"@, #[trigger] ("GameItem"@ + d)) == k_item() + d,
        forall|d: Seq<char>| joined("GameStg"@, #[trigger] ("Sound"@ + d)) == k_sound() + d,
        forall|d: Seq<char>| joined("GameStg"@, #[trigger] ("Collection"@ + d)) == k_coll() + d,
{
    reveal_strlit("/"); reveal_strlit("GameStg"); reveal_strlit("Version"); reveal_strlit("GameData"); reveal_strlit("MAC"); reveal_strlit("CustomInfoTags");
    reveal_strlit("GameStg/Version"); reveal_strlit("GameStg/GameData"); reveal_strlit("GameStg/MAC"); reveal_strlit("GameStg/CustomInfoTags");
    reveal_strlit("GameStg/GameItem"); reveal_strlit("GameStg/Image"); reveal_strlit("GameStg/Sound"); reveal_strlit("GameStg/Font"); reveal_strlit("GameStg/Collection");
    reveal_strlit("GameItem"); reveal_strlit("Sound"); reveal_strlit("Collection");
    assert(joined("GameStg"@, "Version"@) =~= k_version()); assert(joined("GameStg"@, "GameData"@) =~= k_gamedata()); assert(joined("GameStg"@, "MAC"@) =~= k_mac()); assert(joined("GameStg"@, "CustomInfoTags"@) =~= k_tags());
    assert forall|d: Seq<char>| joined("GameStg"@, #[trigger] ("GameItem"@ + d)) == k_item() + d by { assert(joined("GameStg"@, "GameItem"@ + d) =~= k_item() + d); }
    assert forall|d: Seq<char>| joined("GameStg"@, #[trigger] ("Sound"@ + d)) == k_sound() + d by { assert(joined("GameStg"@, "Sound"@ + d) =~= k_sound() + d); }
    assert forall|d: Seq<char>| joined("GameStg"@, #[trigger] ("Collection"@ + d)) == k_coll() + d by { assert(joined("GameStg"@, "Collection"@ + d) =~= k_coll() + d); }
}
/// the kind of a stream, told from a few letters of its path
pub open spec fn kind(k: Seq<char>) -> int {
    if k[0] == 'T' { 9 } else if k[8] == 'M' { 0 } else if k[8] == 'V' { 1 } else if k[8] == 'S' { 2 } else if k[8] == 'I' { 3 } else if k[8] == 'F' { 4 }
    else if k[8] == 'G' { if k[12] == 'I' { 5 } else { 6 } } else { if k[9] == 'o' { 7 } else { 8 } }
}
pub proof fn lemma_kinds()
    ensures
        kind(k_mac()) == 0, kind(k_version()) == 1, kind(k_gamedata()) == 6, kind(k_tags()) == 8,
        forall|i: int| kind(#[trigger] nth(k_sound(), i)) == 2, forall|i: int| kind(#[trigger] nth(k_image(), i)) == 3, forall|i: int| kind(#[trigger] nth(k_font(), i)) == 4,
        forall|i: int| kind(#[trigger] nth(k_item(), i)) == 5, forall|i: int| kind(#[trigger] nth(k_coll(), i)) == 7,
        forall|p: Seq<char>, i: int, j: int| 0 <= i && 0 <= j && #[trigger] nth(p, i) == #[trigger] nth(p, j) ==> i == j,
{
    reveal_strlit("GameStg/Version"); reveal_strlit("GameStg/GameData"); reveal_strlit("GameStg/MAC"); reveal_strlit("GameStg/CustomInfoTags");
    reveal_strlit("GameStg/GameItem"); reveal_strlit("GameStg/Image"); reveal_strlit("GameStg/Sound"); reveal_strlit("GameStg/Font"); reveal_strlit("GameStg/Collection");
    assert forall|p: Seq<char>, i: int, j: int| 0 <= i && 0 <= j && #[trigger] nth(p, i) == #[trigger] nth(p, j) implies i == j by {
        assert(nth(p, i).skip(p.len() as int) =~= dec_text(i)); assert(nth(p, j).skip(p.len() as int) =~= dec_text(j));
        axiom_dec_text(i, j);
    }
}
