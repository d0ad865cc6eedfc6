@@module fontfiles src/vpx/expanded/fonts.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_fonts, lemma_fonts_stored
@@fn write_fonts
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut fonts_index_file=>to_writer_pretty(&mut *fonts_index_file
@@subst let fonts_dir\b=>let ghost __j = fonts_index.json(); let fonts_dir
    requires fonts@.len() <= 30000, expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> only(old(fs)@, final(fs)@, expanded_dir.at(), "fonts"@),
        r is Ok && plain_font_names(fonts@) ==> fonts_stored(final(fs)@, expanded_dir.at(), fonts@),
@@post
    reveal(fonts_stored);
@@start
    proof { lemma_font_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == fonts@.len(), forall|k: int| 0 <= k < fonts@.len() ==> *(#[trigger] __it.seq()[k]) == fonts@[k], fonts@.len() <= 30000,
        __out1@.len() == __it.index(), file_names.used_names_lowercase@.finite(), file_names.used_names_lowercase@.len() == __it.index(), file_names.dupe_counter <= __it.index() * (__it.index() + 1),
        forall|k: int| 0 <= k < __it.index() ==> font_listed(fonts@[k], fj_view(#[trigger] __out1@[k])) && file_names.used_names_lowercase@.contains(lower(real_name(fj_view(__out1@[k])))),
        forall|a: int, b: int| 0 <= a < b < __it.index() ==> lower(real_name(fj_view(#[trigger] __out1@[a]))) != lower(real_name(fj_view(#[trigger] __out1@[b]))),
@@loop_start 0
    proof { let i = __it.index(); assert(i * (i + 1) + i + 1 <= (i + 1) * (i + 2) && i * (i + 1) <= 30000 * 30001) by (nonlinear_arith) requires 0 <= i <= 30000; }
@@loop 1
    iter __it
    invariant
        fonts_listed(fonts@, __j), __j == fonts_index@.map_values(|j: FontDataJson| fj_view(j)), fonts_index@.len() == fonts@.len(), fonts_dir@ == joined(expanded_dir.at(), "fonts"@),
        fonts_in(fs@, expanded_dir.at(), fonts@, __j, __it.index()), only(old(fs)@, fs@, expanded_dir.at(), "fonts"@), fs.ok() == old(fs).ok(), expanded_dir.at().len() > 0,
        fs@.contains_key(joined(expanded_dir.at(), "fonts.json"@)) && fs@[joined(expanded_dir.at(), "fonts.json"@)] == json_text(__j),
@@loop_start 1
    broadcast use {vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_fonts};
    let ghost __m = fs@;
    let ghost __i = __it.index();
    proof { lemma_font_key(expanded_dir.at(), __j[__i]); assert(__j[__i] == fj_view(fonts_index@[__i])); reveal(fonts_listed); assert(font_listed(fonts@[__i], __j[__i])); }
@@loop_end 1
    proof {
        assert(fs@ == __m.insert(font_at(expanded_dir.at(), __j[__it.index()]), fonts@[__it.index()].data@));
        lemma_only_put(old(fs)@, __m, expanded_dir.at(), "fonts"@, font_at(expanded_dir.at(), __j[__i]), fonts@[__i].data@);
        lemma_put_font(__m, expanded_dir.at(), fonts@, __j, __it.index());
    }
@@before_loop 1
    proof {
        reveal(fonts_listed); reveal(fonts_in);
        assert(fonts_index@.len() == fonts@.len());
        assert forall|a: int, b: int| 0 <= a < b < __j.len() implies real_name(#[trigger] __j[a]) != real_name(#[trigger] __j[b]) by {
            assert(lower(real_name(fj_view(fonts_index@[a]))) != lower(real_name(fj_view(fonts_index@[b]))));
        }
        assert(fonts_listed(fonts@, __j));
        lemma_only_put(old(fs)@, old(fs)@, expanded_dir.at(), "fonts"@, joined(expanded_dir.at(), "fonts.json"@), json_text(__j));
    }
@@fn read_fonts
@@ret out
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        old(fs).ok() ==> forall|f: Seq<FontData>| #[trigger] fonts_stored(old(fs)@, expanded_dir.at(), f) ==> out is Ok && same_fonts(f, out->Ok_0@),
@@start
    proof { lemma_font_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        fonts_json@.len() == __it.seq().len(), forall|k: int| 0 <= k < fonts_json@.len() ==> *(#[trigger] __it.seq()[k]) == fonts_json@[k],
        fs@ == old(fs)@, fs.ok() == old(fs).ok(), __out2@.len() == __it.index(), fonts_dir@ == joined(expanded_dir.at(), "fonts"@), expanded_dir.at().len() > 0,
        fonts_from(fs@, expanded_dir.at(), fonts_json.json(), __out2@, __it.index()),
        old(fs)@.contains_key(joined(expanded_dir.at(), "fonts.json"@)),
        json_of::<Seq<FjV>>(old(fs)@[joined(expanded_dir.at(), "fonts.json"@)]) == Some(fonts_json.json()),
@@loop_start 0
    broadcast use {vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_fonts, lemma_fonts_stored};
    let ghost __i = __it.index();
    let ghost __b = __out2@;
    proof { lemma_font_key(expanded_dir.at(), fj_view(fonts_json@[__i])); assert(fonts_json.json()[__i] == fj_view(fonts_json@[__i])); lemma_fonts_there(old(fs)@, expanded_dir.at(), fonts_json.json(), __i); }
@@after_loop 0
    proof { lemma_fonts_read(old(fs)@, expanded_dir.at(), fonts_json.json(), __out2@); }
@@loop_end 0
    proof { reveal(fonts_from); assert(__out2@.take(__i) =~= __b); assert forall|k: int| 0 <= k < __i implies __out2@[k] == __b[k] by {} }
@@before_loop 0
    proof { reveal(fonts_from); }
@@extra
pub open spec fn real_name(j: FjV) -> Seq<char> { match j.dedup { Some(n) => n, None => j.name } }
/// the name a font's file is looked for under
pub open spec fn read_name(j: FjV) -> Seq<char> { match j.dedup { Some(n) => n, None => sanitized(j.name) } }
pub open spec fn font_at(dir: Seq<char>, j: FjV) -> Seq<char> { file_at(dir, "fonts"@, dotted(real_name(j), font_ext(j.path))) }
pub open spec fn read_at(dir: Seq<char>, j: FjV) -> Seq<char> { file_at(dir, "fonts"@, dotted(read_name(j), font_ext(j.path))) }
pub open spec fn font_listed(f: FontData, j: FjV) -> bool { j.name == f.name@ && j.path == f.path@ && valid_name(sanitized(f.name@), real_name(j)) }
#[verifier::opaque] pub open spec fn fonts_listed(f: Seq<FontData>, j: Seq<FjV>) -> bool {
    j.len() == f.len() && (forall|k: int| 0 <= k < f.len() ==> font_listed(f[k], #[trigger] j[k])) && (forall|a: int, b: int| 0 <= a < b < j.len() ==> real_name(#[trigger] j[a]) != real_name(#[trigger] j[b]))
}
#[verifier::opaque] pub open spec fn fonts_in(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<FontData>, j: Seq<FjV>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> m.contains_key(font_at(dir, #[trigger] j[k])) && m[font_at(dir, j[k])] == f[k].data@
}
#[verifier::opaque] pub open spec fn fonts_from(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<FjV>, f: Seq<FontData>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> m.contains_key(read_at(dir, #[trigger] j[k])) && f[k].name@ == j[k].name && f[k].path@ == j[k].path && f[k].data@ == m[read_at(dir, j[k])]
}

pub proof fn lemma_font_keys(dir: Seq<char>) requires dir.len() > 0
    ensures norm(joined(dir, "fonts"@)) == joined(dir, "fonts"@), norm(joined(dir, "fonts.json"@)) == joined(dir, "fonts.json"@), norm("fonts"@) == "fonts"@, norm("fonts.json"@) == "fonts.json"@, owns(dir, "fonts"@, joined(dir, "fonts.json"@)),
{
    reveal_strlit("/"); reveal_strlit("fonts"); reveal_strlit("fonts.json");
    let p = joined(dir, "fonts"@); let k = joined(dir, "fonts.json"@);
    assert("fonts.json"@.subrange(0, 5) =~= "fonts"@); assert(k.subrange(0, p.len() as int) =~= p); assert(k[p.len() as int] == '.');
}
pub proof fn lemma_font_key(dir: Seq<char>, j: FjV)
    requires dir.len() > 0,
    ensures norm(dotted(real_name(j), font_ext(j.path))) == dotted(real_name(j), font_ext(j.path)), norm(dotted(read_name(j), font_ext(j.path))) == dotted(read_name(j), font_ext(j.path)),
        norm(font_at(dir, j)) == font_at(dir, j), norm(read_at(dir, j)) == read_at(dir, j), font_at(dir, j) != joined(dir, "fonts.json"@), owns(dir, "fonts"@, font_at(dir, j)),
{
    broadcast use vpin_cfb;
    reveal_strlit("/"); reveal_strlit("."); reveal_strlit("fonts"); reveal_strlit("fonts.json");
    let a = dotted(real_name(j), font_ext(j.path)); let b = dotted(read_name(j), font_ext(j.path));
    assert(a[real_name(j).len() as int] == '.'); assert(b[read_name(j).len() as int] == '.');
    assert(a.len() == 1 ==> a[0] == '.'); assert(b.len() == 1 ==> b[0] == '.');
    let x = font_at(dir, j); let y = joined(dir, "fonts.json"@); let n = dir.len() as int + 6;
    assert(x[n] == '/' ); assert(y[n] == '.');
    assert(x.subrange(0, n) =~= joined(dir, "fonts"@));
}
/// one more font's file leaves the ones before as they are
pub proof fn lemma_put_font(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<FontData>, j: Seq<FjV>, n: int)
    requires 0 <= n < f.len(), fonts_listed(f, j), fonts_in(m, dir, f, j, n), dir.len() > 0,
    ensures fonts_in(m.insert(font_at(dir, j[n]), f[n].data@), dir, f, j, n + 1),
{
    reveal(fonts_listed); reveal(fonts_in);
    let m2 = m.insert(font_at(dir, j[n]), f[n].data@);
    assert forall|k: int| 0 <= k < n + 1 implies m2.contains_key(font_at(dir, #[trigger] j[k])) && m2[font_at(dir, j[k])] == f[k].data@ by {
        if k < n && font_at(dir, j[k]) == font_at(dir, j[n]) {
            let a = real_name(j[k]); let b = real_name(j[n]);
            axiom_font_ext(j[k].path); axiom_font_ext(j[n].path);
            lemma_file_at(dir, "fonts"@, dotted(a, font_ext(j[k].path)), dotted(b, font_ext(j[n].path)));
            lemma_dotted(a, font_ext(j[k].path), b, font_ext(j[n].path));
        }
    }
}
/// assumed: what follows the last dot of a path has no dot
pub axiom fn axiom_font_ext(p: Seq<char>) ensures dotless(font_ext(p));
/// no font is called what a numbered copy of its own name would be
pub open spec fn plain_font_names(f: Seq<FontData>) -> bool { forall|i: int, k: int| 0 <= i < f.len() ==> (#[trigger] f[i]).name@ != #[trigger] counted(sanitized(f[i].name@), "_dedup"@, k) }
pub open spec fn same_fonts(a: Seq<FontData>, b: Seq<FontData>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name@ == b[i].name@ && a[i].path@ == b[i].path@ && a[i].data@ == b[i].data@ }
/// the files of a directory that hold these fonts
#[verifier::opaque] pub open spec fn fonts_stored(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<FontData>) -> bool {
    let key = joined(dir, "fonts.json"@);
    plain_font_names(f) && dir.len() > 0 && m.contains_key(key) && match json_of::<Seq<FjV>>(m[key]) { Some(j) => fonts_listed(f, j) && fonts_in(m, dir, f, j, f.len() as int), None => false }
}
pub broadcast proof fn lemma_fonts_stored(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<FontData>)
    requires #[trigger] fonts_stored(m, dir, f),
    ensures m.contains_key(joined(dir, "fonts.json"@)), json_of::<Seq<FjV>>(m[joined(dir, "fonts.json"@)]) is Some,
{ reveal(fonts_stored); }
pub proof fn lemma_fonts_name(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<FontData>, j: Seq<FjV>, k: int)
    requires fonts_stored(m, dir, f), json_of::<Seq<FjV>>(m[joined(dir, "fonts.json"@)]) == Some(j), 0 <= k < j.len(),
    ensures m.contains_key(read_at(dir, j[k])), m[read_at(dir, j[k])] == f[k].data@, f.len() == j.len(), f[k].name@ == j[k].name, f[k].path@ == j[k].path,
{
    reveal(fonts_stored); reveal(fonts_listed); reveal(fonts_in);
    assert(font_listed(f[k], j[k])); let n = f[k].name@; assert(valid_name(sanitized(n), real_name(j[k])));
    assert(read_name(j[k]) == real_name(j[k]));
    assert(read_at(dir, j[k]) == font_at(dir, j[k]));
}
/// each font listed has its file
pub proof fn lemma_fonts_there(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<FjV>, k: int)
    requires json_of::<Seq<FjV>>(m[joined(dir, "fonts.json"@)]) == Some(j), 0 <= k < j.len(),
    ensures forall|f: Seq<FontData>| #[trigger] fonts_stored(m, dir, f) ==> m.contains_key(read_at(dir, j[k])),
{ assert forall|f: Seq<FontData>| #[trigger] fonts_stored(m, dir, f) implies m.contains_key(read_at(dir, j[k])) by { lemma_fonts_name(m, dir, f, j, k); } }
/// what is read is what was stored
pub proof fn lemma_fonts_read(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<FjV>, r: Seq<FontData>)
    requires json_of::<Seq<FjV>>(m[joined(dir, "fonts.json"@)]) == Some(j), r.len() == j.len(), fonts_from(m, dir, j, r, j.len() as int),
    ensures forall|f: Seq<FontData>| #[trigger] fonts_stored(m, dir, f) ==> same_fonts(f, r),
{
    reveal(fonts_from);
    assert forall|f: Seq<FontData>| #[trigger] fonts_stored(m, dir, f) implies same_fonts(f, r) by {
        assert(f.len() == j.len()) by { reveal(fonts_stored); reveal(fonts_listed); }
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).name@ == r[i].name@ && f[i].path@ == r[i].path@ && f[i].data@ == r[i].data@ by { lemma_fonts_name(m, dir, f, j, i); assert(m.contains_key(read_at(dir, j[i]))); }
    }
}
/// fonts stay stored while their files stay
pub proof fn lemma_fonts_stay(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<FontData>)
    requires fonts_stored(a, dir, f), agree(a, b, dir, "fonts"@),
    ensures fonts_stored(b, dir, f),
{
    reveal(fonts_stored); reveal(fonts_in); reveal(agree);
    lemma_font_keys(dir);
    let j = json_of::<Seq<FjV>>(a[joined(dir, "fonts.json"@)])->0;
    assert forall|k: int| 0 <= k < f.len() implies b.contains_key(font_at(dir, #[trigger] j[k])) && b[font_at(dir, j[k])] == f[k].data@ by { reveal(fonts_listed); lemma_font_key(dir, j[k]); assert(a.contains_key(font_at(dir, j[k]))); }
    assert(a.contains_key(joined(dir, "fonts.json"@)));
}
/// the pair of real functions: the fonts of a table, written to its directory and read from it
pub fn fonts_roundtrip<P: VAsPath>(fonts: &[FontData], dir: &P, fs: &mut Fs) -> (r: Option<Vec<FontData>>)
    requires fonts@.len() <= 30000, dir.at().len() > 0, plain_font_names(fonts@), old(fs).ok(),
    ensures r is Some, same_fonts(fonts@, r->0@),
{
    match write_fonts(fonts, dir, fs) { Ok(()) => {}, Err(_) => { return None; } }
    match read_fonts(dir, fs) { Ok(x) => Some(x), Err(_) => None }
}
