@@module soundfiles src/vpx/expanded/sounds.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_sounds, lemma_sounds_stored
@@fn write_sounds
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut sounds_index_file=>to_writer_pretty(&mut *sounds_index_file
@@subst let sounds_dir\b=>let ghost __j = json_sounds.json(); let sounds_dir
    requires sounds@.len() <= 30000, expanded_dir.at().len() > 0, forall|i: int| 0 <= i < sounds@.len() ==> (#[trigger] sounds@[i]).data@.len() + 44 <= u32::MAX,
    ensures
        final(fs).ok() == old(fs).ok(),
        old(fs).ok() && no_sounds(old(fs)@, expanded_dir.at()) ==> r is Ok,
        r is Ok ==> only(old(fs)@, final(fs)@, expanded_dir.at(), "sounds"@),
        r is Ok && keepable(sounds@) ==> sounds_stored(final(fs)@, expanded_dir.at(), sounds@),
@@post
    reveal(sounds_stored);
@@start
    let ghost __s = sounds@;
    proof { lemma_sound_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        __s == sounds@, __it.seq().len() == sounds@.len(), forall|k: int| 0 <= k < sounds@.len() ==> *(#[trigger] __it.seq()[k]) == sounds@[k], sounds@.len() <= 30000,
        json_sounds@.len() == __it.index(), __out1@.len() == __it.index(), file_names.used_names_lowercase@.finite(), file_names.used_names_lowercase@.len() == __it.index(), file_names.dupe_counter <= __it.index() * (__it.index() + 1),
        forall|k: int| 0 <= k < __it.index() ==> sound_listed(sounds@[k], sj_view(#[trigger] json_sounds@[k])) && file_names.used_names_lowercase@.contains(lower(sound_name(sj_view(json_sounds@[k])))),
        forall|k: int| 0 <= k < __it.index() ==> *(#[trigger] __out1@[k]).1 == sounds@[k] && __out1@[k].0@ == sound_file(sj_view(json_sounds@[k])),
        forall|a: int, b: int| 0 <= a < b < __it.index() ==> lower(sound_name(sj_view(#[trigger] json_sounds@[a]))) != lower(sound_name(sj_view(#[trigger] json_sounds@[b]))),
@@loop_start 0
    broadcast use {vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_sounds, lemma_sounds_stored};
    proof { let i = __it.index(); assert(i * (i + 1) + i + 1 <= (i + 1) * (i + 2) && i * (i + 1) <= 30000 * 30001) by (nonlinear_arith) requires 0 <= i <= 30000; }
@@loop 1
    iter __it
    invariant
        __it.seq().len() == __s.len(), forall|k: int| 0 <= k < __s.len() ==> *(#[trigger] __it.seq()[k]).1 == __s[k] && __it.seq()[k].0@ == sound_file(__j[k]),
        forall|i: int| 0 <= i < __s.len() ==> (#[trigger] __s[i]).data@.len() + 44 <= u32::MAX,
        sounds_listed(__s, __j), sounds_dir@ == joined(expanded_dir.at(), "sounds"@),
        sounds_in(fs@, expanded_dir.at(), __s, __j, __it.index()), only(old(fs)@, fs@, expanded_dir.at(), "sounds"@), fs.ok() == old(fs).ok(), expanded_dir.at().len() > 0,
        no_sounds(old(fs)@, expanded_dir.at()) ==> no_sounds_from(fs@, expanded_dir.at(), __j, __it.index()),
        fs@.contains_key(joined(expanded_dir.at(), "sounds.json"@)) && fs@[joined(expanded_dir.at(), "sounds.json"@)] == json_text(__j),
@@loop_start 1
    broadcast use {vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_sounds, lemma_sounds_stored};
    let ghost __m = fs@;
    let ghost __i = __it.index();
    proof { lemma_sound_key(expanded_dir.at(), __j[__i]); reveal(sounds_listed); reveal(no_sounds_from); assert(sound_listed(__s[__i], __j[__i])); }
@@loop_end 1
    proof {
        assert(fs@ == __m.insert(sound_at(expanded_dir.at(), __j[__i]), snd_file(__s[__i])));
        lemma_only_put(old(fs)@, __m, expanded_dir.at(), "sounds"@, sound_at(expanded_dir.at(), __j[__i]), snd_file(__s[__i]));
        lemma_put_sound(__m, expanded_dir.at(), __s, __j, __i);
    }
@@before_loop 1
    proof {
        reveal(sounds_listed); reveal(sounds_in); reveal(no_sounds_from);
        assert forall|a: int, b: int| 0 <= a < b < __j.len() implies sound_name(#[trigger] __j[a]) != sound_name(#[trigger] __j[b]) by {
            assert(lower(sound_name(sj_view(json_sounds@[a]))) != lower(sound_name(sj_view(json_sounds@[b]))));
        }
        assert forall|k: int| 0 <= k < __j.len() implies sound_listed(__s[k], #[trigger] __j[k]) by { assert(sound_listed(__s[k], sj_view(json_sounds@[k]))); }
        assert(sounds_listed(__s, __j));
        lemma_only_put(old(fs)@, old(fs)@, expanded_dir.at(), "sounds"@, joined(expanded_dir.at(), "sounds.json"@), json_text(__j));
        assert forall|k: int| 0 <= k < __j.len() implies #[trigger] sound_at(expanded_dir.at(), __j[k]) != joined(expanded_dir.at(), "sounds.json"@) by { lemma_sound_key(expanded_dir.at(), __j[k]); }
    }
@@fn read_sounds
@@ret out
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        old(fs).ok() ==> forall|f: Seq<SoundData>| #[trigger] sounds_stored(old(fs)@, expanded_dir.at(), f) ==> out is Ok && same_sounds(f, out->Ok_0@),
@@start
    proof { lemma_sound_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == __j.len(), forall|k: int| 0 <= k < __j.len() ==> sj_view(#[trigger] __it.seq()[k]) == __j[k],
        fs@ == old(fs)@, fs.ok() == old(fs).ok(), __out2@.len() == __it.index(), sounds_dir@ == joined(expanded_dir.at(), "sounds"@), expanded_dir.at().len() > 0,
        sounds_from(fs@, expanded_dir.at(), __j, __out2@, __it.index()),
        old(fs)@.contains_key(joined(expanded_dir.at(), "sounds.json"@)),
        json_of::<Seq<SjV>>(old(fs)@[joined(expanded_dir.at(), "sounds.json"@)]) == Some(__j),
@@loop_start 0
    broadcast use {vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_plain_sounds, lemma_sounds_stored};
    let ghost __i = __it.index();
    let ghost __b = __out2@;
    proof { lemma_sound_key(expanded_dir.at(), __j[__i]); assert(sj_view(__it.seq()[__i]) == __j[__i]); lemma_sounds_there(old(fs)@, expanded_dir.at(), __j, __i); }
@@after_loop 0
    proof { lemma_sounds_read(old(fs)@, expanded_dir.at(), __j, __out2@); }
@@loop_end 0
    proof { reveal(sounds_from); assert(__out2@.take(__i) =~= __b); assert forall|k: int| 0 <= k < __i implies __out2@[k] == __b[k] by {} }
@@before_loop 0
    let ghost __j = sounds_json.json();
    proof { reveal(sounds_from); }
@@extra
pub open spec fn sound_name(j: SjV) -> Seq<char> { match j.dedup { Some(n) => n, None => j.s.name } }
pub open spec fn sound_file(j: SjV) -> Seq<char> { dotted(sound_name(j), snd_ext(j.s.path)) }
pub open spec fn sound_at(dir: Seq<char>, j: SjV) -> Seq<char> { file_at(dir, "sounds"@, sound_file(j)) }
pub open spec fn sound_listed(f: SoundData, j: SjV) -> bool { j.s == base_of(snd_view(f)) }
#[verifier::opaque] pub open spec fn sounds_listed(f: Seq<SoundData>, j: Seq<SjV>) -> bool {
    j.len() == f.len() && (forall|k: int| 0 <= k < f.len() ==> sound_listed(f[k], #[trigger] j[k])) && (forall|a: int, b: int| 0 <= a < b < j.len() ==> sound_name(#[trigger] j[a]) != sound_name(#[trigger] j[b]))
}
#[verifier::opaque] pub open spec fn sounds_in(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<SoundData>, j: Seq<SjV>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> m.contains_key(sound_at(dir, #[trigger] j[k])) && m[sound_at(dir, j[k])] == snd_file(f[k])
}
#[verifier::opaque] pub open spec fn sounds_from(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<SjV>, f: Seq<SoundData>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> m.contains_key(sound_at(dir, #[trigger] j[k])) && file_snd(m[sound_at(dir, j[k])], j[k].s) == Some(snd_view(f[k]))
}
/// a directory no sounds were written to before
pub open spec fn no_sounds(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>) -> bool { forall|n: Seq<char>| !m.contains_key(#[trigger] file_at(dir, "sounds"@, n)) }
#[verifier::opaque] pub open spec fn no_sounds_from(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<SjV>, n: int) -> bool { forall|k: int| n <= k < j.len() ==> !m.contains_key(sound_at(dir, #[trigger] j[k])) }
pub proof fn lemma_sound_keys(dir: Seq<char>) requires dir.len() > 0
    ensures norm(joined(dir, "sounds"@)) == joined(dir, "sounds"@), norm(joined(dir, "sounds.json"@)) == joined(dir, "sounds.json"@), norm("sounds"@) == "sounds"@, norm("sounds.json"@) == "sounds.json"@, owns(dir, "sounds"@, joined(dir, "sounds.json"@)),
{
    reveal_strlit("/"); reveal_strlit("sounds"); reveal_strlit("sounds.json");
    let p = joined(dir, "sounds"@); let k = joined(dir, "sounds.json"@);
    assert("sounds.json"@.subrange(0, 6) =~= "sounds"@); assert(k.subrange(0, p.len() as int) =~= p); assert(k[p.len() as int] == '.');
}
pub proof fn lemma_sound_key(dir: Seq<char>, j: SjV)
    requires dir.len() > 0,
    ensures norm(sound_file(j)) == sound_file(j), norm(sound_at(dir, j)) == sound_at(dir, j), sound_at(dir, j) != joined(dir, "sounds.json"@), owns(dir, "sounds"@, sound_at(dir, j)),
{
    reveal_strlit("/"); reveal_strlit("."); reveal_strlit("sounds"); reveal_strlit("sounds.json");
    let a = sound_file(j);
    assert(a[sound_name(j).len() as int] == '.');
    assert(a.len() == 1 ==> a[0] == '.');
    let x = sound_at(dir, j); let y = joined(dir, "sounds.json"@); let n = dir.len() as int + 7;
    assert(x[n] == '/'); assert(y[n] == '.');
    assert(x.subrange(0, n) =~= joined(dir, "sounds"@));
}
/// assumed: a path's extension has no dot
pub axiom fn axiom_snd_ext(p: Seq<char>) ensures dotless(snd_ext(p));
pub proof fn lemma_sound_apart(dir: Seq<char>, a: SjV, b: SjV) requires sound_name(a) != sound_name(b) ensures sound_at(dir, a) != sound_at(dir, b) {
    if sound_at(dir, a) == sound_at(dir, b) {
        axiom_snd_ext(a.s.path); axiom_snd_ext(b.s.path);
        lemma_file_at(dir, "sounds"@, sound_file(a), sound_file(b));
        lemma_dotted(sound_name(a), snd_ext(a.s.path), sound_name(b), snd_ext(b.s.path));
    }
}
/// one more sound's file leaves the ones before as they are, and the ones to come free
pub proof fn lemma_put_sound(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<SoundData>, j: Seq<SjV>, n: int)
    requires 0 <= n < f.len(), sounds_listed(f, j), sounds_in(m, dir, f, j, n), dir.len() > 0,
    ensures sounds_in(m.insert(sound_at(dir, j[n]), snd_file(f[n])), dir, f, j, n + 1), no_sounds_from(m, dir, j, n) ==> no_sounds_from(m.insert(sound_at(dir, j[n]), snd_file(f[n])), dir, j, n + 1),
{
    reveal(sounds_listed); reveal(sounds_in); reveal(no_sounds_from);
    let m2 = m.insert(sound_at(dir, j[n]), snd_file(f[n]));
    assert forall|k: int| 0 <= k < n + 1 implies m2.contains_key(sound_at(dir, #[trigger] j[k])) && m2[sound_at(dir, j[k])] == snd_file(f[k]) by { if k < n { lemma_sound_apart(dir, j[k], j[n]); } }
    if no_sounds_from(m, dir, j, n) {
        assert forall|k: int| n + 1 <= k < j.len() implies !m2.contains_key(sound_at(dir, #[trigger] j[k])) by { lemma_sound_apart(dir, j[n], j[k]); }
    }
}
/// sounds the directory form keeps: PCM has no extension, and what is not a WAV has the default format
pub open spec fn keepable(f: Seq<SoundData>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).data@.len() + 44 <= u32::MAX && file_kept(f[i], base_of(snd_view(f[i]))) }
pub open spec fn same_sounds(a: Seq<SoundData>, b: Seq<SoundData>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> snd_view(#[trigger] a[i]) == snd_view(b[i]) }
/// the files of a directory that hold these sounds
#[verifier::opaque] pub open spec fn sounds_stored(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<SoundData>) -> bool {
    let key = joined(dir, "sounds.json"@);
    keepable(f) && dir.len() > 0 && m.contains_key(key) && match json_of::<Seq<SjV>>(m[key]) { Some(j) => sounds_listed(f, j) && sounds_in(m, dir, f, j, f.len() as int), None => false }
}
pub broadcast proof fn lemma_sounds_stored(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<SoundData>)
    requires #[trigger] sounds_stored(m, dir, f),
    ensures m.contains_key(joined(dir, "sounds.json"@)), json_of::<Seq<SjV>>(m[joined(dir, "sounds.json"@)]) is Some,
{ reveal(sounds_stored); }
pub proof fn lemma_sounds_name(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<SoundData>, j: Seq<SjV>, k: int)
    requires sounds_stored(m, dir, f), json_of::<Seq<SjV>>(m[joined(dir, "sounds.json"@)]) == Some(j), 0 <= k < j.len(),
    ensures m.contains_key(sound_at(dir, j[k])), f.len() == j.len(), file_snd(m[sound_at(dir, j[k])], j[k].s) == Some(snd_view(f[k])),
{
    reveal(sounds_stored); reveal(sounds_listed); reveal(sounds_in);
    assert(sound_listed(f[k], j[k])); lemma_snd_file(f[k], j[k].s);
}
/// each sound listed has its file
pub proof fn lemma_sounds_there(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<SjV>, k: int)
    requires json_of::<Seq<SjV>>(m[joined(dir, "sounds.json"@)]) == Some(j), 0 <= k < j.len(),
    ensures forall|f: Seq<SoundData>| #[trigger] sounds_stored(m, dir, f) ==> m.contains_key(sound_at(dir, j[k])) && file_snd(m[sound_at(dir, j[k])], j[k].s) is Some,
{ assert forall|f: Seq<SoundData>| #[trigger] sounds_stored(m, dir, f) implies m.contains_key(sound_at(dir, j[k])) && file_snd(m[sound_at(dir, j[k])], j[k].s) is Some by { lemma_sounds_name(m, dir, f, j, k); } }
/// what is read is what was stored
pub proof fn lemma_sounds_read(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, j: Seq<SjV>, r: Seq<SoundData>)
    requires json_of::<Seq<SjV>>(m[joined(dir, "sounds.json"@)]) == Some(j), r.len() == j.len(), sounds_from(m, dir, j, r, j.len() as int),
    ensures forall|f: Seq<SoundData>| #[trigger] sounds_stored(m, dir, f) ==> same_sounds(f, r),
{
    reveal(sounds_from);
    assert forall|f: Seq<SoundData>| #[trigger] sounds_stored(m, dir, f) implies same_sounds(f, r) by {
        assert(f.len() == j.len()) by { reveal(sounds_stored); reveal(sounds_listed); }
        assert forall|i: int| 0 <= i < f.len() implies snd_view(#[trigger] f[i]) == snd_view(r[i]) by { lemma_sounds_name(m, dir, f, j, i); assert(m.contains_key(sound_at(dir, j[i]))); }
    }
}
/// sounds stay stored while their files stay
pub proof fn lemma_sounds_stay(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, f: Seq<SoundData>)
    requires sounds_stored(a, dir, f), agree(a, b, dir, "sounds"@),
    ensures sounds_stored(b, dir, f),
{
    reveal(sounds_stored); reveal(sounds_in); reveal(agree);
    lemma_sound_keys(dir);
    let j = json_of::<Seq<SjV>>(a[joined(dir, "sounds.json"@)])->0;
    assert forall|k: int| 0 <= k < f.len() implies b.contains_key(sound_at(dir, #[trigger] j[k])) && b[sound_at(dir, j[k])] == snd_file(f[k]) by { reveal(sounds_listed); lemma_sound_key(dir, j[k]); assert(a.contains_key(sound_at(dir, j[k]))); }
    assert(a.contains_key(joined(dir, "sounds.json"@)));
}
/// the pair of real functions: the sounds of a table, written to its directory and read from it
pub fn sounds_roundtrip<P: VAsPath>(sounds: &[SoundData], dir: &P, fs: &mut Fs) -> (r: Option<Vec<SoundData>>)
    requires sounds@.len() <= 30000, dir.at().len() > 0, keepable(sounds@), old(fs).ok(), no_sounds(old(fs)@, dir.at()),
    ensures r is Some, same_sounds(sounds@, r->0@),
{
    match write_sounds(sounds, dir, fs) { Ok(()) => {}, Err(_) => { return None; } }
    match read_sounds(dir, fs) { Ok(x) => Some(x), Err(_) => None }
}
