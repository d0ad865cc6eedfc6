@@module names2 src/vpx/expanded/util.rs
@@itemsubst HashSet\s*<\s*String\s*>=>NameSet
@@item struct UniqueFileNames
@@fn UniqueFileNames::dedup
    requires old(self).used_names_lowercase@.finite(), old(self).used_names_lowercase@.len() + old(self).dupe_counter < 0x7fff_0000,
    ensures
        fresh(old(self).used_names_lowercase@, final(self).used_names_lowercase@, (if r is Some { r->0@ } else { name@ })),
        valid_name(sanitized(name@), (if r is Some { r->0@ } else { name@ })),
        final(self).dupe_counter <= old(self).dupe_counter + old(self).used_names_lowercase@.len() + 1,
@@subst (\w+) == name\b=>v_same_text(&\1, name)
@@before_loop 0
    let ghost mut seen: Set<Seq<char>> = Set::empty();
    let ghost before = self.used_names_lowercase@;
    let ghost first = self.dupe_counter;
    proof { assert(seen.len() == 0); }
@@loop 0
    invariant_except_break
        self.used_names_lowercase@ == before, before.finite(), before.len() + first < 0x7fff_0000,
        seen.finite(), self.dupe_counter >= first, seen.len() == (if self.dupe_counter == first { 0int } else { self.dupe_counter - first - 1 }), seen.subset_of(before), self.dupe_counter <= first + before.len() + 1,
        self.dupe_counter == first ==> file_name@ == name_sanitized@,
        self.dupe_counter > first ==> file_name@ == counted(name_sanitized@, "_dedup"@, self.dupe_counter as int),
        forall|x: Seq<char>| #[trigger] seen.contains(x) ==> exists|k: int| first < k < self.dupe_counter && x == #[trigger] lower(counted(name_sanitized@, "_dedup"@, k)),
    ensures
        fresh(before, self.used_names_lowercase@, file_name@), self.dupe_counter <= first + before.len() + 1,
        valid_name(name_sanitized@, file_name@),
    decreases before.len() + 2 - (self.dupe_counter - first),
@@loop_start 0
    proof {
        let n = lower(file_name@);
        assert(self.used_names_lowercase@ =~= before);
        if self.dupe_counter > first {
            assert(!seen.contains(n)) by {
                if seen.contains(n) {
                    let k = choose|k: int| first < k < self.dupe_counter && n == #[trigger] lower(counted(name_sanitized@, "_dedup"@, k));
                    axiom_lower_count(name_sanitized@, "_dedup"@, k, self.dupe_counter as int);
                }
            }
            seen = seen.insert(n);
            vstd::set_lib::lemma_len_subset(seen, before);
        }
    }
@@extra
/// the sanitised name itself, or the sanitised name with a number
pub open spec fn valid_name(s: Seq<char>, n: Seq<char>) -> bool { n == s || exists|k: int| n == #[trigger] counted(s, "_dedup"@, k) }
#[verifier::external_body] pub fn v_same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// assumed: crate sanitize-filename is a function of the text
pub uninterp spec fn sanitized(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn sanitize_filename(s: &str) -> (r: String) ensures r@ == sanitized(s@) { unimplemented!() }
