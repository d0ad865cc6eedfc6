@@module names1 src/vpx/expanded/gameitems.rs
@@itemsubst HashSet\s*<\s*String\s*>=>NameSet
@@item struct FileNameGen
@@fn FileNameGen::ensure_unique
    requires old(self).used_names_lowercase@.finite(), old(self).used_names_lowercase@.len() < 0x7fff_0000,
    ensures fresh(old(self).used_names_lowercase@, final(self).used_names_lowercase@, r@), !old(self).used_names_lowercase@.contains(lower(file_name@)) ==> r@ == file_name@,
@@subst let mut (\w+);=>let mut \1: String;
@@before_loop 0
    let ghost mut seen: Set<Seq<char>> = Set::empty();
    proof { assert(seen.len() == 0); }
@@loop 0
    invariant_except_break
        self.used_names_lowercase@ == old(self).used_names_lowercase@, self.used_names_lowercase@.finite(), self.used_names_lowercase@.len() < 0x7fff_0000,
        1 <= counter, seen.finite(), seen.len() == counter - 1, seen.subset_of(self.used_names_lowercase@), counter < 0x7fff_0002,
        forall|x: Seq<char>| #[trigger] seen.contains(x) ==> exists|k: int| 1 <= k < counter && x == #[trigger] lower(counted(file_name@, "__"@, k)),
        old(self).used_names_lowercase@.contains(lower(file_name@)),
    ensures
        fresh(old(self).used_names_lowercase@, self.used_names_lowercase@, unique_name@),
    decreases self.used_names_lowercase@.len() - seen.len(),
@@loop_end 0
    proof {
        let n = lower(unique_name@);
        assert(unique_name@ == counted(file_name@, "__"@, counter - 1));
        assert(!seen.contains(n)) by {
            if seen.contains(n) {
                let k = choose|k: int| 1 <= k < counter - 1 && n == #[trigger] lower(counted(file_name@, "__"@, k));
                axiom_lower_count(file_name@, "__"@, k, counter - 1);
            }
        }
        let old_seen = seen;
        seen = seen.insert(n);
        vstd::set_lib::lemma_len_subset(seen, self.used_names_lowercase@);
    }
@@extra
pub open spec fn counted(s: Seq<char>, sep: Seq<char>, k: int) -> Seq<char> { s + sep + dec_text(k) }
