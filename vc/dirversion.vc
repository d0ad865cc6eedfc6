@@module dirversion src/vpx/version.rs
@@broadcast vpin_base, vpin_str
@@fn Version::parse
@@sigsubst ParseIntError=>Error
@@subst version\.parse::<u32>\(\)=>v_parse_u32(version)
    ensures forall|n: u32| version@ == #[trigger] dec_text(n as int) ==> r is Ok && r->Ok_0.0 == n,
@@fn Version::to_u32_string
@@subst self\.0\.v_to_string\(\)=>self.0.v_disp()
    ensures r@ == dec_text(self.0 as int),
@@extra
/// assumed: std reads a number from its decimal digits
#[verifier::external_body] pub fn v_parse_u32(s: &str) -> (r: Result<u32, Error>) ensures forall|n: u32| s@ == #[trigger] dec_text(n as int) ==> r is Ok && r->Ok_0 == n { unimplemented!() }
