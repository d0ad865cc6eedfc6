@@module cmodel src/vpx/model.rs
@@fn StringWithEncoding::new
@@sigsubst impl\s+Into\s*<\s*String\s*>=>String
@@subst \.v_into\(\)=>
    ensures r.string@ == string@,
