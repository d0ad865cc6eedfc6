@@module cimage src/vpx/image.rs
@@item struct ImageData
@@itemreduce struct ImageData name ImageDataRest
@@extra
#[verifier::external_body] pub struct ImageDataRest { r: u8 }
