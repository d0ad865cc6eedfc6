@@module dirvpx src/vpx/mod.rs
@@broadcast vpin_base
@@item struct VPX
