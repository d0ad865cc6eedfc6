@@module vert src/vpx/model.rs
@@item struct Vertex3dNoTex2

