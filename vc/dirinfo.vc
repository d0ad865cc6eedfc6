@@module dirinfo src/vpx/tableinfo.rs
@@broadcast vpin_base
@@item struct TableInfo
@@itemsubst HashMap\s*<\s*String\s*,\s*String\s*>=>Props
@@fn TableInfo::default@Default
@@rename default
@@external
    ensures true,
@@extra
pub type CustomInfoTags = Vec<String>;
/// assumed: std's map from texts to texts, and its derived Clone
#[verifier::external_body] pub struct Props { p: u8 }
impl View for Props { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl Props { #[verifier::external_body] pub fn clone(&self) -> (r: Props) ensures r@ == self@ { unimplemented!() } }
pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn obytes(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
pub struct InfoV { pub name: Option<Seq<char>>, pub author: Option<Seq<char>>, pub blurb: Option<Seq<char>>, pub rules: Option<Seq<char>>, pub email: Option<Seq<char>>, pub released: Option<Seq<char>>,
    pub rev: Option<Seq<char>>, pub version: Option<Seq<char>>, pub site: Option<Seq<char>>, pub saved: Option<Seq<char>>, pub description: Option<Seq<char>>, pub props: Map<Seq<char>, Seq<char>> }
/// all of a table's description but its screenshot
pub open spec fn info_view(t: TableInfo) -> InfoV {
    InfoV { name: otext(t.table_name), author: otext(t.author_name), blurb: otext(t.table_blurb), rules: otext(t.table_rules), email: otext(t.author_email), released: otext(t.release_date),
        rev: otext(t.table_save_rev), version: otext(t.table_version), site: otext(t.author_website), saved: otext(t.table_save_date), description: otext(t.table_description), props: t.properties@ }
}
