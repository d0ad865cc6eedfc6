@@module dirjson src/vpx/jsonmodel.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_vfs, axiom_value
@@item struct CollectionJson
@@item struct TableInfoJson
@@itemsubst HashMap\s*<\s*String\s*,\s*String\s*>=>Props
@@fn info_to_json
@@subst custom_info_tags\.clone\(\)=>v_clone_texts(custom_info_tags)
    ensures r.json() == value_form(InfoJ { v: info_view(*table_info), order: texts(custom_info_tags@) }),
@@fn json_to_info
@@ret out
    ensures
        out is Ok ==> value_as::<InfoJ>(json.json()) == Some(InfoJ { v: info_view(out->Ok_0.0), order: texts(out->Ok_0.1@) }) && out->Ok_0.0.screenshot == screenshot,
        value_as::<InfoJ>(json.json()) is Some ==> out is Ok,
@@fn collections_json
@@subst let mut collections_json = Vec::new\(\)=>let mut collections_json: Vec<CollectionJson> = Vec::new()
@@subst collection\.items\.clone\(\)=>v_clone_texts(&collection.items)
    ensures r.json() == value_form(colls(collections@)),
@@loop 0
    iter __it
    invariant
        __it.seq().len() == collections@.len(), forall|k: int| 0 <= k < collections@.len() ==> *(#[trigger] __it.seq()[k]) == collections@[k],
        collections_json@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> collj_view(#[trigger] collections_json@[k]) == coll_view(collections@[k]),
@@after_loop 0
    proof { assert(collections_json.json() =~= colls(collections@)); }
@@fn json_to_collections
@@subst let mut collections = Vec::new\(\)=>let mut collections: Vec<Collection> = Vec::new()
@@ret out
    ensures
        out is Ok ==> value_as::<Seq<CollV>>(json.json()) == Some(colls(out->Ok_0@)),
        value_as::<Seq<CollV>>(json.json()) is Some ==> out is Ok,
@@start
    let ghost __v = json.json();
@@before_loop 0
    let ghost __l = collections_json@;
    let ghost __j = collections_json.json();
@@loop 0
    iter __it
    invariant
        __it.seq() == __l, __j == __l.map_values(|c: CollectionJson| collj_view(c)), value_as::<Seq<CollV>>(__v) == Some(__j),
        collections@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> coll_view(#[trigger] collections@[k]) == collj_view(__l[k]),
@@after_loop 0
    proof { assert(colls(collections@) =~= __j); }
@@extra
pub open spec fn collj_view(c: CollectionJson) -> CollV { CollV { name: c.name@, items: texts(c.items@), fire: c.fire_events, stop: c.stop_single_events, group: c.group_elements } }
pub struct InfoJ { pub v: InfoV, pub order: Seq<Seq<char>> }
impl VJson for Vec<CollectionJson> { type J = Seq<CollV>; open spec fn json(&self) -> Seq<CollV> { self@.map_values(|c: CollectionJson| collj_view(c)) } }
impl VJson for TableInfoJson { type J = InfoJ; open spec fn json(&self) -> InfoJ { InfoJ {
    v: InfoV { name: otext(self.table_name), author: otext(self.author_name), blurb: otext(self.table_blurb), rules: otext(self.table_rules), email: otext(self.author_email), released: otext(self.release_date),
        rev: otext(self.table_save_rev), version: otext(self.table_version), site: otext(self.author_website), saved: otext(self.table_save_date), description: otext(self.table_description), props: self.properties@ },
    order: texts(self.properties_order@) } } }
/// assumed: serde_json's tree form of a value, from which the value it was made from comes back
#[verifier::external_body] pub struct Value { v: u8 }
#[verifier::external_body] pub struct ValueV { v: u8 }
impl Value { pub uninterp spec fn form(&self) -> ValueV;
    #[verifier::external_body] pub fn clone(&self) -> (r: Value) ensures r.form() == self.form() { unimplemented!() } }
impl VJson for Value { type J = ValueV; open spec fn json(&self) -> ValueV { self.form() } }
pub uninterp spec fn value_form<J>(j: J) -> ValueV;
pub uninterp spec fn value_as<J>(v: ValueV) -> Option<J>;
pub broadcast axiom fn axiom_value<J>(j: J) ensures value_as::<J>(#[trigger] value_form::<J>(j)) == Some(j);
#[verifier::external_body] pub fn to_value<T: VJson>(t: T) -> (r: Result<Value, Error>) ensures r is Ok, r->Ok_0.json() == value_form::<T::J>(t.json()) { unimplemented!() }
#[verifier::external_body] pub fn from_value<T: VJson>(v: Value) -> (r: Result<T, Error>) ensures r is Ok ==> value_as::<T::J>(v.json()) == Some(r->Ok_0.json()), value_as::<T::J>(v.json()) is Some ==> r is Ok { unimplemented!() }
/// assumed: std's Clone of a list of texts
#[verifier::external_body] pub fn v_clone_texts(v: &Vec<String>) -> (r: Vec<String>) ensures texts(r@) == texts(v@) { v.clone() }
/// assumed: they have texts and truth values only
pub broadcast axiom fn axiom_plain_info(j: InfoJ) ensures json_plain::<ValueV>(#[trigger] value_form::<InfoJ>(j));
pub broadcast axiom fn axiom_plain_colls(j: Seq<CollV>) ensures json_plain::<ValueV>(#[trigger] value_form::<Seq<CollV>>(j));
