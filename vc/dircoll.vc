@@module dircoll src/vpx/collection.rs
@@broadcast vpin_base
@@item struct Collection
@@extra
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub struct CollV { pub name: Seq<char>, pub items: Seq<Seq<char>>, pub fire: bool, pub stop: bool, pub group: bool }
pub open spec fn coll_view(c: Collection) -> CollV { CollV { name: c.name@, items: texts(c.items@), fire: c.fire_events, stop: c.stop_single_events, group: c.group_elements } }
pub open spec fn colls(c: Seq<Collection>) -> Seq<CollV> { c.map_values(|x: Collection| coll_view(x)) }
