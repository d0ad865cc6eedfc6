//! Element readers on streams with missing, repeated, reordered, over-long and unknown records.
use replay::draw::*;
use replay::gen_items::*;
use replay::golden::GOLDEN;
use replay::oracle::*;
use replay::*;
use vpin::vpx::biff::{BiffRead, BiffReader};
use vpin::vpx::gameitem::generic::Generic;
use vpin::vpx::gameitem::*;

macro_rules! kind {
    ($T:ident, $m:ident, $name:literal, $tags:ident, $records:ident, $set:ident, $start:ident, $random:ident, $same:ident) => {
        fn $m(r: &mut Rng, i: usize) -> R {
            let mut want = $start();
            if i == 0 {
                // what an element without any record is: the documented defaults
                let g = GOLDEN.iter().find(|g| g.0 == $name).unwrap().1;
                same(concat!("default ", $name), &format!("{want:?}").as_str(), &g)?;
            }
            let mut b = if i == 0 { endb() } else { stream($tags, &mut want, r, $set) };
            let end = b.len();
            // what follows the end marker of a nested element belongs to its parent
            let mut rd = if $name == "DragPoint" {
                b.extend(r.bytes(12));
                BiffReader::with_remaining(&b, 0)
            } else {
                BiffReader::new(&b)
            };
            let got = $m::$T::biff_read(&mut rd);
            $same(concat!($name, " from a hand-made stream"), &got, &want)?;
            check(rd.pos() == end, || format!("{} reader stops at {} instead of {end}", $name, rd.pos()))
        }
    };
}
for_each_kind!(kind);

fn generic(r: &mut Rng, _: usize) -> R {
    let mut want = Generic { name: String::new(), fields: vec![] };
    let mut b = vec![];
    for _ in 0..r.below(8) {
        if r.chance(4) {
            want.name = r.unicode(10);
            b.extend(rec("NAME", &wide(&want.name)));
        } else {
            let t = ["ABCD", "ZZ", "VCEN", "TMON", "LOCK"][r.below(5)];
            let d = r.bytes(40);
            b.extend(rec(t, &d));
            want.fields.push((t.to_string(), d));
        }
    }
    b.extend(endb());
    same("generic", &Generic::biff_read(&mut BiffReader::new(&b)), &want)
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("golden") {
        macro_rules! show {
            ($T:ident, $m:ident, $name:literal, $tags:ident, $records:ident, $set:ident, $start:ident, $($x:ident),*) => {
                println!("    ({:?}, {:?}),", $name, format!("{:?}", $start()));
            };
        }
        for_each_kind!(show);
        return;
    }
    let mut v = vec![Check { name: "generic element", n: 400, f: generic }];
    macro_rules! push {
        ($T:ident, $m:ident, $name:literal, $($x:ident),*) => {
            v.push(Check { name: $name, n: 600, f: $m });
        };
    }
    for_each_kind!(push);
    main_with(&v);
}
