//! Every element kind: the written stream is exactly the format's records, and reading it gives the element back.
use replay::draw::*;
use replay::gen_items::*;
use replay::oracle::*;
use replay::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::gameitem::*;

macro_rules! kind {
    ($T:ident, $m:ident, $name:literal, $tags:ident, $records:ident, $set:ident, $start:ident, $random:ident, $same:ident) => {
        #[allow(non_snake_case)]
        fn $m(r: &mut Rng, i: usize) -> R {
            let x = if i == 0 { $m::$T::default() } else { $random(r) };
            let mut w = BiffWriter::new();
            x.biff_write(&mut w);
            chunks_eq($name, w.get_data(), $records(&x))?;
            let mut rd = BiffReader::new(w.get_data());
            let y = $m::$T::biff_read(&mut rd);
            $same(concat!($name, " read back"), &y, &x)?;
            check(rd.pos() == w.get_data().len(), || format!("{} reader stops at {} of {}", $name, rd.pos(), w.get_data().len()))?;
            // the same element after other data in one stream
            let mut w2 = BiffWriter::new();
            w2.write_u32(7);
            x.biff_write(&mut w2);
            bytes_eq(concat!($name, " written after other data"), &w2.get_data()[4..], w.get_data())
        }
    };
}
for_each_kind!(kind);

/// each of the 256 style bytes and each of the 32 style sets
fn font_styles(r: &mut Rng, i: usize) -> R {
    use vpin::vpx::gameitem::font::*;
    let f = i as u8;
    same("styles of flags", &FontStyle::flags_to_styles(f), &styles(f))?;
    same("flags of styles", &FontStyle::styles_to_flags(&styles(f)), &(f & 31))?;
    let x = font(r);
    let mut w = BiffWriter::new();
    x.0.biff_write(&mut w);
    bytes_eq("font", w.get_data(), &x.1)?;
    same("font read back", &Font::biff_read(&mut BiffReader::new(w.get_data())), &x.0)
}
/// the element as the whole of a table-element stream: type number, then its records
fn dispatch(r: &mut Rng, _: usize) -> R {
    let mut want: Vec<Vec<u8>> = vec![];
    let mut vpx = vpin::vpx::VPX::default();
    macro_rules! kinds {
        ($($T:ident $m:ident $id:literal $random:ident $records:ident;)*) => {{
            $({
                let x = $random(r);
                let d = [le32($id), concat($records(&x)), endb()].concat();
                match vpin::vpx::gameitem::read(&d) {
                    GameItemEnum::$T(y) => same(stringify!($T), &y, &x)?,
                    y => return Err(format!("type {} read as {}", $id, y.type_name())),
                }
                want.push([le32($id), concat($records(&x)), endb()].concat());
                let e = GameItemEnum::$T(x);
                same("type name", &e.type_name().as_str(), &stringify!($T))?;
                same("type id", &GameItemEnum::type_id(stringify!($T)), &$id)?;
                vpx.add_game_item(e);
            })*
        }};
    }
    kinds! {
        Wall wall 0 random_Wall records_Wall; Flipper flipper 1 random_Flipper records_Flipper; Timer timer 2 random_Timer records_Timer;
        Plunger plunger 3 random_Plunger records_Plunger; TextBox textbox 4 random_TextBox records_TextBox; Bumper bumper 5 random_Bumper records_Bumper;
        Trigger trigger 6 random_Trigger records_Trigger; Light light 7 random_Light records_Light; Kicker kicker 8 random_Kicker records_Kicker;
        Decal decal 9 random_Decal records_Decal; Gate gate 10 random_Gate records_Gate; Spinner spinner 11 random_Spinner records_Spinner;
        Ramp ramp 12 random_Ramp records_Ramp; Reel reel 17 random_Reel records_Reel; LightSequencer ls 18 random_LightSequencer records_LightSequencer;
        Primitive primitive 19 random_Primitive records_Primitive; Flasher flasher 20 random_Flasher records_Flasher; Rubber rubber 21 random_Rubber records_Rubber;
        HitTarget ht 22 random_HitTarget records_HitTarget; Ball ball 23 random_Ball records_Ball; PartGroup pg 24 random_PartGroup records_PartGroup;
    }
    let order: Vec<usize> = { let mut o: Vec<usize> = (0..want.len()).collect(); r.shuffle(&mut o); o };
    let mut old: Vec<Option<GameItemEnum>> = vpx.gameitems.drain(..).map(Some).collect();
    for i in &order {
        vpx.gameitems.push(old[*i].take().unwrap());
    }
    let bytes = vpin::vpx::to_bytes(&vpx).map_err(|e| e.to_string())?;
    let mut c = cfb::CompoundFile::open(std::io::Cursor::new(&bytes)).map_err(|e| e.to_string())?;
    for (k, i) in order.iter().enumerate() {
        let mut d = vec![];
        c.open_stream(format!("/GameStg/GameItem{k}")).and_then(|mut s| std::io::Read::read_to_end(&mut s, &mut d)).map_err(|e| format!("GameItem{k}: {e}"))?;
        same("type number written", &&d[..4], &&want[*i][..4])?;
        same("stream length", &d.len(), &want[*i].len())?;
        same("element read back", &vpin::vpx::gameitem::read(&d), &vpx.gameitems[k])?;
    }
    Ok(())
}
fn main() {
    let mut v = vec![
        Check { name: "font and its styles", n: 256, f: font_styles },
        Check { name: "element type numbers", n: 60, f: dispatch },
    ];
    macro_rules! push {
        ($T:ident, $m:ident, $name:literal, $($x:ident),*) => {
            v.push(Check { name: $name, n: 400, f: $m });
        };
    }
    for_each_kind!(push);
    main_with(&v);
}
