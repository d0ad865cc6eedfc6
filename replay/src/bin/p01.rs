//! Record framing: every write operation appends the format's bytes, every read operation returns the
//! value at the cursor and moves by exactly the value's width.
use replay::oracle::*;
use replay::*;
use vpin::vpx::biff::{BiffReader, BiffWriter};
use vpin::vpx::model::{StringEncoding, StringWithEncoding};

fn tag(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let t: String = (0..n).map(|_| *r.pick(&['A', 'B', 'E', 'N', 'D', 'Z', '0', '9', '_', ' ', '~', '!'])).collect();
    if t == "ENDB" { "ENDC".into() } else { t }
}

/// one random primitive write; returns the bytes the format prescribes
fn put(r: &mut Rng, w: &mut BiffWriter) -> (String, Vec<u8>) {
    match r.below(15) {
        0 => { let v = r.u8(); w.write_u8(v); (format!("write_u8({v})"), vec![v]) }
        1 => { let v = r.u8() as i8; w.write_8(v); (format!("write_8({v})"), vec![v as u8]) }
        2 => { let v = r.u16(); w.write_u16(v); (format!("write_u16({v})"), le16(v)) }
        3 => { let v = r.u16() as i16; w.write_16(v); (format!("write_16({v})"), le16(v as u16)) }
        4 => { let v = r.u32(); w.write_u32(v); (format!("write_u32({v})"), le32(v)) }
        5 => { let v = r.i32(); w.write_32(v); (format!("write_32({v})"), le32(v as u32)) }
        6 => { let v = r.f32(); w.write_f32(v); (format!("write_f32({v})"), f(v)) }
        7 => { let v = r.latin1(255); w.write_short_string(&v); (format!("write_short_string({v:?})"), [vec![latin1(&v).len() as u8], latin1(&v)].concat()) }
        8 => { let v = r.latin1(300); w.write_string(&v); (format!("write_string({v:?})"), str8(&v)) }
        9 => { let v = r.latin1(6); w.write_string_empty_zero(&v); (format!("write_string_empty_zero({v:?})"), if v.is_empty() { vec![1, 0, 0, 0, 0] } else { str8(&v) }) }
        10 => { let v = r.unicode(80); w.write_wide_string(&v); (format!("write_wide_string({v:?})"), wide(&v)) }
        11 => { let v = r.bool(); w.write_bool(v); (format!("write_bool({v})"), b32(v)) }
        12 => { let v = r.bytes(300); w.write_length_prefixed_data(&v); (format!("write_length_prefixed_data({})", hex(&v)), [le32(v.len() as u32), v].concat()) }
        13 => { let v = r.bytes(300); w.write_data(&v); (format!("write_data({})", hex(&v)), v) }
        _ => {
            let utf8 = r.bool();
            let s = if utf8 { r.unicode(60) } else { r.latin1(60) };
            let v = StringWithEncoding { encoding: if utf8 { StringEncoding::Utf8 } else { StringEncoding::Latin1 }, string: s.clone() };
            w.write_string_with_encoding(&v);
            let b = if utf8 { s.as_bytes().to_vec() } else { latin1(&s) };
            (format!("write_string_with_encoding({v:?})"), [le32(b.len() as u32), b].concat())
        }
    }
}

/// one random whole record through the write_tagged_* family
fn put_tagged(r: &mut Rng, w: &mut BiffWriter) -> (String, Vec<u8>) {
    let t = tag(r);
    match r.below(15) {
        0 => { w.write_tagged_empty(&t); (format!("write_tagged_empty({t})"), rec(&t, &[])) }
        1 => { let v = r.bool(); w.write_tagged_bool(&t, v); (format!("write_tagged_bool({t},{v})"), rec(&t, &b32(v))) }
        2 => { let v = r.f32(); w.write_tagged_f32(&t, v); (format!("write_tagged_f32({t},{v})"), rec(&t, &f(v))) }
        3 => { let v = r.u32(); w.write_tagged_u32(&t, v); (format!("write_tagged_u32({t},{v})"), rec(&t, &le32(v))) }
        4 => { let v = r.i32(); w.write_tagged_i32(&t, v); (format!("write_tagged_i32({t},{v})"), rec(&t, &le32(v as u32))) }
        5 => { let v = r.latin1(200); w.write_tagged_string(&t, &v); (format!("write_tagged_string({t},{v:?})"), rec(&t, &str8(&v))) }
        6 => { let v = r.latin1(200); w.write_tagged_string_no_size(&t, &v); (format!("write_tagged_string_no_size({t},{v:?})"), rec4(&t, &str8(&v))) }
        7 => {
            let s = r.unicode(60);
            let v = StringWithEncoding { encoding: StringEncoding::Utf8, string: s.clone() };
            w.write_tagged_string_with_encoding_no_size(&t, &v);
            (format!("write_tagged_string_with_encoding_no_size({t},{s:?})"), rec4(&t, &[le32(s.len() as u32), s.into_bytes()].concat()))
        }
        8 => { let v = r.unicode(60); w.write_tagged_wide_string(&t, &v); (format!("write_tagged_wide_string({t},{v:?})"), rec(&t, &wide(&v))) }
        9 => { let (x, y) = (r.f32(), r.f32()); w.write_tagged_vec2(&t, x, y); (format!("write_tagged_vec2({t},{x},{y})"), rec(&t, &[f(x), f(y)].concat())) }
        10 => { let (x, y, z) = (r.f32(), r.f32(), r.f32()); w.write_tagged_padded_vector(&t, x, y, z); (format!("write_tagged_padded_vector({t},{x},{y},{z})"), rec(&t, &[f(x), f(y), f(z), f(0.0)].concat())) }
        11 => { let (x, y, z) = (r.f32(), r.f32(), r.f32()); w.write_tagged_unpadded_vector(&t, x, y, z); (format!("write_tagged_unpadded_vector({t},{x},{y},{z})"), rec(&t, &[f(x), f(y), f(z)].concat())) }
        12 => { let v = r.bytes(300); w.write_tagged_data(&t, &v); (format!("write_tagged_data({t},{})", hex(&v)), rec(&t, &v)) }
        13 => { let v = r.bytes(300); w.write_tagged_data_without_size(&t, &v); (format!("write_tagged_data_without_size({t},{})", hex(&v)), rec4(&t, &v)) }
        _ => {
            // a record built piece by piece
            w.new_tag(&t);
            let mut p = vec![];
            let mut what = format!("new_tag({t})");
            for _ in 0..r.below(5) {
                let (s, b) = put(r, w);
                what += &format!("; {s}");
                p.extend(b);
            }
            if r.bool() {
                w.end_tag();
                (what + "; end_tag", rec(&t, &p))
            } else if r.bool() {
                w.end_tag_no_size();
                (what + "; end_tag_no_size", rec4(&t, &p))
            } else {
                // left open: the next new_tag or close completes it
                (what, rec(&t, &p))
            }
        }
    }
}

fn writer(r: &mut Rng, _: usize) -> R {
    let mut w = if r.bool() { BiffWriter::new() } else { BiffWriter::default() };
    let mut want = vec![];
    let mut log = String::new();
    for _ in 0..r.below(12) {
        let (s, b) = put_tagged(r, &mut w);
        log += &s;
        log += " | ";
        want.extend(b);
    }
    let e = r.bool();
    w.close(e);
    if e {
        want.extend(endb());
    }
    bytes_eq(&format!("bytes after {}", short(&log)), w.get_data(), &want)
}

/// getters on arbitrary bytes: value, cursor and record budget
fn getters(r: &mut Rng, _: usize) -> R {
    let mut data = r.bytes(60);
    data.extend((0..40).map(|_| r.u8()));
    let budget = r.range(data.len(), data.len() + 3);
    let mut rd = BiffReader::with_remaining(&data, budget);
    let (mut p, mut left) = (0usize, budget);
    let d = data.clone();
    let at = |p: usize, n: usize| -> u64 { (0..n).map(|i| (d[p + i] as u64) << (8 * i)).sum() };
    let steps = r.range(1, 8);
    for k in 0..steps {
        let room = data.len() - p;
        if room < 9 {
            break;
        }
        let op = r.below(19);
        let what = format!("step {k} op {op} at {p} of {}", hex(&data));
        let n; // bytes taken
        let mut charged = true;
        match op {
            0 => { n = 1; same(&what, &rd.get_u8(), &data[p])?; }
            1 => { n = 1; charged = false; same(&what, &rd.get_u8_no_remaining_update(), &data[p])?; }
            2 => { n = 2; same(&what, &rd.get_u16(), &(at(p, 2) as u16))?; }
            3 => { n = 2; charged = false; same(&what, &rd.get_u16_no_remaining_update(), &(at(p, 2) as u16))?; }
            4 => { n = 4; same(&what, &rd.get_u32(), &(at(p, 4) as u32))?; }
            5 => { n = 4; charged = false; same(&what, &rd.get_u32_no_remaining_update(), &(at(p, 4) as u32))?; }
            6 => { n = 4; same(&what, &rd.get_32(), &(at(p, 4) as u32 as i32))?; }
            7 => { n = 4; charged = false; same(&what, &rd.get_32_no_remaining_update(), &(at(p, 4) as u32 as i32))?; }
            8 => { n = 4; same(&what, &rd.get_f32().to_bits(), &(at(p, 4) as u32))?; }
            9 => { n = 4; same(&what, &rd.get_bool(), &(at(p, 4) != 0))?; }
            10 => { n = 8; same(&what, &rd.get_double().to_bits(), &at(p, 8))?; }
            11 => { n = 2; same(&what, &rd.get_i16(), &(at(p, 2) as u16 as i16))?; }
            12 => { n = 4; same(&what, &rd.get_i32(), &(at(p, 4) as u32 as i32))?; }
            13 => { n = 8; same(&what, &rd.get_i64(), &(at(p, 8) as i64))?; }
            14 => { n = 8; same(&what, &rd.get_u64(), &at(p, 8))?; }
            15 => { n = r.below(room.min(9)); bytes_eq(&what, rd.get(n), &data[p..p + n])?; }
            16 => { n = r.below(room.min(9)); charged = false; bytes_eq(&what, rd.get_no_remaining_update(n), &data[p..p + n])?; }
            17 => {
                n = r.below(room.min(30));
                let s: String = data[p..p + n].iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
                if r.bool() {
                    same(&what, &rd.get_str(n), &s)?;
                } else {
                    charged = false;
                    same(&what, &rd.get_str_no_remaining_update(n), &s)?;
                }
            }
            _ => { n = r.below(room.min(9)); rd.skip(n); }
        }
        p += n;
        if charged {
            if left < n {
                break;
            }
            left -= n;
        }
        same(&format!("{what}: cursor"), &rd.pos(), &p)?;
        same(&format!("{what}: remaining_in_record"), &rd.remaining_in_record(), &left)?;
    }
    same("is_eof", &rd.is_eof(), &(p >= data.len()))
}

fn arrays(r: &mut Rng, _: usize) -> R {
    let n = r.below(6);
    let data: Vec<u8> = (0..8 * n + 5).map(|_| r.u8()).collect();
    let all = data.len();
    macro_rules! arr {
        ($m:ident, $t:ty, $w:expr) => {{
            let mut rd = BiffReader::with_remaining(&data, all);
            let want: Vec<$t> = (0..n).map(|i| <$t>::from_le_bytes(data[i * $w..(i + 1) * $w].try_into().unwrap())).collect();
            let got = rd.$m(n);
            if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.to_le_bytes() != b.to_le_bytes()) {
                return Err(format!("{}({n}) on {}: got {got:?} want {want:?}", stringify!($m), hex(&data)));
            }
            same(concat!(stringify!($m), " cursor"), &rd.pos(), &(n * $w))?;
            same(concat!(stringify!($m), " budget"), &rd.remaining_in_record(), &(all - n * $w))?;
        }};
    }
    arr!(get_u32_array, u32, 4);
    arr!(get_u16_array, u16, 2);
    arr!(get_i16_array, i16, 2);
    arr!(get_i32_array, i32, 4);
    arr!(get_i64_array, i64, 8);
    arr!(get_u64_array, u64, 8);
    arr!(get_f32_array, f32, 4);
    arr!(get_f64_array, f64, 8);
    let strs: Vec<String> = (0..n).map(|_| r.latin1(12)).collect();
    let d: Vec<u8> = strs.iter().flat_map(|s| str8(s)).collect();
    let mut rd = BiffReader::with_remaining(&d, d.len());
    same("get_string_array", &rd.get_string_array(n), &strs)?;
    same("get_string_array cursor", &rd.pos(), &d.len())
}

fn strings(r: &mut Rng, _: usize) -> R {
    let tail = r.bytes(5);
    let raw: Vec<u8> = r.bytes(20);
    let cut: String = raw.iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
    let d = [le32(raw.len() as u32), raw.clone(), tail.clone()].concat();
    let total = d.len();
    let n = 4 + raw.len();
    let mut rd = BiffReader::with_remaining(&d, total);
    same(&format!("get_string on {}", hex(&d)), &rd.get_string(), &cut)?;
    same("get_string cursor", &(rd.pos(), rd.remaining_in_record()), &(n, total - n))?;
    let mut rd = BiffReader::with_remaining(&d, 4);
    same("get_string_no_remaining_update", &rd.get_string_no_remaining_update(), &cut)?;
    same("its cursor", &(rd.pos(), rd.remaining_in_record()), &(n, 4))?;
    let s = r.unicode(12);
    let d = [wide(&s), tail.clone()].concat();
    let n = d.len() - tail.len();
    let mut rd = BiffReader::with_remaining(&d, d.len());
    same(&format!("get_wide_string on {}", hex(&d)), &rd.get_wide_string(), &s)?;
    same("get_wide_string cursor", &(rd.pos(), rd.remaining_in_record()), &(n, d.len() - n))?;
    // script text
    let text: Vec<u8> = match r.below(3) {
        0 => r.unicode(12).into_bytes(),
        1 => latin1(&r.latin1(12)),
        _ => r.bytes(12),
    };
    let d = [text.clone(), tail.clone()].concat();
    let mut rd = BiffReader::with_remaining(&d, 3);
    let upto: Vec<u8> = text.iter().copied().take_while(|b| *b != 0).collect();
    let want = match std::str::from_utf8(&upto) {
        Ok(s) => StringWithEncoding { encoding: StringEncoding::Utf8, string: s.to_string() },
        Err(_) => StringWithEncoding { encoding: StringEncoding::Latin1, string: upto.iter().map(|b| *b as char).collect() },
    };
    same(&format!("get_str_with_encoding on {}", hex(&d)), &rd.get_str_with_encoding_no_remaining_update(text.len()), &want)?;
    same("its cursor", &(rd.pos(), rd.remaining_in_record()), &(text.len(), 3))?;
    // length-prefixed data and data(count)
    let v = r.bytes(20);
    let d = [le32(v.len() as u32), v.clone(), tail].concat();
    let mut rd = BiffReader::with_remaining(&d, 9);
    bytes_eq("get_data_no_remaining_update", &rd.get_data_no_remaining_update(), &v)?;
    same("its cursor", &(rd.pos(), rd.remaining_in_record()), &(4 + v.len(), 0))?;
    let mut rd = BiffReader::with_remaining(&d, 99);
    bytes_eq("get_data", rd.get_data(4 + v.len()), &d[..4 + v.len()])?;
    same("its cursor", &(rd.pos(), rd.remaining_in_record()), &(4 + v.len(), 0))?;
    let mut rd = BiffReader::with_remaining(&d, 99);
    let k = r.below(d.len());
    rd.skip_end_tag(k);
    same("skip_end_tag", &(rd.pos(), rd.remaining_in_record()), &(k, 0))
}

/// walking a stream: tags in order, partly read payloads skipped, nested streams, end of stream
fn stream(r: &mut Rng, _: usize) -> R {
    let n = r.below(7);
    let recs: Vec<(String, Vec<u8>)> = (0..n).map(|_| (tag(r), r.bytes(24))).collect();
    let mut d: Vec<u8> = recs.iter().flat_map(|(t, p)| rec(t, p)).collect();
    d.extend(endb());
    let junk = r.bool();
    if junk {
        d.extend(r.bytes(20));
    }
    let what = format!("stream {}", hex(&d));
    let mut rd = BiffReader::new(&d);
    if junk {
        rd.disable_warn_remaining();
    }
    let mut p = 0;
    for (t, payload) in &recs {
        same(&format!("{what}: next"), &rd.next(r.bool()), &Some(t.clone()))?;
        same(&format!("{what}: tag()"), &rd.tag(), t)?;
        check(!rd.is_eof(), || format!("{what}: is_eof inside the stream"))?;
        p += 8;
        same(&format!("{what}: cursor at payload"), &(rd.pos(), rd.remaining_in_record()), &(p, payload.len()))?;
        match r.below(6) {
            0 => {}
            1 => { let k = r.below(payload.len() + 1); bytes_eq(&what, rd.get(k), &payload[..k])?; }
            2 => bytes_eq(&format!("{what}: get_record_data"), &rd.get_record_data(false), payload)?,
            3 => bytes_eq(&format!("{what}: get_record_data(with_tag)"), &rd.get_record_data(true), &[tag4(t), payload.clone()].concat())?,
            4 => same(&format!("{what}: skip_tag"), &rd.skip_tag(), &payload.len())?,
            _ => {
                // a nested reader sees the same bytes from its own start
                let k = r.below(payload.len() + 1);
                let mut c = rd.child_reader();
                bytes_eq(&format!("{what}: child bytes"), c.get_no_remaining_update(k), &payload[..k])?;
                same(&format!("{what}: child cursor"), &c.pos(), &k)?;
                rd.skip_end_tag(payload.len());
            }
        }
        p += payload.len();
    }
    same(&format!("{what}: end"), &rd.next(r.bool()), &None)?;
    check(rd.is_eof(), || format!("{what}: not eof after ENDB"))?;
    same(&format!("{what}: cursor after ENDB"), &rd.pos(), &(p + 8))
}

fn nested(r: &mut Rng, _: usize) -> R {
    let inner: Vec<(String, Vec<u8>)> = (0..r.below(4)).map(|_| (tag(r), r.bytes(9))).collect();
    let mut body: Vec<u8> = inner.iter().flat_map(|(t, p)| rec(t, p)).collect();
    body.extend(endb());
    // marker record followed by a flat sub-stream with its own end marker, then more records
    let after = r.bytes(9);
    let d = [rec("MARK", &[]), body.clone(), rec("NEXT", &after), endb()].concat();
    let mut rd = BiffReader::new(&d);
    same("marker", &rd.next(true), &Some("MARK".to_string()))?;
    let mut c = rd.child_reader();
    for (t, p) in &inner {
        same("child next", &c.next(true), &Some(t.clone()))?;
        bytes_eq("child payload", &c.get_record_data(false), p)?;
    }
    same("child end", &c.next(true), &None)?;
    let used = c.pos();
    same("child consumption", &used, &body.len())?;
    rd.skip_end_tag(used);
    same("record after nested stream", &rd.next(true), &Some("NEXT".to_string()))?;
    bytes_eq("its payload", &rd.get_record_data(false), &after)?;
    same("end", &rd.next(true), &None)
}

fn until(r: &mut Rng, _: usize) -> R {
    let pre: Vec<u8> = (0..r.below(40)).map(|_| *r.pick(&[b'A', b'L', b'T', 0, 7])).collect();
    let d = [pre.clone(), rec("ALTV", &r.bytes(6)), endb()].concat();
    let mut whole = pre.clone();
    whole.extend([8, 0, 0, 0]);
    if whole.windows(4).any(|w| w == b"ALTV") {
        return Ok(());
    }
    let k = r.below(pre.len() + 1);
    let mut rd = BiffReader::with_remaining(&d, k + 3);
    rd.skip(k);
    bytes_eq(&format!("data_until on {}", hex(&d)), &rd.data_until(b"ALTV"), &pre[k..])?;
    same("data_until cursor", &(rd.pos(), rd.remaining_in_record()), &(pre.len(), 0))?;
    same("record found there", &rd.next(true), &Some("ALTV".to_string()))
}

/// whatever is written is read back
fn round_trip(r: &mut Rng, _: usize) -> R {
    let mut w = BiffWriter::new();
    let (b, i, u, x) = (r.bool(), r.i32(), r.u32(), r.f32());
    let (s, ws, d) = (r.latin1(60), r.unicode(40), r.bytes(70));
    let (t1, t2) = (tag(r), tag(r));
    w.write_tagged_bool(&t1, b);
    w.write_tagged_i32(&t2, i);
    w.write_tagged_u32("U", u);
    w.write_tagged_f32("F", x);
    w.write_tagged_string("STR", &s);
    w.write_tagged_wide_string("WSTR", &ws);
    w.write_tagged_data("DATA", &d);
    w.new_tag("MIX");
    w.write_string_empty_zero("");
    w.write_short_string(&s);
    w.write_length_prefixed_data(&d);
    w.close(true);
    let data = w.get_data().to_vec();
    let mut rd = BiffReader::new(&data);
    same("tag", &rd.next(true), &Some(t1))?;
    same("bool", &rd.get_bool(), &b)?;
    same("tag", &rd.next(true), &Some(t2))?;
    same("i32", &rd.get_i32(), &i)?;
    rd.next(true);
    same("u32", &rd.get_u32(), &u)?;
    rd.next(true);
    same("f32", &rd.get_f32().to_bits(), &x.to_bits())?;
    rd.next(true);
    same("string", &rd.get_string(), &s)?;
    rd.next(true);
    same("wide", &rd.get_wide_string(), &ws)?;
    rd.next(true);
    bytes_eq("data", &rd.get_record_data(false), &d)?;
    rd.next(true);
    same("empty_zero", &rd.get_string(), &String::new())?;
    let n = rd.get_u8() as usize;
    same("short string", &rd.get_str(n), &s)?;
    same("rest of record", &rd.remaining_in_record(), &(4 + d.len()))?;
    bytes_eq("length prefixed", &rd.get_data_no_remaining_update(), &d)?;
    same("end", &rd.next(true), &None)
}

/// large records: sizes that need every byte of the 32-bit length
fn large(r: &mut Rng, i: usize) -> R {
    let n = [0xFFusize, 0x100, 0xFFFF, 0x10000, 0x12345, 0xFF_FFFF, 0x100_0000][i % 7];
    let n = n - r.below(2) * 4;
    let d = vec![0xABu8; n];
    let mut w = BiffWriter::new();
    w.write_tagged_data("BIG", &d);
    w.write_tagged_u32("X", 7);
    w.close(true);
    let want = [rec("BIG", &d), rec("X", &le32(7)), endb()].concat();
    if w.get_data() != want {
        return bytes_eq(&format!("record of {n} bytes"), w.get_data(), &want);
    }
    let mut rd = BiffReader::new(&want);
    rd.next(true);
    if r.bool() {
        // left unread, or read in part
        let k = r.below(5);
        rd.get(k);
        return same(&format!("record after an unread one of {n} bytes"), &rd.next(true), &Some("X".to_string()));
    }
    check(rd.get_record_data(false) == d, || format!("payload of {n} bytes differs"))?;
    same("next", &rd.next(true), &Some("X".to_string()))
}

fn main() {
    main_with(&[
        Check { name: "writer", n: 4000, f: writer },
        Check { name: "getters", n: 6000, f: getters },
        Check { name: "arrays", n: 1500, f: arrays },
        Check { name: "strings", n: 3000, f: strings },
        Check { name: "stream", n: 5000, f: stream },
        Check { name: "nested", n: 1000, f: nested },
        Check { name: "data_until", n: 1500, f: until },
        Check { name: "round_trip", n: 3000, f: round_trip },
        Check { name: "large", n: 42, f: large },
    ]);
}
