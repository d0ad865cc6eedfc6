//! Replays the statements proved by the verifier on the real crate, with concrete values.
//! Its oracles (`oracle`) are written against the file format, not against the code under test.
pub mod data;
pub mod draw;
pub mod gen_items;
pub mod golden;
pub mod oracle;
pub mod mesh;
pub mod parts;
pub mod table;
pub mod wavs;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    /// draw finite numbers only
    pub static FINITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// splitmix64
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn u8(&mut self) -> u8 {
        match self.below(6) {
            0 => 0,
            1 => 255,
            2 => 0x80,
            _ => self.u64() as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(6) {
            0 => 0,
            1 => u16::MAX,
            2 => 0x8000,
            3 => self.u64() as u8 as u16,
            _ => self.u64() as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => u32::MAX,
            2 => 0x8000_0000,
            3 => self.u64() as u8 as u32,
            4 => 1u32 << self.below(32),
            _ => self.u64() as u32,
        }
    }
    pub fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    /// any bit pattern, NaN excluded unless asked for
    pub fn f32(&mut self) -> f32 {
        loop {
            let f = self.f32_any();
            if f.is_finite() || !FINITE.with(|x| x.get()) {
                return f;
            }
        }
    }
    fn f32_any(&mut self) -> f32 {
        match self.below(10) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => f32::INFINITY,
            4 => f32::NEG_INFINITY,
            5 => f32::from_bits(1 + self.below(1000) as u32),
            6 => f32::MAX,
            7 => (self.below(2_000_001) as f32 - 1_000_000.0) / 128.0,
            _ => {
                let f = f32::from_bits(self.u64() as u32);
                if f.is_nan() { 3.25 } else { f }
            }
        }
    }
    pub fn finite(&mut self) -> f32 {
        loop {
            let f = self.f32();
            if f.is_finite() {
                return f;
            }
        }
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = if self.chance(10) { 0 } else { self.below(max + 1) };
        (0..n).map(|_| self.u8()).collect()
    }
    /// characters 1..=255 (latin-1 without NUL)
    pub fn latin1(&mut self, max: usize) -> String {
        if let Some(t) = self.odd(max, true) {
            return t;
        }
        let n = self.below(max + 1);
        (0..n)
            .map(|_| match self.below(5) {
                0 => char::from_u32(128 + self.below(128) as u32).unwrap(),
                1 => char::from_u32(1 + self.below(31) as u32).unwrap(),
                _ => char::from_u32(32 + self.below(95) as u32).unwrap(),
            })
            .collect()
    }
    /// now and then a text that code is tempted to treat specially
    fn odd(&mut self, max: usize, latin: bool) -> Option<String> {
        const T: [&str; 24] = [
            "", "", " ", "  ", "0", "-1", "a", "A", " a", "a ", "\t", "\r\n", "a\r\nb\n", "\"", "null", "None", "true", "Ä", "ä", "e\u{301}", "\u{feff}x", "a\u{a0}", "\u{2028}", "😀",
        ];
        if !self.chance(6) {
            return None;
        }
        let t = *self.pick(&T);
        (t.chars().count() <= max && !(latin && t.chars().any(|c| c as u32 > 255))).then(|| t.to_string())
    }
    pub fn ascii(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| char::from_u32(32 + self.below(95) as u32).unwrap()).collect()
    }
    pub fn unicode(&mut self, max: usize) -> String {
        if let Some(t) = self.odd(max, false) {
            return t;
        }
        let n = self.below(max + 1);
        (0..n)
            .map(|_| match self.below(6) {
                0 => char::from_u32(1 + self.below(127) as u32).unwrap(),
                1 => char::from_u32(0x80 + self.below(0x780) as u32).unwrap(),
                2 => char::from_u32(0x10000 + self.below(0x100000) as u32).unwrap(),
                3 => char::from_u32(0xE000 + self.below(0x1FFF) as u32).unwrap(),
                4 => char::from_u32(0xD7F0 + self.below(16) as u32).unwrap(),
                _ => char::from_u32(32 + self.below(95) as u32).unwrap(),
            })
            .collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub type R = Result<(), String>;
/// a named check; `one(rng, i)` exercises case number i
pub struct Check {
    pub name: &'static str,
    /// how many cases the quick tier runs
    pub n: usize,
    pub f: fn(&mut Rng, usize) -> R,
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 1500 {
        let h: String = s.chars().take(1500).collect();
        format!("{h}… ({} chars)", s.len())
    } else {
        s
    }
}
pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
    if b.len() > 400 { format!("{s}… ({} bytes)", b.len()) } else { s }
}
/// where two byte strings part
pub fn bytes_eq(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let a = i.saturating_sub(24);
    Err(format!(
        "{what}: first difference at byte {i} (lengths got {} want {}); got[{a}..]={} want[{a}..]={}",
        got.len(), want.len(), hex(&got[a..got.len().min(i + 40)]), hex(&want[a..want.len().min(i + 40)])
    ))
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> R {
    if got == want {
        return Ok(());
    }
    same_dbg(what, got, want)?;
    Err(format!("{what}: got {} want {}", short(got), short(want)))
}
/// equality on the Debug form (floats compare by printed value, so NaN equals NaN)
pub fn same_dbg<T: std::fmt::Debug>(what: &str, got: &T, want: &T) -> R {
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    if g == w {
        return Ok(());
    }
    let i = g.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
    let cut = |s: &str| -> String {
        let mut a = i.saturating_sub(160);
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        s[a..].chars().take(320).collect()
    };
    Err(format!("{what}: got …{}… want …{}…", cut(&g), cut(&w)))
}
pub fn check(cond: bool, what: impl FnOnce() -> String) -> R {
    if cond { Ok(()) } else { Err(what()) }
}

static PANIC: Mutex<String> = Mutex::new(String::new());

fn run_one(c: &Check, seed: u64, i: usize) -> R {
    let mut h = seed;
    for b in c.name.bytes() {
        h = h.wrapping_mul(0x100000001b3) ^ b as u64;
    }
    let mut rng = Rng(h.wrapping_add((i as u64).wrapping_mul(0x5851F42D4C957F2D)));
    PANIC.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| (c.f)(&mut rng, i))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.lock().unwrap())),
    }
}

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// usage: <bin> run SEED SCALE PROGRESS_FILE   |   <bin> one NAME SEED INDEX
pub fn main_with(checks: &[Check]) {
    std::panic::set_hook(Box::new(|info| {
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{info}").replace('\n', " ");
    }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 5 && a[1] == "one" {
        let c = checks.iter().find(|c| c.name == a[2]).expect("unknown check");
        match run_one(c, a[3].parse().unwrap(), a[4].parse().unwrap()) {
            Ok(()) => println!("{} case {} holds", a[2], a[4]),
            Err(e) => {
                println!("{} case {} FAILS: {e}", a[2], a[4]);
                std::process::exit(1);
            }
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let scale: f64 = a[3].parse().unwrap();
    let progress = &a[4];
    let mut failed = 0;
    for c in checks {
        let n = ((c.n as f64 * scale) as usize).max(1);
        std::fs::write(progress, c.name).unwrap();
        let t0 = Instant::now();
        let mut done = 0;
        let mut bad = Ok(());
        for i in 0..n {
            if let Err(e) = run_one(c, seed, i) {
                bad = Err((i, e));
                break;
            }
            done += 1;
            if t0.elapsed() > Duration::from_secs_f64(25.0 * scale.max(1.0)) {
                break;
            }
        }
        match bad {
            Ok(()) => println!("{{\"check\":{},\"cases\":{done},\"ms\":{}}}", esc(c.name), t0.elapsed().as_millis()),
            Err((i, e)) => {
                failed += 1;
                println!("{{\"check\":{},\"cases\":{done},\"fail\":{i},\"detail\":{}}}", esc(c.name), esc(&e));
            }
        }
    }
    if failed > 0 {
        std::process::exit(1);
    }
}
