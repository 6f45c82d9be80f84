//! Choice sources: every property body draws its inputs from a `Src`, so one body
//! serves random search, exhaustive enumeration, replay of a recorded case, and
//! (in /verif/kani) symbolic execution.

pub trait Src {
    /// a value in 0..bound (bound 0: any u64)
    fn word(&mut self, bound: u64) -> u64;
    /// human readable description of the case
    fn note(&mut self, f: &dyn Fn() -> String);
    /// marks the case as non-trivial
    fn nontrivial(&mut self) {}
    fn below(&mut self, n: usize) -> usize { self.word(n as u64) as usize }
    fn bool(&mut self) -> bool { self.word(2) == 1 }
    fn u8(&mut self) -> u8 { self.word(256) as u8 }
    fn u16(&mut self) -> u16 { self.word(65536) as u16 }
    fn u32(&mut self) -> u32 { self.word(1 << 32) as u32 }
    fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.word((hi - lo + 1) as u64) as i64 }
}

pub fn pick<'a, T>(s: &mut dyn Src, xs: &'a [T]) -> &'a T {
    let i = s.below(xs.len());
    &xs[i]
}

/// f32 biased towards values that matter to BYOND code
pub fn float(s: &mut dyn Src) -> f32 {
    match s.below(8) {
        0 => s.range(-4, 4) as f32,
        1 => s.range(-300, 300) as f32,
        2 => s.range(-20_000_000, 20_000_000) as f32,
        3 => s.range(-64, 64) as f32 / 8.0,
        4 => *pick(s, &[0.0, -0.0, 0.5, 1.0, -1.0, 16777215.0, 16777216.0, 2147483647.0, -2147483648.0, 4294967296.0, 1e10, -1e10, 1e-10, 3.4e38, f32::INFINITY, f32::NEG_INFINITY]),
        5 => (1u64 << s.below(40)) as f32,
        6 => s.range(0, 33) as f32,
        _ => f32::from_bits(s.u32()),
    }
}

/// SplitMix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub enum Mode { Random(Rng), Replay, Exhaust }

/// Records what it hands out.
pub struct Rec {
    pub mode: Mode,
    pub given: Vec<u64>,
    pub bounds: Vec<u64>,
    pub out: Vec<u64>,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub nontrivial: bool,
    pub sink: Option<std::fs::File>,
}

impl Rec {
    pub fn random(seed: u64) -> Rec { Rec { mode: Mode::Random(Rng(seed)), given: vec![], bounds: vec![], out: vec![], notes: vec![], want_notes: false, nontrivial: false, sink: None } }
    pub fn replay(given: Vec<u64>) -> Rec { Rec { mode: Mode::Replay, given, bounds: vec![], out: vec![], notes: vec![], want_notes: false, nontrivial: false, sink: None } }
    pub fn exhaust(given: Vec<u64>) -> Rec { Rec { mode: Mode::Exhaust, given, bounds: vec![], out: vec![], notes: vec![], want_notes: false, nontrivial: false, sink: None } }
    /// next choice list in depth-first order, None when the space is exhausted
    pub fn successor(&self) -> Option<Vec<u64>> {
        let mut v = self.out.clone();
        while let Some(last) = v.pop() {
            let b = self.bounds[v.len()];
            if b != 0 && last + 1 < b { v.push(last + 1); return Some(v); }
        }
        None
    }
}

impl Src for Rec {
    fn word(&mut self, bound: u64) -> u64 {
        let k = self.out.len();
        let v = match &mut self.mode {
            Mode::Random(r) => { let x = r.next(); if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 } }
            Mode::Replay | Mode::Exhaust => {
                let x = self.given.get(k).copied().unwrap_or(0);
                if bound == 0 { x } else { x % bound }
            }
        };
        if let Some(f) = &mut self.sink { use std::io::Write; let _ = write!(f, "{v} "); }
        self.out.push(v);
        self.bounds.push(bound);
        v
    }
    fn note(&mut self, f: &dyn Fn() -> String) { if self.want_notes { let s = f(); self.notes.push(s); } }
    fn nontrivial(&mut self) { self.nontrivial = true; }
}
