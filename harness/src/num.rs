//! Projection of real values into the integers the specification talks about, plus a small PRNG.
use serde_json::{json, Value};
use std::collections::HashMap;

pub const NAN_Q: i64 = 1_999_999_999;
pub const BIG_Q: i64 = 1_000_000_000;

/// Quantise to `unit` steps per 1.0 (round half away). NaN and out-of-range values map to
/// sentinels that no specification accepts (they are checked before any arithmetic).
pub fn q(v: f32, unit: f64) -> i64 {
    qd(v as f64, unit)
}

pub fn qd(v: f64, unit: f64) -> i64 {
    if v.is_nan() {
        return NAN_Q;
    }
    let x = (v * unit).round();
    if x >= BIG_Q as f64 {
        BIG_Q
    } else if x <= -(BIG_Q as f64) {
        -BIG_Q
    } else {
        x as i64
    }
}

pub fn qs(v: &[f32], unit: f64) -> Value {
    Value::Array(v.iter().map(|x| json!(q(*x, unit))).collect())
}

/// Exact identity of bit patterns: equal ids iff equal bytes (within one interner).
#[derive(Default)]
pub struct Intern {
    map: HashMap<Vec<u8>, usize>,
}

impl Intern {
    pub fn new() -> Intern {
        Intern::default()
    }
    pub fn id(&mut self, bytes: &[u8]) -> usize {
        let n = self.map.len() + 1;
        *self.map.entry(bytes.to_vec()).or_insert(n)
    }
}

pub fn bytes_of<T>(s: &[T]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)) }
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
