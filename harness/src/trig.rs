//! The deterministic trigonometric functions (C21).
use crate::num::*;
use crate::rec::*;
use ozz_animation_rs::math::*;
use serde_json::{json, Value};

fn halves(f: f32) -> [u32; 2] {
    [f.to_bits() >> 16, f.to_bits() & 0xffff]
}
const U: f64 = 16777216.0;

fn angle(x: f32) -> [i64; 2] {
    let a = x.abs() as f64;
    let n = (a * U).round();
    [(n / U) as i64, (n % U) as i64]
}

fn sc(x: f32) -> Value {
    let (s, c) = f32_sin_cos(x);
    let (s2, c2) = f32_sin_cos(-x);
    json!({"op": "sc", "res": "ok", "neg": x < 0.0, "x": angle(x), "sin": q(s, U), "cos": q(c, U),
        "bits": [halves(s), halves(c)], "mirror": [halves(s2), halves(c2)], "parts": [halves(f32_sin(x)), halves(f32_cos(x))]})
}
fn tiny(x: f32) -> Value {
    let (s, c) = f32_sin_cos(x);
    json!({"op": "tiny", "res": "ok", "x": halves(x), "sin": halves(s), "cos": halves(c), "asin": halves(f32_asin(x))})
}
fn asin(y: f32) -> Value {
    let (a, c) = (f32_asin(y), f32_acos(y));
    json!({"op": "asin", "res": "ok", "y": q(y, U), "asin": q(a, U), "acos": q(c, U), "bits": halves(a), "mirror": halves(f32_asin(-y))})
}
fn clamp(y: f32) -> Value {
    json!({"op": "clamp", "res": "ok", "neg": y < 0.0, "asin": q(f32_asin(y), U), "acos": q(f32_acos(y), U)})
}

pub fn run_c21(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC21);
    let mut todo: Vec<Box<dyn Fn() -> Value>> = vec![];
    let mut angles: Vec<f32> = vec![];
    if let Some(plan) = &args.plan {
        for p in plan["angles"].as_array().unwrap() {
            let (i, f) = (p[0].as_i64().unwrap() as f64, p[1].as_i64().unwrap() as f64);
            if i < 8192.0 {
                angles.push((i + f / U) as f32);
            }
        }
    }
    // next to every multiple of pi / 4, where the branch changes
    for k in 0..(if args.thorough { 10430 } else { 2600 }) {
        let k = if args.thorough || k < 1000 { k } else { rng.below(10430) };
        let x = (k as f64 * std::f64::consts::FRAC_PI_4) as f32;
        angles.push(f32::from_bits((x.to_bits() as i64 + rng.range(-2, 2)).max(0) as u32));
    }
    let n = if args.thorough { 60000 } else { 6000 };
    for _ in 0..n {
        let e = rng.range(-12, 12) as i32;
        let m = 1.0 + rng.below(1 << 23) as f64 / (1 << 23) as f64;
        angles.push((m * 2f64.powi(e)) as f32);
    }
    for x in angles {
        let x = if rng.chance(1, 2) { -x } else { x };
        todo.push(Box::new(move || sc(x)));
        // the same number as a cosine or sine
        let y = (x as f64).sin() as f32;
        if rng.chance(1, 3) {
            todo.push(Box::new(move || asin(y)));
        }
    }
    let near = |y: f32, d: i64| f32::from_bits((y.to_bits() as i64 + d) as u32);
    for y in [0.5f32, 1.0, 0.25, 0.70710677, 0.86602540, 0.9999, 0.99, 0.4999] {
        for d in -40..=40 {
            let v = near(y, d);
            for v in [v, -v] {
                todo.push(if v.abs() > 1.0 { Box::new(move || clamp(v)) } else { Box::new(move || asin(v)) });
            }
        }
    }
    for _ in 0..n / 3 {
        let y = (rng.range(-(1 << 24), 1 << 24) as f64 / U) as f32;
        todo.push(Box::new(move || asin(y)));
        let e = -rng.range(14, 125) as i32;
        let m = 1.0 + rng.below(1 << 23) as f64 / (1 << 23) as f64;
        let t = (if rng.chance(1, 2) { m } else { -m } * 2f64.powi(e)) as f32;
        todo.push(Box::new(move || tiny(t)));
    }
    for y in [1.5f32, 2.0, 1e10, f32::MAX, f32::INFINITY, 1.0] {
        for y in [y, -y] {
            todo.push(Box::new(move || clamp(y)));
        }
    }
    // any order
    for i in (1..todo.len()).rev() {
        todo.swap(i, rng.below(i + 1));
    }
    let hdr = json!({});
    for part in todo.chunks(200) {
        rec.begin("trig", &hdr);
        let ev = part.iter().map(|f| guard(|| f()).unwrap_or_else(|_| json!({"op": "any", "res": "panic"}))).collect();
        rec.end("trig", &hdr, ev);
    }
}
