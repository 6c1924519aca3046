//! C16: compressed keys through every decoder.
use crate::build::*;
use crate::num::{q, Rng, NAN_Q};
use crate::rec::{guard, Args, Rec};
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::*;
use serde_json::json;
use std::rc::Rc;

fn bits(v: f32) -> [u32; 2] {
    let b = if v.is_nan() { 0x7fc00000 } else { v.to_bits() };
    [b >> 16, b & 0xffff]
}

fn push<T: PartialEq>(v: &mut Vec<T>, x: T) {
    if !v.contains(&x) {
        v.push(x);
    }
}

fn comp(v: &SoaVec3, c: usize, lane: usize) -> f32 {
    [v.x, v.y, v.z][c].to_array()[lane]
}

fn constants(n: usize) -> [Chan; 3] {
    [ZERO3, quat_encode([0.0, 0.0, 0.0, 1.0]), ONE3].map(|raw| Chan { tracks: vec![vec![Key { time: 0, raw }, Key { time: 8, raw }]; n], nif: 0, wide: false })
}

/// Sample a two-key animation (raw left and right keys per track) at both ends.
fn sample(chan: usize, left: &[[u16; 3]], right: &[[u16; 3]], ratio: f32) -> Vec<SoaTransform> {
    let n = left.len();
    let mut chans = constants(n);
    chans[chan] = Chan { tracks: (0..n).map(|i| vec![Key { time: 0, raw: left[i] }, Key { time: 8, raw: right[i] }]).collect(), nif: 0, wide: false };
    let a = Rc::new(AnimSpec { n, td: 8, duration: 1.0, name: String::new(), chans, filler: vec![] }.animation());
    let mut j: SamplingJobRc = SamplingJob::default();
    j.set_context(SamplingContext::new(n));
    j.set_animation(a);
    j.set_ratio(ratio);
    let out = ozz_rc_buf(vec![SoaTransform::IDENTITY; n.div_ceil(4)]);
    j.set_output(out.clone());
    j.run().unwrap();
    let v = out.borrow().clone();
    v
}

/// Keys as a loaded animation hands them out for inspection.
fn inspected_f3(keys: &[[u16; 3]]) -> Vec<Float3Key> {
    let n = keys.len();
    let mut chans = constants(n);
    chans[0] = Chan { tracks: (0..n).map(|i| vec![Key { time: 0, raw: keys[i] }, Key { time: 8, raw: keys[i] }]).collect(), nif: 0, wide: false };
    let a = AnimSpec { n, td: 8, duration: 1.0, name: String::new(), chans, filler: vec![] }.animation();
    a.translations()[..n].to_vec()
}

fn halves(rec: &mut Rec, r: &mut Rng, from: u32, count: u32) {
    let cfg = json!({"from": from, "count": count});
    rec.begin("halves", &cfg);
    let res = guard(|| {
        let mut seen: Vec<Vec<[u32; 2]>> = vec![vec![]; count as usize];
        let mut sampled = seen.clone();
        let special = [0u16, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7c01, 0x7e00, 0xffff, 0x3c00, 0xbc00];
        let finite = [0u16, 1, 0x8001, 0x3ff, 0x400, 0x3c00, 0xbc00, 0x4900];
        // the keys, inspected one by one and in groups of four with unrelated neighbours
        for i in 0..count {
            let h = (from + i) as u16;
            for c in 0..3 {
                let mut k = [0; 3].map(|_| if r.chance(1, 2) { *r.pick(&special) } else { r.next() as u16 });
                k[c] = h;
                push(&mut seen[i as usize], bits(Float3Key::new(k).decompress().to_array()[c]));
                for lane in 0..4 {
                    let mut g = [[0u16; 3]; 4].map(|k| k.map(|_| if r.chance(1, 2) { *r.pick(&special) } else { r.next() as u16 }));
                    g[lane][c] = h;
                    let g = g.map(Float3Key::new);
                    let mut soa = SoaVec3::default();
                    Float3Key::simd_decompress(&g[0], &g[1], &g[2], &g[3], &mut soa);
                    push(&mut seen[i as usize], bits(comp(&soa, c, lane)));
                }
            }
        }
        // through archives and sampling: every rotation of the block puts each half in another lane and component
        for turn in 0..12usize {
            let n = count as usize;
            let at = |track: usize, c: usize| (track + turn + 5 * c) % n;
            let keys: Vec<[u16; 3]> = (0..n).map(|t| [0, 1, 2].map(|c| (from as usize + at(t, c)) as u16)).collect();
            let other: Vec<[u16; 3]> = (0..n).map(|_| [0; 3].map(|_| *r.pick(&finite))).collect();
            let zero = vec![[0u16; 3]; n];
            for (t, k) in inspected_f3(&keys).iter().enumerate() {
                for c in 0..3 {
                    push(&mut seen[at(t, c)], bits(k.decompress().to_array()[c]));
                }
            }
            for chan in [0, 2] {
                let runs = [sample(chan, &keys, &other, 0.0), sample(chan, &zero, &keys, 1.0)];
                for out in runs {
                    for t in 0..n {
                        let v = if chan == 0 { &out[t / 4].translation } else { &out[t / 4].scale };
                        for c in 0..3 {
                            push(&mut sampled[at(t, c)], bits(comp(v, c, t % 4)));
                        }
                    }
                }
            }
        }
        (seen, sampled)
    });
    let ev = match res {
        Ok((seen, sampled)) => json!({"op": "halves", "res": "ok", "seen": seen, "sampled": sampled}),
        Err(_) => json!({"op": "halves", "res": "panic"}),
    };
    rec.end("halves", &cfg, vec![ev]);
}

/// Components in 1/64 of a stored step.
fn scaled(v: [f32; 4]) -> [i64; 4] {
    let k = std::f64::consts::SQRT_2 * 32767.0 * 64.0;
    v.map(|x| if x.is_nan() { NAN_Q } else { q(x, k) })
}

fn lane4(s: &SoaQuat, l: usize) -> [f32; 4] {
    s.quat(l).to_array()
}

fn quats(rec: &mut Rec, r: &mut Rng, keys: &[[u16; 3]]) {
    let cfg = json!({"count": keys.len()});
    rec.begin("quats", &cfg);
    let n = keys.len();
    let res = guard(|| {
        let mut seen: Vec<Vec<[i64; 4]>> = vec![vec![]; n];
        let mut lanes: Vec<Vec<[u32; 4]>> = vec![vec![]; n];
        let mut sampled: Vec<Vec<[i64; 4]>> = vec![vec![]; n];
        for i in 0..n {
            push(&mut seen[i], scaled(QuaternionKey::new(keys[i]).decompress().to_array()));
            for lane in 0..4 {
                let mut g = [[0u16; 3]; 4].map(|_| *r.pick(keys));
                g[lane] = keys[i];
                let g = g.map(QuaternionKey::new);
                let mut s = SoaQuat::default();
                QuaternionKey::simd_decompress(&g[0], &g[1], &g[2], &g[3], &mut s);
                push(&mut seen[i], scaled(lane4(&s, lane)));
                push(&mut lanes[i], lane4(&s, lane).map(|x| x.to_bits()));
            }
        }
        for turn in 0..4usize {
            let at = |t: usize| (t + turn) % n;
            let ks: Vec<[u16; 3]> = (0..n).map(|t| keys[at(t)]).collect();
            let id = vec![quat_encode([0.0, 0.0, 0.0, 1.0]); n];
            for out in [sample(1, &ks, &id, 0.0), sample(1, &id, &ks, 1.0)] {
                for t in 0..n {
                    push(&mut sampled[at(t)], scaled(lane4(&out[t / 4].rotation, t % 4)));
                }
            }
        }
        (seen, lanes.iter().map(|l| l.len()).collect::<Vec<_>>(), sampled)
    });
    let ev = match res {
        Ok((seen, lanes, sampled)) => json!({"op": "quats", "res": "ok", "keys": keys, "seen": seen, "lanes": lanes, "sampled": sampled}),
        Err(_) => json!({"op": "quats", "res": "panic"}),
    };
    rec.end("quats", &cfg, vec![ev]);
}

pub fn run_c16(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC16);
    let r = &mut rng;
    for b in 0..256 {
        halves(rec, r, b * 256, 256);
    }
    let mut keys: Vec<[u16; 3]> = vec![];
    // the model's words
    if let Some(p) = &args.plan {
        for k in p["keys"].as_array().unwrap() {
            keys.push([0, 1, 2].map(|i| k[i].as_u64().unwrap() as u16));
        }
    }
    // every value of every stored component, for each largest component and sign
    let step = if args.thorough { 1 } else { 13 };
    for largest in 0..4u16 {
        for sign in 0..2u16 {
            for c in 0..3usize {
                let mut v = r.below(step) as i64;
                while v <= 32767 {
                    let mut x = [0u16; 3];
                    // the others so that the sum of squares stays below one, mostly
                    let lim = (32767.0 * 0.5 * (if r.chance(1, 8) { 1.0 } else { 0.5 })) as i64;
                    for y in x.iter_mut() {
                        *y = (16383 + r.range(-lim, lim)) as u16;
                    }
                    x[c] = v as u16;
                    keys.push(quat_pack(largest, sign, x));
                    v += step as i64;
                }
            }
        }
    }
    // anything at all, and unit quaternions as a builder encodes them
    for _ in 0..if args.thorough { 200000 } else { 6000 } {
        keys.push([0; 3].map(|_| r.next() as u16));
        let qd = [0; 4].map(|_| r.range(-1000, 1000) as f64);
        if qd.iter().any(|x| *x != 0.0) {
            keys.push(quat_encode(qd));
        }
    }
    for c in keys.chunks(250) {
        quats(rec, r, c);
    }
}
