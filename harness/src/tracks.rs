//! C03 (user-channel tracks) and C04 (track triggering) recorders.
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use crate::sampling::{quat_about, RU, VU};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::rc::Rc;

trait Comps: TrackValue + 'static {
    const TAG: &'static str;
    const QUAT: bool;
    fn comps(&self) -> Vec<f32>;
}
impl Comps for f32 {
    const TAG: &'static str = "ozz-float_track";
    const QUAT: bool = false;
    fn comps(&self) -> Vec<f32> {
        vec![*self]
    }
}
impl Comps for Vec2 {
    const TAG: &'static str = "ozz-float2_track";
    const QUAT: bool = false;
    fn comps(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
}
impl Comps for Vec3 {
    const TAG: &'static str = "ozz-float3_track";
    const QUAT: bool = false;
    fn comps(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
}
impl Comps for Vec4 {
    const TAG: &'static str = "ozz-float4_track";
    const QUAT: bool = false;
    fn comps(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
}
impl Comps for Quat {
    const TAG: &'static str = "ozz-quat_track";
    const QUAT: bool = true;
    fn comps(&self) -> Vec<f32> {
        self.to_array().to_vec()
    }
}

#[derive(Clone, Debug)]
struct Shape {
    times: Vec<i64>,
    steps: Vec<bool>,
    td: i64,
}

fn values_for(rng: &mut Rng, quat: bool, dim: usize, n: usize) -> Vec<Vec<f32>> {
    let mut v = vec![];
    let mut ang = [rng.range(-60, 60) as f64, rng.range(-60, 60) as f64];
    let mut flip = if rng.chance(1, 2) { -1.0 } else { 1.0 };
    let flips = rng.chance(1, 3);
    for _ in 0..n {
        if quat {
            // neighbouring keys within 80 degrees, any sign for the whole track or each key
            if flips && rng.chance(1, 2) {
                flip = -flip;
            }
            ang[0] += rng.range(-80, 80) as f64;
            let a = quat_about(0, ang[0]);
            let b = quat_about(1, ang[1]);
            let q = [
                a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
                a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
                a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
                a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
            ];
            v.push(q.iter().map(|x| (x * flip) as f32).collect());
        } else {
            v.push((0..dim).map(|_| (rng.range(-400, 400) as f32) / 4.0 + 0.125).collect());
        }
    }
    v
}

fn id_of(v: &[f32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}

fn record<V: Comps>(rec: &mut Rec, rng: &mut Rng, kind: &str, shapes: &[Shape], ops: &[(usize, i64)], dim: usize) {
    let mut intern = Intern::new();
    // what a value of 1 stands for
    let mag = if V::QUAT { 1.0 } else { 2f32.powi(*rng.pick(&[0, 0, 0, -10, -20, -40, 10, 40])) };
    let unit = if V::QUAT { RU } else { VU / mag as f64 };
    let mut specs = vec![];
    for s in shapes {
        let mut values = values_for(rng, V::QUAT, dim, s.times.len());
        values.iter_mut().flatten().for_each(|x| *x *= mag);
        specs.push(TrackSpec {
            tag: V::TAG,
            name: "t".into(),
            ratios: s.times.iter().map(|t| *t as f32 / s.td as f32).collect(),
            values,
            steps: s.steps.clone(),
        });
    }
    let cfg = json!({"tracks": shapes.iter().zip(&specs).map(|(s, t)| json!({
        "times": s.times, "steps": s.steps, "td": s.td, "quat": V::QUAT,
        "keys": t.values.iter().map(|v| qs(v, unit)).collect::<Vec<_>>(),
        "kid": t.values.iter().map(|v| intern.id(&id_of(v))).collect::<Vec<_>>(),
    })).collect::<Vec<_>>()});
    rec.begin(kind, &json!({"specs": format!("{specs:?}"), "ops": ops}));
    let tracks: Vec<Rc<Track<V>>> = specs.iter().map(|s| Rc::new(s.load::<V>())).collect();
    let mut job: TrackSamplingJob<V> = TrackSamplingJob::default();
    let mut ev = vec![];
    let mut cur = usize::MAX;
    for (t, r) in ops {
        if cur != *t {
            job.set_track(tracks[*t].clone());
            cur = *t;
        }
        let td = shapes[*t].td;
        let g = *r as f32 / td as f32;
        // the grid value, a neighbouring float, or (outside) infinity
        let (n, ratio) = match rng.below(8) {
            0 | 1 => (1, g.next_up()),
            2 | 3 => (-1, g.next_down()),
            4 if *r < 0 || *r > td => (0, if *r < 0 { f32::NEG_INFINITY } else { f32::INFINITY }),
            _ => (0, g),
        };
        let (n, ratio) = if kind == "tour" || kind == "large" || kind == "close" { (0, g) } else { (n, ratio) };
        job.set_ratio(ratio);
        let res = guard(|| job.run());
        let c = job.result().comps();
        ev.push(json!({"op": "sample", "t": t + 1, "r": r, "n": n, "res": res_name(&res), "v": qs(&c, unit), "vid": intern.id(&id_of(&c))}));
    }
    rec.end(kind, &cfg, ev);
}

fn record_dim(rec: &mut Rec, rng: &mut Rng, kind: &str, shapes: &[Shape], ops: &[(usize, i64)], which: usize) {
    match which {
        0 => record::<f32>(rec, rng, kind, shapes, ops, 1),
        1 => record::<Vec2>(rec, rng, kind, shapes, ops, 2),
        2 => record::<Vec3>(rec, rng, kind, shapes, ops, 3),
        3 => record::<Vec4>(rec, rng, kind, shapes, ops, 4),
        _ => record::<Quat>(rec, rng, kind, shapes, ops, 4),
    }
}

fn random_shape(rng: &mut Rng) -> Shape {
    let td = *rng.pick(&[16, 64, 120, 1000]);
    let n = match rng.below(5) {
        0 => 1,
        1 => 2,
        2 => rng.range(3, 9) as usize,
        3 => rng.range(7, 18) as usize,
        _ => rng.range(15, 40) as usize,
    }
    .min(td as usize / 2);
    let mut times = vec![0];
    while times.len() < n {
        let t = rng.range(1, td);
        if !times.contains(&t) {
            times.push(t);
        }
    }
    times.sort();
    // most tracks end at the clip's end
    if n > 1 && rng.chance(3, 4) {
        times[n - 1] = td;
    }
    let p = rng.below(4) as u64;
    let steps = (0..n).map(|_| rng.chance(p, 3)).collect();
    // double the grid so that odd ratios fall between keys
    Shape { times: times.iter().map(|t| t * 2).collect(), steps, td: td * 2 }
}

pub fn run_c03(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC03);
    if let Some(plan) = &args.plan {
        for (i, sc) in plan["scenarios"].as_array().unwrap().iter().enumerate() {
            let s = Shape {
                times: sc["track"]["times"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(),
                steps: sc["track"]["steps"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect(),
                td: sc["track"]["td"].as_i64().unwrap(),
            };
            let ops: Vec<(usize, i64)> = sc["walk"].as_array().unwrap().iter().map(|x| (0, x.as_i64().unwrap())).collect();
            record_dim(rec, &mut rng, "tour", &[s], &ops, i % 5);
        }
    }
    let count = if args.thorough { 3000 } else { 250 };
    for i in 0..count {
        let shapes: Vec<Shape> = (0..rng.range(1, 3)).map(|_| random_shape(&mut rng)).collect();
        let mut ops = vec![];
        for _ in 0..40 {
            let t = rng.below(shapes.len());
            let s = &shapes[t];
            let r = match rng.below(10) {
                0 => -rng.range(1, 3 * s.td),
                1 => s.td + rng.range(1, 3 * s.td),
                2 => 0,
                3 => s.td,
                4 | 5 => *rng.pick(&s.times),
                6 => *rng.pick(&s.times) + 1,
                7 => *rng.pick(&s.times) - 1,
                _ => rng.range(0, s.td),
            };
            ops.push((t, r));
        }
        record_dim(rec, &mut rng, "random", &shapes, &ops, i % 5);
    }
    // keys next to each other: all but the last of each cluster are linear
    for i in 0..if args.thorough { 100 } else { 20 } {
        let td = 65536i64;
        let mut times = vec![0i64];
        while times.len() < 24 {
            let c = *times.last().unwrap() + rng.range(500, 5000);
            let k = rng.range(2, 5);
            times.extend((0..k).scan(c, |t, _| {
                *t += rng.range(1, 3) * 2;
                Some(*t)
            }));
        }
        times.push(td);
        let steps = (0..times.len()).map(|k| k + 1 < times.len() && (times[k + 1] - times[k] > 100 || rng.chance(1, 6))).collect();
        let mut ops = vec![];
        for _ in 0..40 {
            let k = rng.below(times.len() - 1);
            let t = times[k];
            ops.push((0, *rng.pick(&[t, t + 1, t + 2, t + 3, (t + times[k + 1]) / 2])));
        }
        record_dim(rec, &mut rng, "close", &[Shape { times, steps, td }], &ops, i % 5);
    }
    // many keys
    let sizes: &[usize] = if args.thorough { &[255, 256, 257, 300, 1000, 2500, 5000, 70000] } else { &[255, 256, 300, 1000, 2500] };
    for (i, n) in sizes.iter().enumerate() {
        let s = large_shape(&mut rng, *n);
        let mut ops = vec![(0, 0), (0, s.td), (0, s.times[n - 1] - 1), (0, s.times[n - 2])];
        ops.extend((0..12).map(|_| (0, rng.range(0, s.td))));
        ops.extend((0..12).map(|_| (0, *rng.pick(&s.times))));
        let dim = if *n > 10000 { 0 } else { i };
        record_dim(rec, &mut rng, "large", &[s], &ops, dim);
    }
}

fn large_shape(rng: &mut Rng, n: usize) -> Shape {
    let td = (2 * n).next_power_of_two() as i64;
    let mut times: Vec<i64> = (1..td).collect();
    rng.shuffle(&mut times);
    times.truncate(n - 2);
    times.extend([0, td]);
    times.sort();
    let p = rng.below(4) as u64;
    let steps = (0..n).map(|_| rng.chance(p, 3)).collect();
    Shape { times: times.iter().map(|t| t * 2).collect(), steps, td: td * 2 }
}

// ------------------------------------------------------------------------------------------ C04

/// Ratios of triggering scenarios are integers over this.
pub const TGU: f64 = 1024.0;

#[derive(Clone, Debug)]
struct Float {
    /// key times over 1024
    times: Vec<i64>,
    vals: Vec<i64>,
    steps: Vec<bool>,
    /// values are vals / vden, the threshold th / vden
    vden: f64,
}

/// from / to in quarters of the grid: an odd quarter is the neighbouring float of the grid value
fn nudged(quarters: i64, base: i64) -> f32 {
    let grid = (quarters + 1).div_euclid(4);
    let v = (grid as f64 / TGU + base as f64) as f32;
    match quarters - 4 * grid {
        0 => v,
        1 => v.next_up(),
        -1 => v.next_down(),
        _ => panic!("half a grid step"),
    }
}

/// runs: (from, to, threshold), from / to over 4096 (see nudged) and relative to loop `base`; the
/// reported ratio is exact unless `coarse`, in which case it is within `coarse` (1/4096 units).
fn record_c04(rec: &mut Rec, kind: &str, t: &Float, runs: &[(i64, i64, i64)], base: i64, coarse: i64) {
    let spec = TrackSpec {
        tag: "ozz-float_track",
        name: "".into(),
        ratios: t.times.iter().map(|x| (*x as f64 / TGU) as f32).collect(),
        values: t.vals.iter().map(|v| vec![(*v as f64 / t.vden) as f32]).collect(),
        steps: t.steps.clone(),
    };
    let times: Vec<i64> = t.times.iter().map(|x| 4 * x).collect();
    let cfg = json!({"times": times, "vals": t.vals, "steps": t.steps, "coarse": coarse});
    rec.begin(kind, &json!({"track": format!("{t:?}"), "runs": runs, "base": base}));
    let track = Rc::new(spec.load::<f32>());
    let mut job: TrackTriggeringJobRc = TrackTriggeringJob::default();
    job.set_track(track);
    let mut ev = vec![];
    for (from, to, th) in runs {
        job.set_from(nudged(*from, base));
        job.set_to(nudged(*to, base));
        job.set_threshold((*th as f64 / t.vden) as f32);
        let limit = 4 * (1 + (to - from).unsigned_abs() as usize / 4096) * (t.times.len() + 2) + 50;
        let r = guard(|| -> Result<(Vec<Value>, bool), OzzError> {
            let mut it = job.run()?;
            let mut edges = vec![];
            let mut done = false;
            for _ in 0..limit {
                match it.next() {
                    None => {
                        done = true;
                        break;
                    }
                    Some(e) => {
                        let v = serde_json::to_value(&e).unwrap();
                        let r = match v["ratio"].as_f64() {
                            Some(x) => qd((x as f32) as f64 - base as f64, 4.0 * TGU),
                            None => NAN_Q,
                        };
                        // exactness of the projection: a ratio off the grid must not round onto it
                        let exact = v["ratio"].as_f64().map(|x| (((x as f32) as f64 - base as f64) * TGU).fract() == 0.0) == Some(true);
                        edges.push(json!([if exact || coarse > 0 { r } else { NAN_Q }, v["rising"].as_bool().unwrap()]));
                    }
                }
            }
            // a finished iterator stays finished
            let done = done && it.next().is_none();
            Ok((edges, done))
        });
        let name = res_name(&r);
        let (edges, done) = match r {
            Ok(Ok(x)) => x,
            _ => (vec![], false),
        };
        ev.push(json!({"op": "run", "from": from, "to": to, "th": th, "res": name, "edges": edges, "done": done}));
        if name != "ok" || !done {
            break;
        }
    }
    rec.end(kind, &cfg, ev);
}

fn random_float(rng: &mut Rng) -> (Float, Vec<i64>) {
    // key times multiples of 1/64, values such that every crossing is a multiple of 1/1024
    let n = match rng.below(4) {
        0 => rng.range(2, 4),
        1 => rng.range(4, 8),
        _ => rng.range(6, 22),
    } as usize;
    let mut times = vec![0i64];
    while times.len() < n {
        let t = rng.range(1, 63) * 16;
        if !times.contains(&t) {
            times.push(t);
        }
    }
    times.sort();
    times[n - 1] = 1024;
    let p = rng.below(4) as u64;
    let steps: Vec<bool> = (0..n).map(|_| rng.chance(p, 3)).collect();
    // values over 4: differences of powers of two (in quarters): 0, 4, 8 or 16 quarters
    let levels: &[i64] = match rng.below(3) {
        0 => &[0, 4],
        1 => &[0, 4, 8],
        _ => &[-4, 0, 4],
    };
    let vals: Vec<i64> = (0..n).map(|_| *rng.pick(levels)).collect();
    let mut ths = vec![];
    for b in levels {
        ths.push(*b);
        ths.push(*b + 1);
        ths.push(*b + 2);
    }
    ths.push(-7);
    ths.push(100);
    (Float { times, vals, steps, vden: 4.0 }, ths)
}

pub fn run_c04(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC04);
    if let Some(plan) = &args.plan {
        for sc in plan["tracks"].as_array().unwrap() {
            let ints = |k: &str| -> Vec<i64> { sc[k].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
            let scale = plan["scale"].as_i64().unwrap(); // model grid -> 1/1024
            let t = Float {
                times: ints("times").iter().map(|x| x * scale).collect(),
                vals: ints("vals"),
                steps: sc["steps"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect(),
                vden: 2.0,
            };
            let mut runs = vec![];
            for th in plan["ths"].as_array().unwrap() {
                for p in plan["pairs"].as_array().unwrap() {
                    runs.push((4 * p[0].as_i64().unwrap() * scale, 4 * p[1].as_i64().unwrap() * scale, th.as_i64().unwrap()));
                }
            }
            // spread over the pairs: every track sees a different slice in the quick tier
            let stride = plan["stride"].as_u64().unwrap() as usize;
            let off = rng.below(stride);
            let runs: Vec<_> = runs.into_iter().skip(off).step_by(stride).collect();
            record_c04(rec, "model", &t, &runs, 0, 0);
        }
    }
    let count = if args.thorough { 6000 } else { 500 };
    for i in 0..count {
        let (mut t, ths) = random_float(&mut rng);
        t.vden *= *rng.pick(&[1.0, 1.0, 1.0, 1048576.0, 1e-6f64.log2().round().exp2(), 2f64.powi(60), 2f64.powi(-60)]);
        let mut runs = vec![];
        let span = *rng.pick(&[1024i64, 2048, 6000]);
        let base = *rng.pick(&[0i64, 0, 0, 1, -1, -3, 17, -250, 1000]);
        let th = *rng.pick(&ths);
        let mut cur = rng.range(-2048, 2048);
        let mut ends = (0, 0);
        for _ in 0..24 {
            let nxt = match rng.below(8) {
                0 => cur,
                1 => cur.div_euclid(1024) * 1024 + 1024,
                2 => cur.div_euclid(1024) * 1024,
                3 => cur.div_euclid(1024) * 1024 + *rng.pick(&t.times),
                4 => rng.range(-3072, 3072),
                5 => cur + rng.range(-64, 64),
                _ => cur + rng.range(-span, span),
            };
            let th = if rng.chance(1, 4) { *rng.pick(&ths) } else { th };
            let (a, b) = (4 * cur + ends.0, 4 * nxt + ends.1);
            runs.push((a, b, th));
            // the same interval backward, and cut at a random point
            if rng.chance(1, 2) {
                runs.push((b, a, th));
                let mid = 4 * rng.range(cur.min(nxt), cur.max(nxt));
                runs.push((a, mid, th));
                runs.push((mid, b, th));
            }
            // cut around an edge, down to neighbouring floats
            if rng.chance(1, 3) {
                let e = 4 * (cur.div_euclid(1024) * 1024 + *rng.pick(&t.times));
                let c = [e - 4, e - 1, e, e + 1, e + 4];
                for w in c.windows(2) {
                    runs.push((w[0], w[1], th));
                    runs.push((w[1], w[0], th));
                }
            }
            ends.0 = ends.1;
            ends.1 = if rng.chance(1, 3) { rng.range(-1, 1) } else { 0 };
            cur = nxt;
        }
        let _ = i;
        record_c04(rec, "random", &t, &runs, base, 0);
    }
    // many keys: all steps, so that every multiple of 1/1024 can be an edge
    for n in [255usize, 256, 257, 400, 900] {
        let mut times: Vec<i64> = (1..1024).collect();
        rng.shuffle(&mut times);
        times.truncate(n - 2);
        times.extend([0, 1024]);
        times.sort();
        let vals = (0..n).map(|_| if rng.chance(1, 12) { 4 } else { 0 }).collect();
        let t = Float { times, vals, steps: vec![true; n], vden: 4.0 };
        let mut runs = vec![];
        for _ in 0..4 {
            let (a, b) = (4 * rng.range(-2048, 2048), 4 * rng.range(-2048, 2048));
            runs.push((a, b, 1));
            runs.push((b, a, 1));
        }
        record_c04(rec, "large", &t, &runs, 0, 0);
    }
    // and with linear keys, crossings half way between two
    for n in [200usize, 255, 256, 257, 300, 450] {
        let mut times: Vec<i64> = (1..512).collect();
        rng.shuffle(&mut times);
        times.truncate(n - 2);
        times.extend([0, 512]);
        times.sort();
        let times = times.iter().map(|t| 2 * t).collect();
        let vals = (0..n).map(|_| if rng.chance(1, 5) { 4 } else { 0 }).collect();
        let p = rng.range(1, 3) as u64;
        let t = Float { times, vals, steps: (0..n).map(|_| rng.chance(p, 4)).collect(), vden: 4.0 };
        let mut runs = vec![];
        for _ in 0..4 {
            let (a, b) = (4 * rng.range(-2048, 2048), 4 * rng.range(-2048, 2048));
            runs.push((a, b, 2));
            runs.push((b, a, 2));
        }
        record_c04(rec, "large", &t, &runs, 0, 0);
    }
    // far from zero: ratios lose resolution, edges must still come out once per loop, and end
    for (e, coarse) in [(14u32, 2i64), (17, 16), (20, 128), (23, 1024), (24, 2048), (25, 4096), (26, 8192)] {
        for _ in 0..(if args.thorough { 60 } else { 6 }) {
            let (t, ths) = random_float(&mut rng);
            let b = 1i64 << e;
            let base = if rng.chance(1, 2) { b } else { -b };
            let step = (1i64 << e.saturating_sub(23)).max(1) * 2; // representable loop numbers
            let mut runs = vec![];
            for _ in 0..6 {
                let (lo, hi) = (rng.range(0, 2) * step * 4096, rng.range(0, 3) * step * 4096);
                let s = if base < 0 { -1 } else { 1 };
                let th = *rng.pick(&ths);
                runs.push((s * lo, s * hi, th));
                runs.push((s * hi, s * lo, th));
            }
            record_c04(rec, "far", &t, &runs, base, 4 * coarse);
        }
    }
}
