//! C17, C18: the two IK jobs.  Observations are geometric facts about the corrected joints,
//! computed in double precision from the job's inputs and corrections alone.
use crate::num::{qd, Rng};
use crate::rec::{guard, res_name, Args, Rec};
use glam::{Mat4, Quat, Vec3A};
use ozz_animation_rs::*;
use serde_json::{json, Value};

type V = [f64; 3];
type Q = [f64; 4];
/// columns
type M = [[f64; 4]; 4];

fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn mul(a: V, k: f64) -> V {
    a.map(|x| x * k)
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
/// zero for a zero vector
fn unit(a: V) -> V {
    let l = len(a);
    if l > 0.0 {
        mul(a, 1.0 / l)
    } else {
        [0.0; 3]
    }
}
fn qrot(q: Q, v: V) -> V {
    let u = [q[0], q[1], q[2]];
    let t = mul(cross(u, v), 2.0);
    add(add(v, mul(t, q[3])), cross(u, t))
}
fn qconj(q: Q) -> Q {
    [-q[0], -q[1], -q[2], q[3]]
}
fn point(m: &M, p: V) -> V {
    add(vector(m, p), [m[3][0], m[3][1], m[3][2]])
}
fn vector(m: &M, p: V) -> V {
    let mut r = [0.0; 3];
    for (i, x) in r.iter_mut().enumerate() {
        *x = m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2];
    }
    r
}
fn pos(m: &M) -> V {
    [m[3][0], m[3][1], m[3][2]]
}
fn inv_vector(m: &M, v: V) -> V {
    let (a, b, c) = ([m[0][0], m[0][1], m[0][2]], [m[1][0], m[1][1], m[1][2]], [m[2][0], m[2][1], m[2][2]]);
    let det = dot(a, cross(b, c));
    [dot(v, cross(b, c)) / det, dot(v, cross(c, a)) / det, dot(v, cross(a, b)) / det]
}
fn inv_point(m: &M, p: V) -> V {
    inv_vector(m, sub(p, pos(m)))
}
fn of_mat4(m: &Mat4) -> M {
    m.to_cols_array_2d().map(|c| c.map(|x| x as f64))
}
fn v3(v: V) -> Vec3A {
    Vec3A::new(v[0] as f32, v[1] as f32, v[2] as f32)
}
fn d3(v: Vec3A) -> V {
    v.to_array().map(|x| x as f64)
}
fn d4(q: Quat) -> Q {
    q.to_array().map(|x| x as f64)
}
fn trs(t: V, q: Q, s: V) -> Mat4 {
    let c = [qrot(q, [1.0, 0.0, 0.0]), qrot(q, [0.0, 1.0, 0.0]), qrot(q, [0.0, 0.0, 1.0])];
    let col = |i: usize| [c[i][0] * s[i], c[i][1] * s[i], c[i][2] * s[i], 0.0].map(|x| x as f32);
    Mat4::from_cols_array_2d(&[col(0), col(1), col(2), [t[0] as f32, t[1] as f32, t[2] as f32, 1.0]])
}

fn rvec(r: &mut Rng) -> V {
    [0; 3].map(|_| r.unit() * 2.0 - 1.0)
}
fn runit(r: &mut Rng) -> V {
    if r.chance(1, 6) {
        return *r.pick(&AXES);
    }
    loop {
        let v = rvec(r);
        if len(v) > 0.1 {
            return unit(v);
        }
    }
}
fn rquat(r: &mut Rng) -> Q {
    if r.chance(1, 8) {
        return *r.pick(&[[0.0, 0.0, 0.0, 1.0], [1.0, 0.0, 0.0, 0.0], [0.0, 0.7071067811865476, 0.0, 0.7071067811865476], [0.0, 0.0, 1.0, 0.0]]);
    }
    loop {
        let v = [0; 4].map(|_| r.unit() * 2.0 - 1.0);
        let n: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.2 {
            return v.map(|x| x / n);
        }
    }
}
const AXES: [V; 6] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]];

fn perp(r: &mut Rng, v: V) -> V {
    loop {
        let n = cross(v, runit(r));
        if len(n) > 0.2 * len(v) {
            return unit(n);
        }
    }
}
fn rangle(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 | 1 => 0.0,
        2 => *r.pick(&[1.5707964, -1.5707964, 3.1415927, -3.1415927, 0.01, -0.01, 6.0]),
        3 => *r.pick(&[6.2831855, -7.5, 9.0, 12.5, -31.0, 100.0, 1e-3]),
        _ => ((r.unit() * 2.0 - 1.0) * 3.1) as f32,
    }
}
fn rweight(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, -1.0, -1e-9, f32::NEG_INFINITY]),
        1 => *r.pick(&[2.0, 1.0000001, f32::INFINITY]),
        2 => *r.pick(&[1e-9, 1e-3, 2e-4, 3e-3, 0.5, 0.999, 0.9975, 0.9997, 0.99999994]),
        3 | 4 => r.unit() as f32,
        _ => 1.0,
    }
}
fn rscale(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => 2f64.powi(r.range(-4, 4) as i32),
        2 => -(r.unit() * 1.5 + 0.5),
        _ => r.unit() * 1.5 + 0.5,
    }
}

const U: f64 = 8192.0;
fn iv(v: V) -> Value {
    json!(v.map(|x| qd(x, U)))
}
/// squared length in millionths
fn len2(v: V) -> i64 {
    let v = d3(v3(v));
    qd(dot(v, v).min(1000.0), 1e6)
}
fn iq(q: Quat) -> Value {
    json!(d4(q).map(|x| qd(x, 4096.0)))
}
/// 1/4096 between the ends; what matters outside is on which side
fn iw(w: f32) -> i64 {
    if w <= 0.0 {
        0
    } else if w >= 1.0 {
        4096
    } else {
        qd(w as f64, 4096.0)
    }
}
/// "none" (identity expected), "part", "full"
fn wkind(w: f32) -> &'static str {
    if w <= 0.0 {
        "none"
    } else if w < 1.0 {
        "part"
    } else {
        "full"
    }
}
/// A weight next to zero or one seen through a magnifying glass: the correction in units of the
/// weight, or what it lacks to the full one in units of the missing weight.
fn fine(w: f32, c: Quat, f: Quat) -> Value {
    // an axis may be accepted that is only nearly normalized
    let unit4 = |q: Q| {
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        q.map(|x| x / n)
    };
    let (c, f, w) = (unit4(d4(c)), unit4(d4(f)), w as f64);
    if (1e-4..=4e-3).contains(&w) {
        json!(["lo", ([0, 1, 2].map(|i: usize| qd(c[i] / w, 4096.0)))])
    } else if (1e-4..=4e-3).contains(&(1.0 - w)) {
        json!(["hi", ([0, 1, 2, 3].map(|i: usize| qd((c[i] - f[i]) / (1.0 - w), 4096.0)))])
    } else {
        json!(["", []])
    }
}
fn bits4(q: Quat) -> [u32; 4] {
    q.to_array().map(|x| x.to_bits())
}

// ------------------------------------------------------------------------------------- two bones

#[derive(Clone, Debug)]
struct Two {
    start: Mat4,
    mid: Mat4,
    end: Mat4,
    target: V,
    axis: V,
    pole: V,
    twist: f32,
    soften: f32,
    weight: f32,
    /// integer bone lengths, distance and soften * 4 when they are exact in single precision
    exact: Option<[i64; 4]>,
}

fn two_set(j: &mut IKTwoBoneJob, c: &Two) {
    j.set_start_joint(c.start);
    j.set_mid_joint(c.mid);
    j.set_end_joint(c.end);
    j.set_target(v3(c.target));
    j.set_mid_axis(v3(c.axis));
    j.set_pole_vector(v3(c.pole));
    j.set_twist_angle(c.twist);
    j.set_soften(c.soften);
    j.set_weight(c.weight);
}

fn two_event(j: &mut IKTwoBoneJob, c: &Two) -> Value {
    let old = (bits4(j.start_joint_correction()), bits4(j.mid_joint_correction()), j.reached());
    two_set(j, c);
    let res = guard(|| j.run());
    let name = res_name(&res);
    let new = (bits4(j.start_joint_correction()), bits4(j.mid_joint_correction()), j.reached());
    if name != "ok" {
        return json!({"op": "two", "res": name, "kept": old == new, "axis2": len2(c.axis)});
    }
    // the job again as a new object, and with full weight
    let mut f = IKTwoBoneJob::default();
    two_set(&mut f, c);
    let same = matches!(guard(|| f.run()), Ok(Ok(()))) && (bits4(f.start_joint_correction()), bits4(f.mid_joint_correction()), f.reached()) == new;
    f.set_weight(1.0);
    let _ = guard(|| f.run());
    let inputs = j.target() == v3(c.target) && j.mid_axis() == v3(c.axis) && j.pole_vector() == v3(c.pole) && j.start_joint() == c.start
        && j.mid_joint() == c.mid && j.end_joint() == c.end && j.weight() == c.weight && j.soften() == c.soften && j.twist_angle() == c.twist;

    // everything in the start joint's space
    let (s, m, e) = (of_mat4(&c.start), of_mat4(&c.mid), of_mat4(&c.end));
    let here = |p: V| inv_point(&s, p);
    let (c1, c2) = (d4(j.start_joint_correction()), d4(j.mid_joint_correction()));
    let (m0, e0) = (here(pos(&m)), here(pos(&e)));
    let a = len(m0);
    let b = len(sub(e0, m0));
    let chain = a + b;
    let t = here(d3(v3(c.target)));
    // a point given in the middle joint's space, after the corrections
    let from_mid = |p: V| qrot(c1, here(point(&m, qrot(c2, p))));
    let end2 = from_mid(inv_point(&m, pos(&e)));
    let mid2 = from_mid([0.0; 3]);
    let axis = d3(v3(c.axis));
    let ax = sub(from_mid(axis), mid2);
    let ax0 = inv_vector(&s, vector(&m, axis));
    let pole = inv_vector(&s, d3(v3(c.pole)));
    let bone = |v: V| if chain > 0.0 { mul(v, 1.0 / chain) } else { v };
    let tw = c.twist as f64;
    let soften = (c.soften as f64).clamp(0.0, 1.0);
    json!({
        "op": "two", "res": "ok", "axis2": len2(c.axis), "same": same, "inputs": inputs,
        "a": qd(a / chain, U), "b": qd(b / chain, U), "d": qd((len(t) / chain).min(1e5), U), "da": qd(soften, U),
        "e": qd(len(end2) / chain, U),
        "ed": iv(unit(end2)), "td": iv(unit(t)), "pole": iv(unit(pole)),
        "ax": iv(unit(ax)), "ax0": iv(unit(ax0)), "md": iv(bone(mid2)),
        "b1": iv(bone(m0)), "b2": iv(bone(sub(e0, m0))),
        "cos": qd(tw.cos(), U), "sin": qd(tw.sin(), U),
        "wk": wkind(c.weight), "w": iw(c.weight),
        "c1": iq(j.start_joint_correction()), "c2": iq(j.mid_joint_correction()),
        "n1": fine(c.weight, j.start_joint_correction(), f.start_joint_correction()),
        "n2": fine(c.weight, j.mid_joint_correction(), f.mid_joint_correction()),
        "f1": iq(f.start_joint_correction()), "f2": iq(f.mid_joint_correction()),
        "id": j.start_joint_correction() == Quat::IDENTITY && j.mid_joint_correction() == Quat::IDENTITY,
        "reached": j.reached(),
        "exact": c.exact.map(|x| x.to_vec()).unwrap_or_default(),
    })
}

fn dist(r: &mut Rng, a: f64, b: f64, soften: f64) -> f64 {
    let chain = a + b;
    match r.below(10) {
        0 => chain * (1.0 + r.unit() * 3.0),
        1 => chain * (1.0 + (r.unit() - 0.5) * 0.02),
        2 => (a - b).abs() * (1.0 + (r.unit() - 0.5) * 0.05),
        3 => (a - b).abs() * r.unit(),
        4 | 5 => chain * soften + chain * (1.0 - soften) * r.unit() * 2.0,
        6 => chain * soften * (1.0 + (r.unit() - 0.5) * 0.02),
        7 => chain * 2f64.powi(r.range(1, 6) as i32),
        _ => (a - b).abs() + (chain - (a - b).abs()) * r.unit(),
    }
}

fn two_random(r: &mut Rng) -> Two {
    let big = 2f64.powi(if r.chance(1, 4) { r.range(-12, 12) } else { r.range(-3, 4) } as i32);
    let a = big * (0.1 + r.unit());
    let b = if r.chance(1, 5) { a } else { big * (0.1 + r.unit()) };
    let p = mul(rvec(r), 3.0 * big);
    let u1 = runit(r);
    let m = add(p, mul(u1, a));
    let n0;
    let u2 = match r.below(8) {
        0 => {
            n0 = perp(r, u1);
            u1
        }
        1 => {
            n0 = perp(r, u1);
            mul(u1, -1.0)
        }
        _ => loop {
            let u2 = runit(r);
            let n = cross(u1, u2);
            if len(n) > 0.1 {
                n0 = unit(n);
                break u2;
            }
        },
    };
    let e = add(m, mul(u2, b));
    let n = mul(n0, *r.pick(&[1.0, -1.0]));
    let flip = if r.chance(1, 5) { -1.0 } else { 1.0 };
    let sc = [rscale(r), rscale(r), rscale(r)].map(|x| [x.abs() * flip; 3]);
    let (start, mid, end) = (trs(p, rquat(r), sc[0]), trs(m, rquat(r), sc[1]), trs(e, rquat(r), sc[2]));
    let axis = unit(inv_vector(&of_mat4(&mid), n));
    let soften = *r.pick(&[1.0f32, 1.0, 1.0, 0.97, 0.9, 0.5, 0.1, 0.0, 2.0, -1.0, 0.75]);
    let td = match r.below(6) {
        0 => unit(sub(e, p)),
        1 => mul(unit(sub(e, p)), -1.0),
        2 => u1,
        _ => runit(r),
    };
    let td = if len(td) > 0.5 { td } else { runit(r) };
    let d = dist(r, a, b, (soften as f64).clamp(0.0, 1.0)).max(0.05 * (a + b));
    let d = if r.chance(1, 60) { 0.0 } else { d };
    let pole = loop {
        let v = runit(r);
        if r.chance(1, 20) || len(cross(v, td)) > 0.25 {
            break mul(v, *r.pick(&[1.0, 0.2, 7.0]));
        }
    };
    // a target at the root must be exactly there
    let target = if d == 0.0 { pos(&of_mat4(&start)) } else { add(p, mul(td, d)) };
    Two { start, mid, end, target, axis, pole, twist: rangle(r), soften, weight: rweight(r), exact: None }
}

/// A configuration of the model: everything along the axes, exact in single precision.
fn two_model(r: &mut Rng, v: &Value) -> Two {
    let g = |k: &str| v[k].as_i64().unwrap();
    let (a, b, d, s4) = (g("a"), g("b"), g("d"), g("s4"));
    let i = r.below(6);
    let u1 = AXES[i];
    let side = AXES[(i + *r.pick(&[1usize, 2, 4, 5])) % 6];
    let u2 = match g("bend") {
        0 => u1,
        1 => side,
        _ => mul(u1, -1.0),
    };
    let p = [0; 3].map(|_| r.range(-3, 3) as f64);
    let m = add(p, mul(u1, a as f64));
    let e = add(m, mul(u2, b as f64));
    let h = std::f64::consts::FRAC_1_SQRT_2;
    // frames whose matrices hold only 0 and +-1 (the rounding of h is corrected below)
    let frame = |r: &mut Rng, t: V| {
        let q = *r.pick(&[[0.0, 0.0, 0.0, 1.0], [h, 0.0, 0.0, h], [0.0, h, 0.0, h], [0.0, 0.0, h, h], [1.0, 0.0, 0.0, 0.0], [0.5, 0.5, 0.5, 0.5]]);
        Mat4::from_cols_array(&trs(t, q, [1.0; 3]).to_cols_array().map(|x| x.round()))
    };
    let (start, mid, end) = (frame(r, p), frame(r, m), frame(r, e));
    let n = if g("bend") == 1 { cross(u1, u2) } else { cross(u1, side) };
    let n = mul(n, *r.pick(&[1.0, -1.0]));
    let k = r.below(6);
    let td = AXES[k];
    let pole = AXES[(k + *r.pick(&[1usize, 2, 4, 5])) % 6];
    Two {
        start,
        mid,
        end,
        target: add(p, mul(td, d as f64)),
        axis: inv_vector(&of_mat4(&mid), n),
        pole,
        twist: if r.chance(1, 3) { rangle(r) } else { 0.0 },
        soften: s4 as f32 / 4.0,
        weight: g("w2") as f32 / 2.0,
        exact: Some([a, b, d, s4]),
    }
}

pub fn run_c17(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC17);
    let r = &mut rng;
    let emit = |rec: &mut Rec, kind: &str, cases: &[Two]| {
        let cfg = json!({"n": cases.len()});
        rec.begin(kind, &cfg);
        // one job object all along
        let mut j = IKTwoBoneJob::default();
        let ev = cases.iter().map(|c| two_event(&mut j, c)).collect();
        rec.end(kind, &cfg, ev);
    };
    if let Some(p) = &args.plan {
        let cases: Vec<Two> = p["two"].as_array().unwrap().iter().map(|v| two_model(r, v)).collect();
        for c in cases.chunks(60) {
            emit(rec, "model", c);
        }
    }
    // the same far outside the model's bounds, targets next to the boundaries
    for _ in 0..if args.thorough { 40 } else { 6 } {
        let cases: Vec<Two> = (0..50)
            .map(|_| {
                let (a, b) = (r.range(1, 2000), r.range(1, 2000));
                let s4 = *r.pick(&[4, 4, 4, 0, 1, 2, 3]);
                let d = match r.below(4) {
                    0 => (a - b).abs(),
                    1 => (a + b) * s4 / 4,
                    2 => a + b,
                    _ => r.range(0, 4000),
                };
                let d = (d + r.range(-1, 1)).max(0);
                let v = json!({"a": a, "b": b, "d": d, "s4": s4, "bend": r.range(0, 2), "w2": *r.pick(&[2, 2, 2, 1, 3, 0])});
                two_model(r, &v)
            })
            .collect();
        emit(rec, "model", &cases);
    }
    for _ in 0..if args.thorough { 1500 } else { 120 } {
        let mut cases: Vec<Two> = vec![];
        while cases.len() < 50 {
            let mut c = if cases.is_empty() || r.chance(1, 3) { two_random(r) } else { cases[cases.len() - 1].clone() };
            // change one thing only, as an application would between frames
            match r.below(6) {
                0 => c.weight = rweight(r),
                1 => c.twist = rangle(r),
                2 => c.soften = *r.pick(&[1.0f32, 0.9, 0.5]),
                _ => c = two_random(r),
            }
            if r.chance(1, 40) {
                c.axis = mul(c.axis, *r.pick(&[0.0, 0.9, 1.2, 5.0, 0.995, 1.005, 0.9997, 1.0003, 0.99, 1.01]));
            }
            cases.push(c);
        }
        emit(rec, "chain", &cases);
    }
    // axes that are not normal to the bones: weaker promises
    for _ in 0..if args.thorough { 200 } else { 20 } {
        let cases: Vec<Two> = (0..50)
            .map(|_| {
                let mut c = two_random(r);
                c.axis = runit(r);
                c
            })
            .collect();
        emit(rec, "wild", &cases);
    }
}

// ------------------------------------------------------------------------------------------- aim

#[derive(Clone, Debug)]
struct Aim {
    joint: Mat4,
    target: V,
    forward: V,
    offset: V,
    up: V,
    pole: V,
    twist: f32,
    weight: f32,
    /// squared distances from the joint to the axis and to the target when exact
    exact: Option<[i64; 2]>,
}

fn aim_set(j: &mut IKAimJob, c: &Aim) {
    j.set_joint(c.joint);
    j.set_target(v3(c.target));
    j.set_forward(v3(c.forward));
    j.set_offset(v3(c.offset));
    j.set_up(v3(c.up));
    j.set_pole_vector(v3(c.pole));
    j.set_twist_angle(c.twist);
    j.set_weight(c.weight);
}

fn aim_event(j: &mut IKAimJob, c: &Aim) -> Value {
    let old = (bits4(j.joint_correction()), j.reached());
    aim_set(j, c);
    let res = guard(|| j.run());
    let name = res_name(&res);
    let new = (bits4(j.joint_correction()), j.reached());
    if name != "ok" {
        return json!({"op": "aim", "res": name, "kept": old == new, "fwd2": len2(c.forward)});
    }
    let mut f = IKAimJob::default();
    aim_set(&mut f, c);
    let same = matches!(guard(|| f.run()), Ok(Ok(()))) && (bits4(f.joint_correction()), f.reached()) == new;
    f.set_weight(1.0);
    let _ = guard(|| f.run());
    let inputs = j.target() == v3(c.target) && j.forward() == v3(c.forward) && j.offset() == v3(c.offset) && j.up() == v3(c.up)
        && j.pole_vector() == v3(c.pole) && j.twist_angle() == c.twist && j.weight() == c.weight && j.joint() == c.joint;
    let m = of_mat4(&c.joint);
    let q = d4(j.joint_correction());
    let t = inv_point(&m, d3(v3(c.target)));
    let (o, fw) = (d3(v3(c.offset)), d3(v3(c.forward)));
    let size = len(t).max(len(o));
    let by = |v: V| if size > 0.0 { mul(v, 1.0 / size) } else { v };
    let ac = len(cross(o, unit(fw)));
    let tw = c.twist as f64;
    json!({
        "op": "aim", "res": "ok", "fwd2": len2(c.forward), "far": len(t) > 1e-3 * len(o).max(len(inv_vector(&m, pos(&m)))), "same": same, "inputs": inputs,
        // joint space, in units of the longer of target and offset; x: where the target is for the corrected joint
        "x": iv(by(qrot(qconj(q), t))), "o": iv(by(o)), "f": iv(unit(fw)),
        "r": qd(len(by(t)), U), "ac": qd(ac / if size > 0.0 { size } else { 1.0 }, U),
        "up": iv(unit(qrot(q, d3(v3(c.up))))), "td": iv(unit(t)), "pole": iv(unit(inv_vector(&m, d3(v3(c.pole))))),
        "cos": qd(tw.cos(), U), "sin": qd(tw.sin(), U),
        "wk": wkind(c.weight), "w": iw(c.weight),
        "c": iq(j.joint_correction()), "fc": iq(f.joint_correction()),
        "n": fine(c.weight, j.joint_correction(), f.joint_correction()),
        "id": j.joint_correction() == Quat::IDENTITY,
        "reached": j.reached(), "freached": f.reached(),
        "exact": c.exact.map(|x| x.to_vec()).unwrap_or_default(),
    })
}

fn aim_random(r: &mut Rng) -> Aim {
    let big = 2f64.powi(if r.chance(1, 4) { r.range(-12, 12) } else { r.range(-2, 5) } as i32);
    let s = match r.below(5) {
        0 => [0; 3].map(|_| (r.unit() * 1.5 + 0.5) * *r.pick(&[1.0, 1.0, -1.0])),
        _ => [rscale(r); 3],
    };
    let joint = trs(mul(rvec(r), 3.0 * big), rquat(r), s);
    let m = of_mat4(&joint);
    let forward = runit(r);
    let dist = big * (0.1 + r.unit());
    let t = mul(runit(r), dist);
    let offset = match r.below(8) {
        0 | 1 => [0.0; 3],
        2 => mul(forward, dist * (r.unit() * 4.0 - 2.0)),
        3 => mul(perp(r, forward), dist * (0.9 + 0.2 * r.unit())),
        4 => mul(perp(r, forward), dist * 2.0 * r.unit()),
        _ => mul(rvec(r), dist * 1.2),
    };
    let t = match r.below(12) {
        // where the axis already points, or the opposite
        0 => mul(forward, dist),
        1 => mul(forward, -dist),
        _ => t,
    };
    let up = match r.below(10) {
        0 => forward,
        _ => mul(runit(r), *r.pick(&[1.0, 1.0, 0.3, 5.0])),
    };
    let pole = match r.below(20) {
        0 => t,
        _ => vector(&m, mul(runit(r), *r.pick(&[1.0, 1.0, 0.3, 5.0]))),
    };
    let target = if r.chance(1, 40) { pos(&m) } else { point(&m, t) };
    Aim { joint, target, forward, offset, up, pole, twist: rangle(r), weight: rweight(r), exact: None }
}

fn aim_model(r: &mut Rng, v: &Value) -> Aim {
    let g = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>();
    let f3 = |k: &str| {
        let a = g(k);
        [a[0] as f64, a[1] as f64, a[2] as f64]
    };
    let h = std::f64::consts::FRAC_1_SQRT_2;
    let q = *r.pick(&[[0.0, 0.0, 0.0, 1.0], [h, 0.0, 0.0, h], [0.0, h, 0.0, h], [0.0, 0.0, h, h], [1.0, 0.0, 0.0, 0.0], [0.5, 0.5, 0.5, 0.5]]);
    let p = [0; 3].map(|_| r.range(-3, 3) as f64);
    let sc = *r.pick(&[1.0, 1.0, 2.0, 0.5, -1.0]);
    let joint = Mat4::from_cols_array(&trs(p, q, [1.0; 3]).to_cols_array().map(|x| x.round()));
    let joint = Mat4::from_cols(joint.x_axis * sc as f32, joint.y_axis * sc as f32, joint.z_axis * sc as f32, joint.w_axis);
    let (f, o, t) = (f3("f"), f3("o"), f3("t"));
    let along = dot(f, o);
    let ac2 = dot(o, o) - along * along;
    let up = *r.pick(&AXES);
    let pole = *r.pick(&AXES);
    Aim {
        target: point(&of_mat4(&joint), t),
        joint,
        forward: f,
        offset: o,
        up,
        pole,
        twist: if r.chance(1, 3) { rangle(r) } else { 0.0 },
        weight: v["w2"].as_i64().unwrap() as f32 / 2.0,
        exact: Some([ac2 as i64, dot(t, t) as i64]),
    }
}

pub fn run_c18(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC18);
    let r = &mut rng;
    let emit = |rec: &mut Rec, kind: &str, cases: &[Aim]| {
        let cfg = json!({"n": cases.len()});
        rec.begin(kind, &cfg);
        let mut j = IKAimJob::default();
        let ev = cases.iter().map(|c| aim_event(&mut j, c)).collect();
        rec.end(kind, &cfg, ev);
    };
    if let Some(p) = &args.plan {
        let cases: Vec<Aim> = p["aim"].as_array().unwrap().iter().map(|v| aim_model(r, v)).collect();
        for c in cases.chunks(60) {
            emit(rec, "model", c);
        }
    }
    // far outside the model's bounds: the target about as far as the axis passes
    for _ in 0..if args.thorough { 40 } else { 6 } {
        let cases: Vec<Aim> = (0..50)
            .map(|_| {
                let i = r.below(3);
                let mut f = [0i64; 3];
                f[i] = *r.pick(&[1, -1]);
                let o = [0; 3].map(|_| r.range(-1500, 1500));
                let ac2 = o[(i + 1) % 3] * o[(i + 1) % 3] + o[(i + 2) % 3] * o[(i + 2) % 3];
                let mut t = [0; 3].map(|_| r.range(-1500, 1500));
                if r.chance(4, 5) {
                    let m = (ac2 as f64).sqrt() as i64 + 1;
                    for _ in 0..20000 {
                        let (x, y) = (r.range(-m, m), r.range(-m, m));
                        let z2 = ac2 - x * x - y * y;
                        let z = (z2.max(0) as f64).sqrt().round() as i64;
                        if (z2 - z * z).abs() <= 3 {
                            t = [x, y, z];
                            break;
                        }
                    }
                }
                let v = json!({"f": f, "o": o, "t": t, "w2": *r.pick(&[2, 2, 2, 1, 3, 0])});
                aim_model(r, &v)
            })
            .collect();
        emit(rec, "model", &cases);
    }
    for _ in 0..if args.thorough { 1500 } else { 140 } {
        let mut cases: Vec<Aim> = vec![];
        while cases.len() < 50 {
            let mut c = if cases.is_empty() || r.chance(1, 3) { aim_random(r) } else { cases[cases.len() - 1].clone() };
            match r.below(6) {
                0 => c.weight = rweight(r),
                1 => c.twist = rangle(r),
                _ => c = aim_random(r),
            }
            if r.chance(1, 40) {
                c.forward = mul(c.forward, *r.pick(&[0.0, 0.9, 1.2, 5.0, 0.995, 1.005, 0.9997, 1.0003, 0.99, 1.01]));
            }
            cases.push(c);
        }
        emit(rec, "aim", &cases);
    }
}
