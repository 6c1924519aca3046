//! The SoA containers as a register machine over four independent lanes (C20).
use crate::num::*;
use crate::rec::*;
use glam::{Quat, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::math::SoaMat4;
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::simd::prelude::*;

const MASKS: [i32; 4] = [0, -1, i32::MIN, i32::MAX];

fn vi(v: &SoaVec3, k: usize) -> Vec<i64> {
    vec![q(v.x[k], 1.0), q(v.y[k], 1.0), q(v.z[k], 1.0)]
}
fn qi(v: &SoaQuat, k: usize) -> Vec<i64> {
    vec![q(v.x[k], 1.0), q(v.y[k], 1.0), q(v.z[k], 1.0), q(v.w[k], 1.0)]
}
fn vl(v: &SoaVec3) -> Value {
    json!((0..4).map(|k| vi(v, k)).collect::<Vec<_>>())
}
fn ql(v: &SoaQuat) -> Value {
    json!((0..4).map(|k| qi(v, k)).collect::<Vec<_>>())
}
fn tl(t: &SoaTransform) -> Value {
    json!((0..4).map(|k| [vi(&t.translation, k), qi(&t.rotation, k), vi(&t.scale, k)].concat()).collect::<Vec<_>>())
}
fn big<T>(v: &T) -> bool {
    let n = std::mem::size_of::<T>() / 4;
    unsafe { std::slice::from_raw_parts(v as *const T as *const f32, n) }.iter().any(|x| !(x.abs() <= 60.0))
}
fn lane_v(v: &SoaVec3, k: usize) -> SoaVec3 {
    SoaVec3::splat_vec3(Vec3::new(v.x[k], v.y[k], v.z[k]))
}
fn lane_q(v: &SoaQuat, k: usize) -> SoaQuat {
    SoaQuat::splat_quat(Quat::from_xyzw(v.x[k], v.y[k], v.z[k], v.w[k]))
}
fn same_v(a: &SoaVec3, b: &SoaVec3, k: usize) -> bool {
    [(a.x, b.x), (a.y, b.y), (a.z, b.z)].iter().all(|(p, q)| p[k].to_bits() == q[k].to_bits() || (p[k].is_nan() && q[k].is_nan()))
}
fn same_q(a: &SoaQuat, b: &SoaQuat, k: usize) -> bool {
    [(a.x, b.x), (a.y, b.y), (a.z, b.z), (a.w, b.w)].iter().all(|(p, q)| p[k].to_bits() == q[k].to_bits() || (p[k].is_nan() && q[k].is_nan()))
}
/// every lane of `r` is what the operation yields with that lane's operands in all four lanes
fn alone_v(r: &SoaVec3, f: &dyn Fn(usize) -> SoaVec3) -> bool {
    (0..4).all(|k| (0..4).all(|j| {
        let x = f(k);
        let mut y = *r;
        y.set_vec3(j, Vec3::new(r.x[k], r.y[k], r.z[k]));
        same_v(&y, &x, j)
    }))
}
fn alone_q(r: &SoaQuat, f: &dyn Fn(usize) -> SoaQuat) -> bool {
    (0..4).all(|k| (0..4).all(|j| {
        let x = f(k);
        let mut y = *r;
        y.set_quat(j, Quat::from_xyzw(r.x[k], r.y[k], r.z[k], r.w[k]));
        same_q(&y, &x, j)
    }))
}
fn hidden(v: [f32; 3], rng: &mut Rng) -> Vec3A {
    Vec3A::from_vec4(Vec4::new(v[0], v[1], v[2], *rng.pick(&[0.0, 7.0, f32::NAN])))
}

struct M {
    v: [SoaVec3; 2],
    q: [SoaQuat; 2],
    t: SoaTransform,
}

fn num(rng: &mut Rng) -> f32 {
    rng.range(-9, 9) as f32
}
fn arr<const N: usize>(rng: &mut Rng) -> [f32; N] {
    [0; N].map(|_| num(rng))
}
fn f4(rng: &mut Rng) -> f32x4 {
    f32x4::from_array([0; 4].map(|_| rng.range(-3, 3) as f32))
}

const VCONST: [(&str, SoaVec3); 9] = [("ZERO", SoaVec3::ZERO), ("ONE", SoaVec3::ONE), ("NEG_ONE", SoaVec3::NEG_ONE), ("X", SoaVec3::X), ("Y", SoaVec3::Y), ("Z", SoaVec3::Z),
    ("NEG_X", SoaVec3::NEG_X), ("NEG_Y", SoaVec3::NEG_Y), ("NEG_Z", SoaVec3::NEG_Z)];

fn step(m: &mut M, rng: &mut Rng, force: Option<&str>) -> Value {
    const OPS: [&str; 26] = ["vnew", "vset", "vget", "vsplat", "vsplatv", "vconst", "neg", "add", "sub", "vmul", "lerp", "vmask", "qnew", "qset", "qget", "qsplat", "qsplatq",
        "qconst", "conj", "qadd", "qmul", "qmuln", "qmask", "posw", "dot", "tget"];
    const TOPS: [&str; 7] = ["tset", "tsplat", "tnew", "tconst", "tmats", "tset", "tget"];
    let op = force.unwrap_or_else(|| if rng.chance(1, 4) { *rng.pick(&TOPS) } else { *rng.pick(&OPS) });
    let (a, b, d, k) = (rng.below(2), rng.below(2), rng.below(2), rng.below(4));
    let mut e = json!({"op": op, "a": a + 1, "b": b + 1, "d": d + 1, "k": k + 1, "alone": true});
    let mi: [usize; 4] = [0; 4].map(|_| rng.below(4));
    let mask = i32x4::from_array(mi.map(|i| MASKS[i]));
    let mk = rng.below(3);
    let put_v = |e: &mut Value, m: &mut M, r: SoaVec3| {
        e["out"] = vl(&r);
        m.v[d] = r;
    };
    let put_q = |e: &mut Value, m: &mut M, r: SoaQuat| {
        e["out"] = ql(&r);
        m.q[d] = r;
    };
    match op {
        "vnew" => {
            let (x, y, z) = (arr::<4>(rng), arr::<4>(rng), arr::<4>(rng));
            e["arg"] = json!((0..4).map(|i| qs(&[x[i], y[i], z[i]], 1.0)).collect::<Vec<_>>());
            put_v(&mut e, m, SoaVec3::new(x, y, z));
        }
        "vset" => {
            let v = arr::<3>(rng);
            e["arg"] = qs(&v, 1.0);
            m.v[d].set_vec3(k, Vec3::from_array(v));
            e["out"] = vl(&m.v[d]);
        }
        "vget" => e["out"] = qs(&m.v[a].vec3(k).to_array(), 1.0),
        "vsplat" => {
            let f = num(rng);
            e["arg"] = json!(q(f, 1.0));
            put_v(&mut e, m, SoaVec3::splat(f));
        }
        "vsplatv" => {
            let v = arr::<3>(rng);
            e["arg"] = qs(&v, 1.0);
            put_v(&mut e, m, SoaVec3::splat_vec3(Vec3::from_array(v)));
        }
        "vconst" => {
            let c = rng.pick(&VCONST);
            e["arg"] = json!(c.0);
            put_v(&mut e, m, c.1);
        }
        "neg" => {
            let r = m.v[a].neg();
            e["alone"] = json!(alone_v(&r, &|i| lane_v(&m.v[a], i).neg()));
            put_v(&mut e, m, r);
        }
        "add" => {
            let r = m.v[a].add(&m.v[b]);
            e["alone"] = json!(alone_v(&r, &|i| lane_v(&m.v[a], i).add(&lane_v(&m.v[b], i))));
            put_v(&mut e, m, r);
        }
        "sub" => {
            let r = m.v[a].sub(&m.v[b]);
            e["alone"] = json!(alone_v(&r, &|i| lane_v(&m.v[a], i).sub(&lane_v(&m.v[b], i))));
            put_v(&mut e, m, r);
        }
        "vmul" => {
            let f = f4(rng);
            e["arg"] = qs(f.as_array(), 1.0);
            let r = m.v[a].mul_num(f);
            e["alone"] = json!(alone_v(&r, &|i| lane_v(&m.v[a], i).mul_num(f32x4::splat(f[i]))));
            put_v(&mut e, m, r);
        }
        "lerp" => {
            let f = f4(rng);
            e["arg"] = qs(f.as_array(), 1.0);
            let r = SoaVec3::lerp(&m.v[a], &m.v[b], f);
            e["alone"] = json!(alone_v(&r, &|i| SoaVec3::lerp(&lane_v(&m.v[a], i), &lane_v(&m.v[b], i), f32x4::splat(f[i]))));
            put_v(&mut e, m, r);
        }
        "vmask" | "qmask" => {
            e["arg"] = json!(mi);
            e["how"] = json!(["and", "or", "xor"][mk]);
            // or with all ones is not a number
            let mask = if mk != 0 { i32x4::from_array(mi.map(|i| if MASKS[i] as u32 as i64 & 0x7fffffff != 0 { 0 } else { MASKS[i] })) } else { mask };
            if op == "vmask" {
                let go = |v: &SoaVec3, w: i32x4| match mk {
                    0 => v.and_num(w),
                    1 => v.or_num(w),
                    _ => v.xor_num(w),
                };
                let r = go(&m.v[a], mask);
                e["alone"] = json!(alone_v(&r, &|i| go(&lane_v(&m.v[a], i), i32x4::splat(mask[i]))));
                put_v(&mut e, m, r);
            } else {
                let go = |v: &SoaQuat, w: i32x4| match mk {
                    0 => v.and_num(w),
                    1 => v.or_num(w),
                    _ => v.xor_num(w),
                };
                let r = go(&m.q[a], mask);
                e["alone"] = json!(alone_q(&r, &|i| go(&lane_q(&m.q[a], i), i32x4::splat(mask[i]))));
                put_q(&mut e, m, r);
            }
        }
        "qnew" => {
            let (x, y, z, w) = (arr::<4>(rng), arr::<4>(rng), arr::<4>(rng), arr::<4>(rng));
            e["arg"] = json!((0..4).map(|i| qs(&[x[i], y[i], z[i], w[i]], 1.0)).collect::<Vec<_>>());
            put_q(&mut e, m, SoaQuat::new(x, y, z, w));
        }
        "qset" => {
            let v = arr::<4>(rng);
            e["arg"] = qs(&v, 1.0);
            m.q[d].set_quat(k, Quat::from_array(v));
            e["out"] = ql(&m.q[d]);
        }
        "qget" => e["out"] = qs(&m.q[a].quat(k).to_array(), 1.0),
        "qsplat" => {
            let f = num(rng);
            e["arg"] = json!(q(f, 1.0));
            put_q(&mut e, m, SoaQuat::splat(f));
        }
        "qsplatq" => {
            let v = arr::<4>(rng);
            e["arg"] = qs(&v, 1.0);
            put_q(&mut e, m, SoaQuat::splat_quat(Quat::from_array(v)));
        }
        "qconst" => {
            let c = *rng.pick(&[("ZERO", SoaQuat::ZERO), ("IDENTITY", SoaQuat::IDENTITY)]);
            e["arg"] = json!(c.0);
            put_q(&mut e, m, c.1);
        }
        "conj" => {
            let r = m.q[a].conjugate();
            e["alone"] = json!(alone_q(&r, &|i| lane_q(&m.q[a], i).conjugate()));
            put_q(&mut e, m, r);
        }
        "qadd" => {
            let r = m.q[a].add(&m.q[b]);
            e["alone"] = json!(alone_q(&r, &|i| lane_q(&m.q[a], i).add(&lane_q(&m.q[b], i))));
            put_q(&mut e, m, r);
        }
        "qmul" => {
            let r = m.q[a].mul(&m.q[b]);
            e["alone"] = json!(alone_q(&r, &|i| lane_q(&m.q[a], i).mul(&lane_q(&m.q[b], i))));
            put_q(&mut e, m, r);
        }
        "qmuln" => {
            let f = f4(rng);
            e["arg"] = qs(f.as_array(), 1.0);
            let r = m.q[a].mul_num(f);
            e["alone"] = json!(alone_q(&r, &|i| lane_q(&m.q[a], i).mul_num(f32x4::splat(f[i]))));
            put_q(&mut e, m, r);
        }
        "posw" => {
            // zeros of either sign
            if rng.chance(1, 3) {
                m.q[a].w[k] = *rng.pick(&[0.0, -0.0]);
            }
            e["neg"] = json!((0..4).map(|i| m.q[a].w[i].is_sign_negative()).collect::<Vec<_>>());
            e["src"] = ql(&m.q[a]);
            let r = m.q[a].positive_w();
            e["alone"] = json!(alone_q(&r, &|i| lane_q(&m.q[a], i).positive_w()));
            e["signs"] = json!((0..4).map(|i| r.w[i].is_sign_negative()).collect::<Vec<_>>());
            put_q(&mut e, m, r);
        }
        "dot" => {
            let r = m.q[a].dot(&m.q[b]);
            e["out"] = qs(r.as_array(), 1.0);
            e["alone"] = json!((0..4).all(|i| lane_q(&m.q[a], i).dot(&lane_q(&m.q[b], i)).to_array().iter().all(|x| x.to_bits() == r[i].to_bits())));
        }
        "tset" | "tsplat" => {
            let v = arr::<10>(rng);
            e["arg"] = qs(&v, 1.0);
            let x = Transform3A { translation: hidden([v[0], v[1], v[2]], rng), rotation: Quat::from_slice(&v[3..7]), scale: hidden([v[7], v[8], v[9]], rng) };
            if op == "tset" {
                m.t.set_transform(k, x);
            } else {
                m.t = SoaTransform::splat_transform(x);
            }
            e["out"] = tl(&m.t);
        }
        "tget" => {
            let t = m.t.transform(k);
            let (a, b, c) = (t.translation.to_array(), t.rotation.to_array(), t.scale.to_array());
            e["out"] = qs(&[a[0], a[1], a[2], b[0], b[1], b[2], b[3], c[0], c[1], c[2]], 1.0);
        }
        "tnew" => {
            m.t = SoaTransform::new(m.v[a], m.q[a], m.v[b]);
            e["out"] = tl(&m.t);
        }
        "tconst" => {
            let c = *rng.pick(&[("ZERO", SoaTransform::ZERO), ("IDENTITY", SoaTransform::IDENTITY)]);
            e["arg"] = json!(c.0);
            m.t = c.1;
            e["out"] = tl(&m.t);
        }
        "tmats" => {
            // rotations: the 24 unit quaternions of integer or half-integer components, observed doubled
            for i in 0..4 {
                let q = if rng.chance(1, 2) {
                    let mut q = [0.0; 4];
                    q[rng.below(4)] = *rng.pick(&[1.0, -1.0]);
                    q
                } else {
                    [0; 4].map(|_| *rng.pick(&[0.5f32, -0.5]))
                };
                m.q[a].set_quat(i, Quat::from_array(q));
            }
            let r = SoaMat4::from_affine(&m.v[a], &m.q[a], &m.v[b]);
            e["rot"] = json!((0..4).map(|i| qs(&[m.q[a].x[i], m.q[a].y[i], m.q[a].z[i], m.q[a].w[i]], 2.0)).collect::<Vec<_>>());
            e["out"] = json!((0..4).map(|i| r.cols.iter().map(|c| q(c[i], 1.0)).collect::<Vec<_>>()).collect::<Vec<_>>());
            e["alone"] = json!((0..4).all(|i| {
                let x = SoaMat4::from_affine(&lane_v(&m.v[a], i), &lane_q(&m.q[a], i), &lane_v(&m.v[b], i));
                (0..16).all(|c| x.cols[c].to_array().iter().all(|y| y.to_bits() == r.cols[c][i].to_bits()))
            }));
            m.q[a] = SoaQuat::IDENTITY;
        }
        o => panic!("{o}"),
    }
    e["res"] = json!("ok");
    e
}

/// All operations on random operands, then with other contents of lane `k`: which lanes came out the same?
fn poison(k: usize, rng: &mut Rng) -> Vec<Value> {
    let lane = |rng: &mut Rng| {
        let mut v = [0f32; 4];
        for x in v.iter_mut() {
            *x = rng.range(-40, 40) as f32 / 8.0;
        }
        v
    };
    let mut u = [SoaQuat::ZERO; 2];
    let mut v = [SoaVec3::ZERO; 2];
    for i in 0..4 {
        for j in 0..2 {
            u[j].set_quat(i, Quat::from_array(lane(rng)));
            v[j].set_vec3(i, Vec3::from_slice(&lane(rng)[..3]));
        }
    }
    let f = [0; 4].map(|_| rng.range(0, 8) as f32 / 8.0);
    let m = [0; 4].map(|_| rng.next() as i32);
    let all = |u: &[SoaQuat; 2], v: &[SoaVec3; 2], f: [f32; 4], m: [i32; 4]| -> Vec<(&'static str, Vec<f32x4>)> {
        let (f, m) = (f32x4::from_array(f), i32x4::from_array(m));
        let vv = |x: SoaVec3| vec![x.x, x.y, x.z];
        let qq = |x: SoaQuat| vec![x.x, x.y, x.z, x.w];
        vec![
            ("neg", vv(v[0].neg())),
            ("add", vv(v[0].add(&v[1]))),
            ("sub", vv(v[0].sub(&v[1]))),
            ("vmul", vv(v[0].mul_num(f))),
            ("lerp", vv(SoaVec3::lerp(&v[0], &v[1], f))),
            ("vand", vv(v[0].and_num(m))),
            ("vor", vv(v[0].or_num(m))),
            ("vxor", vv(v[0].xor_num(m))),
            ("conj", qq(u[0].conjugate())),
            ("qadd", qq(u[0].add(&u[1]))),
            ("qmul", qq(u[0].mul(&u[1]))),
            ("qmuln", qq(u[0].mul_num(f))),
            ("norm", qq(u[0].normalize())),
            ("dot", vec![u[0].dot(&u[1])]),
            ("nlerp", qq(u[0].nlerp(&u[1], f))),
            ("qand", qq(u[0].and_num(m))),
            ("qor", qq(u[0].or_num(m))),
            ("qxor", qq(u[0].xor_num(m))),
            ("posw", qq(u[0].positive_w())),
            ("mats", SoaMat4::from_affine(&v[0], &u[0], &v[1]).cols.to_vec()),
        ]
    };
    let before = all(&u, &v, f, m);
    let what = *rng.pick(&["zero", "opposite", "nan", "inf", "huge", "tiny", "unit", "mixed"]);
    let odd = |rng: &mut Rng| match what {
        "zero" => 0.0,
        "nan" => f32::NAN,
        "inf" => *rng.pick(&[f32::INFINITY, f32::NEG_INFINITY]),
        "huge" => *rng.pick(&[3e38f32, -3e38]),
        "tiny" => *rng.pick(&[1e-40f32, -1e-38]),
        "unit" => 0.5,
        _ => *rng.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, 1e-30, 1e30, 1.0]),
    };
    let mut f2 = f;
    let mut m2 = m;
    for j in 0..2 {
        let q = [0; 4].map(|_| odd(rng));
        u[j].set_quat(k, Quat::from_array(q));
        v[j].set_vec3(k, Vec3::from_slice(&[0; 3].map(|_| odd(rng))));
    }
    f2[k] = odd(rng);
    m2[k] = *rng.pick(&MASKS);
    if what == "opposite" {
        let q = u[0].quat((k + 1) % 4);
        u[0].set_quat(k, q);
        u[1].set_quat(k, -q);
        let p = v[0].vec3((k + 1) % 4);
        v[0].set_vec3(k, p);
        v[1].set_vec3(k, -p);
        f2[k] = 0.5;
    }
    let after = all(&u, &v, f2, m2);
    before
        .iter()
        .zip(after.iter())
        .map(|((n, a), (_, b))| {
            let same: Vec<bool> = (0..4).map(|i| a.iter().zip(b.iter()).all(|(x, y)| x[i].to_bits() == y[i].to_bits() || (x[i].is_nan() && y[i].is_nan()))).collect();
            json!({"op": "poison", "of": n, "what": what, "k": k + 1, "same": same, "res": "ok"})
        })
        .collect()
}

fn halves(f: f32) -> [u32; 2] {
    [f.to_bits() >> 16, f.to_bits() & 0xffff]
}

pub fn run_c20(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC20);
    // integer register machine
    for _ in 0..(if args.thorough { 1500 } else { 150 }) {
        let mut m = M { v: [SoaVec3::ZERO; 2], q: [SoaQuat::ZERO; 2], t: SoaTransform::ZERO };
        let hdr = json!({});
        rec.begin("machine", &hdr);
        let mut ev = vec![];
        for _ in 0..100 {
            let e = match guard(|| step(&mut m, &mut rng, None)) {
                Ok(e) => e,
                Err(()) => json!({"op": "any", "res": "panic"}),
            };
            let dead = e["res"] == "panic";
            ev.push(e);
            if dead {
                break;
            }
            // keep everything exact
            for d in 0..2 {
                if big(&m.v[d]) {
                    let x = SoaVec3::new(arr(&mut rng), arr(&mut rng), arr(&mut rng));
                    m.v[d] = x;
                    ev.push(json!({"op": "vload", "d": d + 1, "out": vl(&x), "res": "ok"}));
                }
                if big(&m.q[d]) {
                    let x = SoaQuat::new(arr(&mut rng), arr(&mut rng), arr(&mut rng), arr(&mut rng));
                    m.q[d] = x;
                    ev.push(json!({"op": "qload", "d": d + 1, "out": ql(&x), "res": "ok"}));
                }
            }
        }
        rec.end("machine", &hdr, ev);
    }
    // normalization and interpolation of rotations, observed in 1/2048
    for _ in 0..(if args.thorough { 400 } else { 40 }) {
        let hdr = json!({});
        rec.begin("unit", &hdr);
        let mut ev = vec![];
        for _ in 0..25 {
            let mut a = SoaQuat::ZERO;
            let mut b = SoaQuat::ZERO;
            let mk = |rng: &mut Rng| loop {
                let v = [0; 4].map(|_| rng.range(-40, 40));
                if v.iter().map(|x| x * x).sum::<i64>() >= 100 {
                    return v.map(|x| x as f32);
                }
            };
            let close = rng.chance(1, 3);
            for i in 0..4 {
                a.set_quat(i, Quat::from_array(mk(&mut rng)));
                b.set_quat(i, Quat::from_array(mk(&mut rng)));
                if close {
                    // almost, but not quite, of length one
                    let q = *rng.pick(&[[0.6f32, 0.0, 0.8, 0.0], [0.5, 0.5, -0.5, 0.5], [0.0, 0.0, 0.0, -1.0]]);
                    let g = 1.0 + rng.range(-9, 9) as f32 * *rng.pick(&[1e-3, 1e-4, 1e-6]);
                    a.set_quat(i, Quat::from_array(q.map(|x| x * g)));
                }
            }
            let f: [i64; 4] = [0; 4].map(|_| rng.range(0, 8));
            let ff = f32x4::from_array(f.map(|x| x as f32 / 8.0));
            // each lane at its own size
            let (a0, b0) = (a, b);
            if !close {
                for i in 0..4 {
                    let w = 2f32.powi(*rng.pick(&[0, 0, 0, -20, -50, 20, 50]));
                    a.set_quat(i, a.quat(i) * w);
                    b.set_quat(i, b.quat(i) * w);
                }
            }
            let n = a.normalize();
            let l = a.nlerp(&b, ff);
            let fix = |x: &SoaQuat| json!((0..4).map(|i| qs(&x.quat(i).to_array(), 32768.0)).collect::<Vec<_>>());
            ev.push(json!({"op": "unit", "res": "ok", "a": if close { json!((0..4).map(|i| qs(&a.quat(i).to_array(), 256.0)).collect::<Vec<_>>()) } else { ql(&a0) }, "b": ql(&b0), "f": f, "close": close, "norm": fix(&n), "nlerp": fix(&l),
                "alone": alone_q(&n, &|i| lane_q(&a, i).normalize()) && alone_q(&l, &|i| lane_q(&a, i).nlerp(&lane_q(&b, i), f32x4::splat(ff[i])))}));
        }
        rec.end("unit", &hdr, ev);
    }
    // anything in one lane leaves the others alone
    for _ in 0..(if args.thorough { 300 } else { 30 }) {
        let hdr = json!({});
        rec.begin("poison", &hdr);
        let mut ev = vec![];
        for _ in 0..20 {
            let k = rng.below(4);
            let e = guard(|| poison(k, &mut rng)).unwrap_or_else(|_| vec![json!({"op": "any", "res": "panic"})]);
            ev.extend(e);
        }
        rec.end("poison", &hdr, ev);
    }
    // bit masks over arbitrary patterns, extreme constants
    for round in 0..(if args.thorough { 200 } else { 20 }) {
        let hdr = json!({});
        rec.begin("bits", &hdr);
        let mut ev = vec![];
        for _ in 0..20 {
            let mut bits = || [0; 4].map(|_| f32::from_bits(rng.next() as u32));
            let v = SoaVec3::new(bits(), bits(), bits());
            let u = SoaQuat::new(bits(), bits(), bits(), bits());
            let w = i32x4::from_array([0; 4].map(|_| rng.next() as i32));
            let lanes = |x: &SoaVec3| json!((0..4).map(|k| json!([halves(x.x[k]), halves(x.y[k]), halves(x.z[k])])).collect::<Vec<_>>());
            let lanesq = |x: &SoaQuat| json!((0..4).map(|k| json!([halves(x.x[k]), halves(x.y[k]), halves(x.z[k]), halves(x.w[k])])).collect::<Vec<_>>());
            ev.push(json!({"op": "bits", "res": "ok", "v": lanes(&v), "q": lanesq(&u), "w": (0..4).map(|k| halves(f32::from_bits(w[k] as u32))).collect::<Vec<_>>(),
                "vand": lanes(&v.and_num(w)), "vor": lanes(&v.or_num(w)), "vxor": lanes(&v.xor_num(w)),
                "qand": lanesq(&u.and_num(w)), "qor": lanesq(&u.or_num(w)), "qxor": lanesq(&u.xor_num(w)),
                "neg": lanes(&v.neg()), "conj": lanesq(&u.conjugate()), "posw": lanesq(&u.positive_w())}));
        }
        if round == 0 {
            let lanes = |x: &SoaVec3| json!((0..4).map(|k| json!([halves(x.x[k]), halves(x.y[k]), halves(x.z[k])])).collect::<Vec<_>>());
            for (n, c) in [("MIN", SoaVec3::MIN), ("MAX", SoaVec3::MAX), ("INFINITY", SoaVec3::INFINITY), ("NEG_INFINITY", SoaVec3::NEG_INFINITY), ("NAN", SoaVec3::NAN)] {
                ev.push(json!({"op": "extreme", "res": "ok", "name": n, "v": lanes(&c)}));
            }
            ev.push(json!({"op": "extreme", "res": "ok", "name": "NAN", "v": lanes(&SoaTransform::NAN.scale)}));
            ev.push(json!({"op": "extreme", "res": "ok", "name": "NAN", "v": lanes(&SoaTransform::NAN.translation)}));
        }
        rec.end("bits", &hdr, ev);
    }
}
