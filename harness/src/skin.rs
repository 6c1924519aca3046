//! Skinning (C10).
use crate::num::*;
use crate::rec::*;
use glam::{Mat4, Vec3};
use ozz_animation_rs::*;
use serde_json::{json, Value};

fn mat(rng: &mut Rng, m: i64) -> Mat4 {
    let mut a = [0f32; 16];
    for (i, x) in a.iter_mut().enumerate() {
        *x = if i % 4 == 3 { (i == 15) as i32 as f32 } else { rng.range(-m, m) as f32 };
    }
    Mat4::from_cols_array(&a)
}

fn jm(m: &[Mat4]) -> Value {
    json!(m.iter().map(|m| m.to_cols_array().map(|x| x as i64)).collect::<Vec<_>>())
}

fn jv(v: &[Vec3], unit: f64) -> Value {
    let f = |x: f32| {
        let y = x as f64 * unit;
        if y.fract() == 0.0 {
            q(y as f32, 1.0)
        } else {
            NAN_Q
        }
    };
    json!(v.iter().map(|v| v.to_array().map(f)).collect::<Vec<_>>())
}

fn vecs(rng: &mut Rng, n: usize, m: i64) -> Vec<Vec3> {
    (0..n).map(|_| Vec3::new(rng.range(-m, m) as f32, rng.range(-m, m) as f32, rng.range(-m, m) as f32)).collect()
}

/// One run of the job.  `bad`: flat position of an index to put out of range.
fn run(rng: &mut Rng, nm: usize, n: usize, vc: usize, attr: u64, it: bool, bad: Option<usize>) -> Value {
    let ni = match rng.below(8) {
        0 => nm + 1,
        1 if nm > 1 => nm - 1,
        _ => nm,
    };
    // what a position of 1, a vector of 1, a weight of 1 are
    let pu = 2f32.powi(*rng.pick(&[0, 0, 0, -12, -30, 12, 30]));
    let nu = 2f32.powi(*rng.pick(&[0, 0, 0, -12, -30, 12, 30]));
    // many weights: few bits each, so that the sums stay exact
    let fine = if n <= 4 { 1 << 18 } else if n <= 8 { 1 << 17 } else { 8 };
    let wden: i64 = if n > 12 { 8 } else { *rng.pick(&[8, 8, 8192, fine]) };
    // weights next to nothing: few bits in the rest
    let (mm, vm) = if wden > 8192 { (1, 1) } else { (8, 9) };
    let mats: Vec<Mat4> = (0..nm).map(|_| mat(rng, mm)).collect();
    let its: Vec<Mat4> = (0..ni).map(|_| mat(rng, mm)).collect();
    let slack = rng.below(3);
    let mut idx: Vec<u16> = (0..n * vc + slack).map(|_| rng.below(nm) as u16).collect();
    if let Some(b) = bad {
        idx[b] = *rng.pick(&[nm as u16, nm as u16 + 1, 0xffff]);
    }
    // weights over 8; sometimes not normalized at all, the last one still completes them to one
    let mut w: Vec<i64> = vec![];
    for _ in 0..vc {
        let mut left = wden;
        for _ in 0..n - 1 {
            let x = match rng.below(6) {
                0 => rng.range(-wden / 2, wden * 3 / 2),
                1 => rng.range(0, 4).min(left.max(0)),
                2 => rng.range(0, 8) * wden / 8,
                _ => rng.range(0, left.max(0)),
            };
            left -= x;
            w.push(x);
        }
    }
    let wf: Vec<f32> = w.iter().map(|x| *x as f32 / wden as f32).chain((0..slack).map(|_| 7.0)).collect();
    let pos: Vec<Vec3> = vecs(rng, vc + rng.clone().below(3), vm).iter().map(|v| *v * pu).collect();
    let nor: Vec<Vec3> = vecs(rng, vc + rng.clone().below(2), vm).iter().map(|v| *v * nu).collect();
    let tan: Vec<Vec3> = vecs(rng, vc, vm).iter().map(|v| *v * nu).collect();
    let mut placed = mats.clone();
    placed.iter_mut().for_each(|m| m.w_axis *= glam::Vec4::new(pu, pu, pu, 1.0));
    let len = vc + rng.below(3);
    let mk = |rng: &mut Rng| vecs(rng, len, 9).iter().map(|v| *v + 0.3).collect::<Vec<Vec3>>();
    let (mut o0, mut o1, mut o2) = (mk(rng), mk(rng), mk(rng));
    let before = (o0.clone(), o1.clone(), o2.clone());
    let (r, valid) = {
        let mut job: SkinningJobRef = SkinningJob::default();
        job.set_vertex_count(vc);
        job.set_influences_count(n);
        job.set_joint_matrices(&placed[..]);
        if it {
            job.set_joint_it_matrices(&its[..]);
        }
        job.set_joint_indices(&idx[..]);
        if n > 1 || rng.chance(1, 2) {
            job.set_joint_weights(&wf[..]);
        }
        job.set_in_positions(&pos[..]);
        job.set_out_positions(&mut o0[..]);
        if attr > 1 {
            job.set_in_normals(&nor[..]);
            job.set_out_normals(&mut o1[..]);
        }
        if attr > 2 {
            job.set_in_tangents(&tan[..]);
            job.set_out_tangents(&mut o2[..]);
        }
        let valid = guard(|| job.validate());
        (guard(|| job.run()), valid)
    };
    let same: Vec<[bool; 3]> = (0..len).map(|i| [o0[i] == before.0[i], o1[i] == before.1[i], o2[i] == before.2[i]]).collect();
    let (pu, nu, wd) = (1.0 / pu as f64, 1.0 / nu as f64, wden as f64);
    json!({"op": "run", "n": n, "vc": vc, "attr": attr, "it": it, "mats": jm(&mats), "its": jm(&its), "idx": idx, "w": w, "wden": wden,
        "pos": jv(&pos, pu), "nor": jv(&nor, nu), "tan": jv(&tan, nu), "valid": valid.ok(),
        "op_pos": jv(&o0, pu * wd), "op_nor": jv(&o1, nu * wd), "op_tan": jv(&o2, nu * wd), "same": same, "res": res_name(&r)})
}

/// A mesh of `vc` vertices which repeats the same `p` vertices over and over: each of them must come out
/// the same every time, `outs` has the distinct outputs of each.
fn tiled(rng: &mut Rng, n: usize, p: usize, vc: usize, attr: u64, it: bool) -> Value {
    let nm = rng.range(1, 6) as usize;
    let mats: Vec<Mat4> = (0..nm).map(|_| mat(rng, 8)).collect();
    let its: Vec<Mat4> = (0..nm).map(|_| mat(rng, 8)).collect();
    let idx: Vec<u16> = (0..n * p).map(|_| rng.below(nm) as u16).collect();
    let w: Vec<i64> = (0..(n - 1) * p).map(|_| rng.range(0, 8)).collect();
    let v: [Vec<Vec3>; 3] = [vecs(rng, p, 9), vecs(rng, p, 9), vecs(rng, p, 9)];
    let len = vc + p;
    let idx_l: Vec<u16> = idx.iter().copied().cycle().take(n * vc).collect();
    let w_l: Vec<f32> = w.iter().map(|x| *x as f32 / 8.0).cycle().take((n - 1) * vc).collect();
    let v_l: Vec<Vec<Vec3>> = v.iter().map(|v| v.iter().copied().cycle().take(vc).collect()).collect();
    let mut o = vec![vec![Vec3::splat(0.3); len]; 3];
    let r = {
        let mut job: SkinningJobRef = SkinningJob::default();
        job.set_vertex_count(vc);
        job.set_influences_count(n);
        job.set_joint_matrices(&mats[..]);
        if it {
            job.set_joint_it_matrices(&its[..]);
        }
        job.set_joint_indices(&idx_l[..]);
        if n > 1 {
            job.set_joint_weights(&w_l[..]);
        }
        let [o0, o1, o2] = &mut o[..] else { unreachable!() };
        job.set_in_positions(&v_l[0][..]);
        job.set_out_positions(&mut o0[..]);
        if attr > 1 {
            job.set_in_normals(&v_l[1][..]);
            job.set_out_normals(&mut o1[..]);
        }
        if attr > 2 {
            job.set_in_tangents(&v_l[2][..]);
            job.set_out_tangents(&mut o2[..]);
        }
        guard(|| job.run())
    };
    let mut outs: Vec<Value> = vec![];
    let mut same = true;
    for (a, o) in o.iter().enumerate() {
        let end = if a < attr as usize { vc } else { 0 };
        same &= o[end..].iter().all(|x| *x == Vec3::splat(0.3));
        let mut d: Vec<Vec<Vec3>> = vec![vec![]; p];
        for (i, x) in o[..end].iter().enumerate() {
            let d = &mut d[i % p];
            if d.len() < 4 && !d.iter().any(|y| y == x) {
                d.push(*x);
            }
        }
        outs.push(json!(d.iter().map(|d| jv(d, 8.0)).collect::<Vec<_>>()));
    }
    json!({"op": "tiled", "n": n, "vc": vc, "p": p, "attr": attr, "it": it, "mats": jm(&mats), "its": jm(&its), "idx": idx, "w": w, "wden": 8,
        "pos": jv(&v[0], 1.0), "nor": jv(&v[1], 1.0), "tan": jv(&v[2], 1.0), "op_pos": outs[0], "op_nor": outs[1], "op_tan": outs[2],
        "same": same, "res": res_name(&r)})
}

pub fn run_c10(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC10);
    let cfg = json!({});
    let reps = if args.thorough { 40 } else { 4 };
    for c in args.plan.as_ref().unwrap()["cases"].as_array().unwrap() {
        let g = |k: &str| c[k].as_u64().unwrap();
        let (n, vc, attr, it) = (g("n") as usize, g("vc") as usize, g("attr"), c["it"].as_bool().unwrap());
        rec.begin("model", &json!({"case": c}));
        let mut ev = vec![];
        for _ in 0..reps {
            let nm = rng.range(1, 6) as usize;
            ev.push(run(&mut rng, nm, n, vc, attr, it, None));
        }
        for _ in 0..reps / 2 {
            if n * vc > 0 {
                let b = rng.below(n * vc);
                let nm = rng.range(1, 6) as usize;
                ev.push(run(&mut rng, nm, n, vc, attr, it, Some(b)));
            }
        }
        rec.end("model", &cfg, ev);
    }
    // larger influence counts and vertex counts
    for _ in 0..(if args.thorough { 1500 } else { 120 }) {
        rec.begin("random", &cfg);
        let n = if rng.chance(1, 4) { rng.range(13, 70) } else { rng.range(1, 12) } as usize;
        let vc = rng.range(1, 12) as usize;
        let (attr, it) = (rng.range(1, 3) as u64, rng.chance(1, 2));
        let bad = rng.chance(1, 5).then(|| rng.below(n * vc));
        let nm = rng.range(1, 6) as usize;
        let e = run(&mut rng, nm, n, vc, attr, it, bad);
        rec.end("random", &cfg, vec![e]);
    }
    // more joints and vertices than a byte counts
    for i in 0..(if args.thorough { 24 } else { 8 }) {
        rec.begin("large", &cfg);
        let (n, vc) = (i % 8 + 1, *rng.pick(&[255usize, 256, 257, 300]));
        let (attr, it, nm) = (rng.range(1, 3) as u64, rng.chance(1, 2), *rng.pick(&[255, 256, 257, 300]));
        let bad = rng.chance(1, 4).then(|| rng.below(n * vc));
        let e = run(&mut rng, nm, n, vc, attr, it, bad);
        rec.end("large", &cfg, vec![e]);
    }
    // more vertices than 16 bits count
    for i in 0..(if args.thorough { 16 } else { 8 }) {
        rec.begin("tiled", &cfg);
        let (p, vc) = (rng.range(3, 11) as usize, *rng.pick(&[65535usize, 65536, 65537, 70000, 132000]));
        let (attr, it) = (rng.range(1, 3) as u64, rng.chance(1, 2));
        let e = tiled(&mut rng, i % 8 + 1, p, vc, attr, it);
        rec.end("tiled", &cfg, vec![e]);
    }
}
