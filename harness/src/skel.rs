//! Skeleton queries (C06) and local-to-model updates (C05).
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use glam::Mat4;
use ozz_animation_rs::*;
use serde_json::{json, Value};

fn plan_forests(args: &Args) -> Vec<Vec<i16>> {
    args.plan.as_ref().map_or(vec![], |p| {
        p["forests"].as_array().unwrap().iter().map(|f| f.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i16).collect()).collect()
    })
}

fn visits(f: impl FnOnce(&mut Vec<(i16, i16)>)) -> Result<Value, ()> {
    guard(|| {
        let mut v = vec![];
        f(&mut v);
        json!(v)
    })
}

fn push(ev: &mut Vec<Value>, mut x: Value, v: Result<Value, ()>) {
    match v {
        Ok(v) => {
            x["v"] = v;
            x["res"] = json!("ok");
        }
        Err(_) => x["res"] = json!("panic"),
    }
    ev.push(x);
}

fn queries(rec: &mut Rec, kind: &str, spec: &SkelSpec, starts: &[i32]) {
    let n = spec.parents.len();
    let cfg = json!({"parents": spec.parents, "names": spec.names});
    rec.begin(kind, &cfg);
    let sk = spec.skeleton();
    let mut ev = vec![];
    let shape = guard(|| {
        json!({"op": "shape", "res": "ok", "joints": sk.num_joints(), "aligned": sk.num_aligned_joints(), "soa": sk.num_soa_joints(),
            "parents": sk.joint_parents(),
            "parent": (0..n).map(|j| match j % 3 { 0 => sk.joint_parent(j as i16), 1 => sk.joint_parent(j as i32), _ => sk.joint_parent(j) }).collect::<Vec<_>>(),
            "leaf": (0..n).map(|j| match j % 3 { 0 => sk.is_leaf(j), 1 => sk.is_leaf(j as i32), _ => sk.is_leaf(j as i16) }).collect::<Vec<_>>()})
    });
    ev.push(shape.unwrap_or(json!({"op": "shape", "res": "panic"})));
    for (i, from) in starts.iter().enumerate() {
        let v = visits(|v| match (i % 3, *from < 0) {
            (0, _) | (2, true) => sk.iter_depth_first(*from, |j, p| v.push((j, p))),
            (1, _) => sk.iter_depth_first(*from as i16, |j, p| v.push((j, p))),
            _ => sk.iter_depth_first(*from as usize, |j, p| v.push((j, p))),
        });
        push(&mut ev, json!({"op": "dfs", "from": from}), v);
    }
    let v = visits(|v| sk.iter_depth_first_reverse(|j, p| v.push((j, p))));
    push(&mut ev, json!({"op": "rev"}), v);
    let names = guard(|| {
        let of = |x: Option<i16>| x.map_or(-9, |v| v as i64);
        json!({"op": "names", "res": "ok",
            "name": (0..n).map(|j| sk.name_by_joint(j as i16).unwrap_or("<none>")).collect::<Vec<_>>(),
            "index": spec.names.iter().map(|s| of(sk.joint_by_name(s))).collect::<Vec<_>>(),
            "near": spec.names.iter().enumerate().map(|(j, s)| {
                let t = match j % 5 { 0 => format!("{s} "), 1 => s.trim().to_string(), 2 => s.to_lowercase(), 3 => s.to_uppercase(), _ => s.chars().skip(1).collect() };
                json!([t, of(sk.joint_by_name(&t))])
            }).collect::<Vec<_>>(),
            "count": sk.joint_names().len(),
            "missing": [of(sk.joint_by_name("no such joint")), sk.name_by_joint(-1).map_or(-9, |_| 0), sk.name_by_joint(n as i16).map_or(-9, |_| 0)]})
    });
    ev.push(names.unwrap_or(json!({"op": "names", "res": "panic"})));
    rec.end(kind, &cfg, ev);
}

pub fn some_names(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..n)
        .map(|i| match rng.below(9) {
            5 => format!(" {i}"),
            6 => format!("{i} "),
            7 => format!("JOINT_{i}"),
            8 => format!("rig:{i}/Joint.L"),
            0 => format!("joint_{i}"),
            1 => format!("Hips {i}"),
            2 => format!("\u{9aa8}{i}"),
            3 => format!("{i}"),
            _ => format!("a_rather_long_joint_name_that_does_not_fit_inline_{i}"),
        })
        .collect();
    // one joint may have an empty name
    if n > 0 && rng.chance(1, 3) {
        let k = rng.below(n);
        v[k] = String::new();
    }
    v
}

pub fn run_c06(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC06);
    let cfg = json!({"parents": [], "names": []});
    rec.begin("limits", &cfg);
    let ev = vec![json!({"op": "limits", "v": [SKELETON_MAX_JOINTS, SKELETON_MAX_SOA_JOINTS, SKELETON_NO_PARENT], "res": "ok"})];
    rec.end("limits", &cfg, ev);
    for p in plan_forests(args) {
        let n = p.len();
        let mut s = SkelSpec::simple(&p);
        s.names = some_names(&mut rng, n);
        queries(rec, "forest", &s, &(-2..=n as i32).collect::<Vec<_>>());
    }
    let count = if args.thorough { 400 } else { 40 };
    for i in 0..count {
        let n = match i % 4 {
            0 => rng.range(8, 20),
            1 => rng.range(20, 70),
            2 => rng.range(60, 130),
            _ if i < 16 => [1023, 1024, 1025, 2000][i / 4],
            _ => *rng.pick(&[255, 256, 257, 300, 128, 127]),
        } as usize;
        let roots = rng.chance(1, 2);
        let p = random_parents(&mut rng, n, roots);
        let mut s = SkelSpec::simple(&p);
        s.names = some_names(&mut rng, n);
        let mut starts: Vec<i32> = vec![-1, 0, n as i32 - 1, n as i32];
        starts.extend((0..8).map(|_| rng.below(n) as i32));
        queries(rec, "random", &s, &starts);
    }
}

// ------------------------------------------------------------------------------------------ C05

#[derive(Clone, Debug)]
struct Trs {
    t: [i64; 3],
    /// twice the quaternion
    q: [i64; 4],
    s: [i64; 3],
}

impl Trs {
    fn json(&self, j: usize) -> Value {
        json!({"j": j, "t": self.t, "q": self.q, "s": self.s})
    }
}

/// The 24 rotations of the tetrahedral group (both signs): exact in single precision.
fn rotations() -> Vec<[i64; 4]> {
    let mut v = vec![];
    for i in 0..4 {
        for s in [2, -2] {
            let mut q = [0; 4];
            q[i] = s;
            v.push(q);
        }
    }
    for m in 0..16 {
        v.push([0, 1, 2, 3].map(|i| if m >> i & 1 == 1 { -1 } else { 1 }));
    }
    v
}

fn random_trs(rng: &mut Rng, rots: &[[i64; 4]], big: bool) -> Trs {
    let scales: &[i64] = if big { &[1, 1, 1, -1] } else { &[1, 1, 2, -1, 3, 0] };
    Trs {
        t: [0; 3].map(|_| rng.range(-3, 3)),
        q: *rng.pick(rots),
        s: [0; 3].map(|_| *rng.pick(scales)),
    }
}

/// `tu`: the length of a translation of 1, `su`: what a scale of 1 is.
fn set_local(buf: &mut [SoaTransform], j: usize, x: &Trs, tu: f32, su: f32) {
    let (s, k) = (j / 4, j % 4);
    buf[s].translation.x[k] = x.t[0] as f32 * tu;
    buf[s].translation.y[k] = x.t[1] as f32 * tu;
    buf[s].translation.z[k] = x.t[2] as f32 * tu;
    buf[s].rotation.x[k] = x.q[0] as f32 * 0.5;
    buf[s].rotation.y[k] = x.q[1] as f32 * 0.5;
    buf[s].rotation.z[k] = x.q[2] as f32 * 0.5;
    buf[s].rotation.w[k] = x.q[3] as f32 * 0.5;
    buf[s].scale.x[k] = x.s[0] as f32 * su;
    buf[s].scale.y[k] = x.s[1] as f32 * su;
    buf[s].scale.z[k] = x.s[2] as f32 * su;
}

/// Change of the unit of length.
fn scaled(m: &Mat4, f: f32) -> Mat4 {
    let mut a = m.to_cols_array();
    for i in 0..3 {
        a[12 + i] *= f;
        a[4 * i + 3] /= f;
    }
    Mat4::from_cols_array(&a)
}

fn imat(m: &Mat4) -> Value {
    Value::Array(m.to_cols_array().iter().map(|x| if x.fract() == 0.0 { json!(q(*x, 1.0)) } else { json!(NAN_Q) }).collect())
}

fn rand_mat(rng: &mut Rng) -> Mat4 {
    let mut a = [0f32; 16];
    for x in a.iter_mut() {
        *x = rng.range(-3, 3) as f32;
    }
    Mat4::from_cols_array(&a)
}

enum Op {
    Set(Vec<usize>),
    Update { from: i32, to: i32, excl: bool, root: bool },
}

fn updates(rec: &mut Rec, rng: &mut Rng, kind: &str, parents: &[i16], ops: &[Op], big: bool) {
    let rots = rotations();
    let n = parents.len();
    let sk = SkelSpec::simple(parents).skeleton();
    let cfg = json!({"parents": parents});
    rec.begin(kind, &cfg);
    let mut intern = Intern::new();
    let extra_in = rng.below(2);
    let extra_out = rng.below(3);
    let tu = 2f32.powi(*rng.pick(&[0, 0, 0, -12, -40, 12, 40]));
    // joints may scale their subtree by a large or small power of two (f: overall), lengths make up for it
    let wild = rng.chance(1, 2);
    let e: Vec<i32> = (0..n).map(|_| if wild && rng.chance(1, 3) { *rng.pick(&[-14, -7, -1, 1, 7, 14]) } else { 0 }).collect();
    let mut f: Vec<i32> = vec![];
    let mut unit = vec![];
    for j in 0..n {
        let up = if parents[j] < 0 { 0 } else { f[parents[j] as usize] };
        let e = if (up + e[j]).abs() > 56 { 0 } else { e[j] };
        f.push(up + e);
        unit.push((tu * 2f32.powi(-up), 2f32.powi(e)));
    }
    f.resize(n + extra_out, 0);
    let cols = |m: &Mat4, f: f32| Mat4::from_cols(m.x_axis * f, m.y_axis * f, m.z_axis * f, m.w_axis);
    let root_mat = |rng: &mut Rng| scaled(&rand_mat(rng), tu);
    let rand_mat = |rng: &mut Rng, j: usize| cols(&scaled(&rand_mat(rng), tu), 2f32.powi(f[j]));
    let imat = |m: &Mat4, f: i32| imat(&scaled(&cols(m, 2f32.powi(-f)), 1.0 / tu));
    let mut input = vec![SoaTransform::IDENTITY; sk.num_soa_joints() + extra_in];
    let mut out: Vec<Mat4> = (0..n + extra_out).map(|j| rand_mat(rng, j)).collect();
    let mut locs: Vec<Trs> = (0..n).map(|_| random_trs(rng, &rots, big)).collect();
    for (j, x) in locs.iter().enumerate() {
        set_local(&mut input, j, x, unit[j].0, unit[j].1);
    }
    let mut ids: Vec<usize> = out.iter().map(|m| intern.id(bytes_of(&m.to_cols_array()))).collect();
    let mut ev = vec![json!({"op": "init", "loc": locs.iter().enumerate().map(|(j, x)| x.json(j)).collect::<Vec<_>>(),
        "mod": (0..n).map(|j| imat(&out[j], f[j])).collect::<Vec<_>>(), "ids": ids})];
    for op in ops {
        match op {
            Op::Set(js) => {
                let mut l = vec![];
                for j in js {
                    locs[*j] = random_trs(rng, &rots, big);
                    set_local(&mut input, *j, &locs[*j], unit[*j].0, unit[*j].1);
                    l.push(locs[*j].json(*j));
                }
                ev.push(json!({"op": "set", "l": l}));
            }
            Op::Update { from, to, excl, root } => {
                let rm = if *root { root_mat(rng) } else { Mat4::IDENTITY };
                let r = {
                    let mut job: LocalToModelJobRef = LocalToModelJob::default();
                    job.set_skeleton(&sk);
                    job.set_input(&input);
                    job.set_output(&mut out);
                    // defaults are exercised as they are
                    if *root {
                        job.set_root(&rm);
                    }
                    if *from != -1 || rng.chance(1, 2) {
                        match rng.below(3) {
                            0 if *from as i16 as i32 == *from => job.set_from(*from as i16),
                            1 if *from >= 0 => job.set_from(*from as usize),
                            _ => job.set_from(*from),
                        }
                    }
                    if *to != SKELETON_MAX_JOINTS || rng.chance(1, 2) {
                        match rng.below(3) {
                            0 if *to as i16 as i32 == *to => job.set_to(*to as i16),
                            1 if *to >= 0 => job.set_to(*to as usize),
                            _ => job.set_to(*to),
                        }
                    }
                    if *excl || rng.chance(1, 2) {
                        job.set_from_excluded(*excl);
                    }
                    guard(|| job.run())
                };
                let new: Vec<usize> = out.iter().map(|m| intern.id(bytes_of(&m.to_cols_array()))).collect();
                let chg: Vec<Value> = (0..n).filter(|j| new[*j] != ids[*j]).map(|j| json!([j, imat(&out[j], f[j])])).collect();
                ids = new;
                ev.push(json!({"op": "update", "from": from, "to": to, "excl": excl, "root": imat(&rm, 0), "res": res_name(&r), "chg": chg, "ids": ids}));
                if res_name(&r) != "ok" {
                    break;
                }
            }
        }
    }
    rec.end(kind, &cfg, ev);
}

/// Joints turned or scaled by next to nothing: values are dual numbers h + l eps, eps = 2^-k, exact in
/// single precision as long as no joint has two such ancestors.
fn fine(rec: &mut Rec, rng: &mut Rng, parents: &[i16], k: i32) {
    let rots = rotations();
    let n = parents.len();
    let eps = 2f32.powi(-k);
    let cfg = json!({"parents": parents});
    rec.begin("fine", &cfg);
    let sk = SkelSpec::simple(parents).skeleton();
    let mut input = vec![SoaTransform::IDENTITY; sk.num_soa_joints()];
    let mut has = vec![false; n];
    let mut locs = vec![];
    for j in 0..n {
        let mut x = random_trs(rng, &rots, true);
        has[j] = parents[j] >= 0 && has[parents[j] as usize];
        let (mut turn, mut grow) = ([0i64; 3], [0i64; 3]);
        if !has[j] && rng.chance(1, 2) {
            has[j] = true;
            if rng.chance(1, 2) {
                turn[rng.below(3)] = *rng.pick(&[-1, 1]);
                x.q = *rng.pick(&[[0, 0, 0, 2], [0, 0, 0, -2]]);
            } else {
                grow = [0; 3].map(|_| rng.range(-1, 1));
            }
        }
        set_local(&mut input, j, &x, 1.0, 1.0);
        let (s, l) = (j / 4, j % 4);
        let t = &mut input[s];
        (t.rotation.x[l], t.rotation.y[l], t.rotation.z[l]) = (t.rotation.x[l] + turn[0] as f32 * eps, t.rotation.y[l] + turn[1] as f32 * eps, t.rotation.z[l] + turn[2] as f32 * eps);
        (t.scale.x[l], t.scale.y[l], t.scale.z[l]) = (t.scale.x[l] + grow[0] as f32 * eps, t.scale.y[l] + grow[1] as f32 * eps, t.scale.z[l] + grow[2] as f32 * eps);
        let mut v = x.json(j);
        v["turn"] = json!(turn);
        v["grow"] = json!(grow);
        locs.push(v);
    }
    let mut out = vec![Mat4::IDENTITY; n];
    let r = {
        let mut job: LocalToModelJobRef = LocalToModelJob::default();
        job.set_skeleton(&sk);
        job.set_input(&input);
        job.set_output(&mut out);
        guard(|| job.run())
    };
    let split = |m: &Mat4| -> [Vec<i64>; 2] {
        let a = m.to_cols_array();
        let hi = a.map(|x| x.round() as f64);
        let lo = std::array::from_fn::<i64, 16, _>(|i| {
            let y = (a[i] as f64 - hi[i]) / eps as f64;
            if y.fract() == 0.0 { y as i64 } else { NAN_Q }
        });
        [hi.map(|x| x as i64).to_vec(), lo.to_vec()]
    };
    let (hi, lo): (Vec<_>, Vec<_>) = out.iter().map(|m| split(m)).map(|[h, l]| (h, l)).unzip();
    let ev = vec![json!({"op": "fine", "loc": locs, "hi": hi, "lo": lo, "res": res_name(&r)})];
    rec.end("fine", &cfg, ev);
}

pub fn run_c05(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC05);
    for p in plan_forests(args) {
        let n = p.len() as i32;
        let mut combos = vec![];
        for from in -1..=n {
            for to in -1..=n {
                for excl in [false, true] {
                    combos.push((from, to, excl));
                }
            }
        }
        for from in [i32::MIN, -2, -1, 0, n - 1, i32::MAX] {
            for to in [i32::MIN, i32::MAX, 1024] {
                combos.push((from, to, rng.chance(1, 2)));
            }
        }
        rng.shuffle(&mut combos);
        let mut ops = vec![];
        for (from, to, excl) in combos {
            let js: Vec<usize> = (0..n as usize).filter(|_| rng.chance(1, 2)).collect();
            ops.push(Op::Set(js));
            ops.push(Op::Update { from, to, excl, root: rng.chance(1, 2) });
            // change a subtree of a fresh buffer, then update it partially
            if rng.chance(1, 8) {
                ops.push(Op::Update { from: -1, to: 1024, excl: false, root: false });
            }
        }
        updates(rec, &mut rng, "forest", &p, &ops, false);
    }
    let count = if args.thorough { 300 } else { 24 };
    for i in 0..count {
        let n = match i % 3 {
            0 => rng.range(6, 16),
            1 => rng.range(16, 60),
            _ if i < 6 => [1023, 1024][i / 3],
            _ => *rng.pick(&[64, 65, 67, 130, 200, 257]),
        } as usize;
        let roots = rng.chance(1, 2);
        let p = random_parents(&mut rng, n, roots);
        let mut ops = vec![];
        for k in 0..if n > 1000 { 6 } else { 20 } {
            let j = rng.below(n) as i32;
            ops.push(Op::Set((0..rng.below(4)).map(|_| rng.below(n)).collect::<std::collections::BTreeSet<_>>().into_iter().collect()));
            let (from, to) = match rng.below(5) {
                0 => (-1, 1024),
                1 => (j, 1024),
                2 => (j, rng.range(j as i64, n as i64) as i32),
                3 => (-1, j),
                _ => (j, i32::MAX),
            };
            ops.push(Op::Update { from: if k == 0 { -1 } else { from }, to: if k == 0 { 1024 } else { to }, excl: k > 0 && rng.chance(1, 3), root: k > 0 && rng.chance(1, 4) });
        }
        updates(rec, &mut rng, "random", &p, &ops, true);
    }
    for i in 0..(if args.thorough { 400 } else { 60 }) {
        let (k, n) = *rng.pick(&[(14, 14), (14, 5), (17, 5), (18, 4)]);
        let roots = i % 3 == 0;
        let n = rng.range(1, n) as usize;
        let p = random_parents(&mut rng, n, roots);
        fine(rec, &mut rng, &p, k);
    }
}
