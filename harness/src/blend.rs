//! Blending (C07), additive blending (C08) and motion blending (C09).
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use crate::sampling::{RU, VU};
use glam::{Quat, Vec3, Vec3A, Vec4};
use ozz_animation_rs::*;
use serde_json::{json, Value};

/// One joint's transform: translation (1/16), quaternion, scale (1/16).
#[derive(Clone, Debug)]
pub struct Xf {
    t: [i64; 3],
    q: [f32; 4],
    s: [i64; 3],
}

impl Xf {
    fn json(&self) -> Value {
        let mut v: Vec<i64> = self.t.to_vec();
        v.extend(self.q.iter().map(|x| q(*x, RU)));
        v.extend(self.s);
        json!(v)
    }
}

fn norm(q: [f64; 4]) -> [f32; 4] {
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    q.map(|x| (x / n) as f32)
}

/// `wild`: anywhere on the sphere; otherwise within a cone around `about`, with a random sign.
fn random_q(rng: &mut Rng, about: [f32; 4], wild: bool) -> [f32; 4] {
    loop {
        let mut v = [0f64; 4];
        for x in v.iter_mut() {
            *x = rng.unit() * 2.0 - 1.0;
        }
        let n = v.iter().map(|x| x * x).sum::<f64>();
        if !(0.05..=1.0).contains(&n) {
            continue;
        }
        // (nearly) half turns have no well defined representative with a positive w
        if wild {
            let r = norm(v);
            if r[3].abs() < 0.01 {
                continue;
            }
            return r;
        }
        let s = if rng.chance(1, 2) { -1.0 } else { 1.0 };
        let mut r = [0f64; 4];
        for i in 0..4 {
            r[i] = s * (about[i] as f64 + 0.55 * v[i]);
        }
        let r = norm(r);
        if r[3].abs() < 0.01 {
            continue;
        }
        return r;
    }
}

fn random_xf(rng: &mut Rng, about: [f32; 4], wild: bool) -> Xf {
    Xf {
        t: [0; 3].map(|_| rng.range(-160, 160)),
        q: random_q(rng, about, wild),
        s: [0; 3].map(|_| rng.range(8, 40)),
    }
}

/// `tu`, `su`: what a translation / scale of 1 (16/16) stands for.
fn soa(xs: &[Xf], tu: f32, su: f32) -> Vec<SoaTransform> {
    let mut v = vec![SoaTransform::IDENTITY; (xs.len() + 3) / 4];
    for (j, x) in xs.iter().enumerate() {
        let (b, k) = (&mut v[j / 4], j % 4);
        b.translation.x[k] = x.t[0] as f32 / 16.0 * tu;
        b.translation.y[k] = x.t[1] as f32 / 16.0 * tu;
        b.translation.z[k] = x.t[2] as f32 / 16.0 * tu;
        b.rotation.x[k] = x.q[0];
        b.rotation.y[k] = x.q[1];
        b.rotation.z[k] = x.q[2];
        b.rotation.w[k] = x.q[3];
        b.scale.x[k] = x.s[0] as f32 / 16.0 * su;
        b.scale.y[k] = x.s[1] as f32 / 16.0 * su;
        b.scale.z[k] = x.s[2] as f32 / 16.0 * su;
    }
    v
}

fn joints(out: &[SoaTransform], n: usize, tu: f32, su: f32) -> Value {
    let (tu, su) = (VU / tu as f64, VU / su as f64);
    Value::Array(
        (0..n)
            .map(|j| {
                let (b, k) = (&out[j / 4], j % 4);
                let mut v = vec![q(b.translation.x[k], tu), q(b.translation.y[k], tu), q(b.translation.z[k], tu)];
                v.extend([b.rotation.x[k], b.rotation.y[k], b.rotation.z[k], b.rotation.w[k]].map(|x| q(x, RU)));
                v.extend([b.scale.x[k], b.scale.y[k], b.scale.z[k]].map(|x| q(x, su)));
                json!(v)
            })
            .collect(),
    )
}

/// Layer: pose, weight over 16, joint weights over 16.
#[derive(Clone, Debug)]
struct Lay {
    p: usize,
    w: i64,
    jw: Option<Vec<i64>>,
    /// weight 2^-TINY times as large, translation 2^TINY times as large
    tiny: bool,
}
const TINY: i32 = 20;

impl Lay {
    fn json(&self) -> Value {
        json!({"p": self.p + 1, "w": self.w, "jw": self.jw.clone().unwrap_or_default(), "tiny": self.tiny})
    }
    /// `wu`: what a weight of 1 (16/16) stands for
    fn build<'t>(&self, w: &'t World, wu: f32, extra: bool) -> BlendingLayer<&'t [SoaTransform]> {
        let soa = w.sk.num_soa_joints();
        let poses = if self.tiny { &w.huge } else { &w.soas };
        let wu = if self.tiny { wu * 2f32.powi(-TINY) } else { wu };
        let mut l = match (&self.jw, self.w % 2) {
            (None, 0) => {
                let mut l = BlendingLayer::new(&poses[self.p][..]);
                l.weight = self.w as f32 / 16.0 * wu;
                l
            }
            _ => BlendingLayer::with_weight(&poses[self.p][..], self.w as f32 / 16.0 * wu),
        };
        if let Some(jw) = &self.jw {
            l.joint_weights = vec![Vec4::splat(1.0); soa + extra as usize];
            for (j, w) in jw.iter().enumerate() {
                l.joint_weights[j / 4][j % 4] = *w as f32 / 16.0;
            }
        }
        l
    }
}

struct World {
    n: usize,
    sk: Skeleton,
    rest: Vec<Xf>,
    poses: Vec<Vec<Xf>>,
    soas: Vec<Vec<SoaTransform>>,
    /// the same with 2^TINY times the translations
    huge: Vec<Vec<SoaTransform>>,
    tu: f32,
    su: f32,
    /// what a weight or threshold of 1 stands for in the normal layers
    wu: f32,
}

fn world(rng: &mut Rng, n: usize, np: usize, wild: bool, scales: bool) -> World {
    let p2 = |e: i32| 2f32.powi(e);
    let tu = p2(*rng.pick(&[0, 0, 0, -12, -30, 12, 30]));
    let su = if scales { p2(*rng.pick(&[0, 0, 0, -12, -30, 12, 30])) } else { 1.0 };
    let wu = p2(*rng.pick(&[0, 0, 0, -8, -16, -30, 8, 20]));
    let about: Vec<[f32; 4]> = (0..n).map(|_| random_q(rng, [0.0; 4], true)).collect();
    let pose = |rng: &mut Rng| -> Vec<Xf> { (0..n).map(|j| random_xf(rng, about[j], wild)).collect() };
    let rest = pose(rng);
    let poses: Vec<Vec<Xf>> = (0..np).map(|_| pose(rng)).collect();
    let mut spec = SkelSpec::simple(&vec![-1; n]);
    for (j, x) in rest.iter().enumerate() {
        let r = &mut spec.rest[j];
        for c in 0..3 {
            r[c] = x.t[c] as f32 / 16.0 * tu;
            r[7 + c] = x.s[c] as f32 / 16.0 * su;
        }
        r[3..7].copy_from_slice(&x.q);
    }
    let soas = poses
        .iter()
        .map(|p| {
            let mut v = soa(p, tu, su);
            // a longer input is fine
            if rng.chance(1, 4) {
                v.push(SoaTransform::IDENTITY);
            }
            v
        })
        .collect();
    let huge = poses.iter().map(|p| soa(p, tu * p2(TINY), su)).collect();
    World { n, sk: spec.skeleton(), rest, poses, soas, huge, tu, su, wu }
}

impl World {
    fn cfg(&self) -> Value {
        let f = |p: &Vec<Xf>| Value::Array(p.iter().map(|x| x.json()).collect());
        json!({"n": self.n, "poses": self.poses.iter().map(f).collect::<Vec<_>>(), "rest": f(&self.rest)})
    }
}

fn garbage(rng: &mut Rng, n: usize) -> Vec<SoaTransform> {
    let xs: Vec<Xf> = (0..n * 4).map(|_| random_xf(rng, [0.0, 0.0, 0.0, 1.0], true)).collect();
    soa(&xs, 1.0, 1.0)
}

struct Runner {
    ctx: Option<BlendingContext>,
    intern: Intern,
}

impl Runner {
    /// One run; returns the event.
    fn run(&mut self, rng: &mut Rng, w: &World, layers: &[Lay], adds: &[Lay], th: i64) -> Value {
        let ns = w.sk.num_soa_joints();
        let extra = rng.below(3);
        let mut out = garbage(rng, ns + extra);
        let tail0 = self.intern.id(bytes_of(&out[ns..]));
        let r = {
            let mut job: BlendingJobRef = BlendingJob::default();
            job.set_skeleton(&w.sk);
            job.set_output(&mut out[..]);
            if let Some(c) = self.ctx.take() {
                job.set_context(c);
            }
            // 26 stands for the default, 0.1, where that makes no difference
            if w.wu != 1.0 || th != 26 || layers.iter().any(|l| l.jw.is_some()) || rng.chance(1, 2) {
                job.set_threshold(th as f32 / 256.0 * w.wu);
            }
            for l in layers {
                job.layers_mut().push(l.build(w, w.wu, rng.chance(1, 3)));
            }
            for l in adds {
                job.additive_layers_mut().push(l.build(w, 1.0, rng.chance(1, 3)));
            }
            let r = guard(|| job.run());
            self.ctx = job.take_context();
            r
        };
        json!({"op": "run", "res": res_name(&r), "out": joints(&out, w.n, w.tu, w.su), "tail0": tail0, "tail": self.intern.id(bytes_of(&out[ns..])), "th": th})
    }
}

fn sum_ok(layers: &[Lay]) -> bool {
    layers.iter().map(|l| l.w.max(0) * l.jw.as_ref().map_or(16, |v| v.iter().cloned().max().unwrap_or(0).max(0))).sum::<i64>() <= 8 * 256
}

pub fn run_c07(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC07);
    if let Some(p) = &args.plan {
        let ints = |v: &Value| -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
        let jws: Vec<i64> = ints(&p["jws"]);
        let ths = ints(&p["ths"]);
        let nl = p["nl"].as_u64().unwrap() as usize;
        let runs = p["runs"].as_array().unwrap();
        let n = jws.len().pow(nl as u32);
        // model units: weight 1 = 1/2, joint weight 1 = 1/2, threshold 1 = 1/4
        for chunk in runs.chunks((runs.len() + 23) / 24) {
            let wild = rng.chance(1, 4);
            let w = world(&mut rng, n, nl, wild, true);
            rec.begin("model", &w.cfg());
            let mut r = Runner { ctx: None, intern: Intern::new() };
            let mut ev = vec![];
            for run in chunk {
                let ws = ints(&run["w"]);
                let partial: Vec<bool> = run["partial"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
                let layers: Vec<Lay> = (0..ws.len())
                    .map(|i| Lay {
                        p: i,
                        w: ws[i] * 8,
                        jw: partial[i].then(|| (0..n).map(|j| jws[j / jws.len().pow(i as u32) % jws.len()] * 8).collect()),
                        tiny: false,
                    })
                    .collect();
                let ths: Vec<i64> = if args.thorough { ths.clone() } else { vec![*rng.pick(&ths)] };
                for th in ths {
                    let mut e = r.run(&mut rng, &w, &layers, &[], th * 64);
                    e["layers"] = json!(layers.iter().map(|l| l.json()).collect::<Vec<_>>());
                    ev.push(e);
                }
            }
            rec.end("model", &w.cfg(), ev);
        }
    }
    let count = if args.thorough { 1200 } else { 160 };
    for i in 0..count {
        let n = match i % 4 {
            0 => rng.range(1, 4),
            1 => rng.range(4, 9),
            2 => rng.range(9, 20),
            _ => rng.range(1, 40),
        } as usize;
        let np = rng.range(1, 6) as usize;
        let wild = rng.chance(1, 4);
        let w = world(&mut rng, n, np, wild, true);
        rec.begin("random", &w.cfg());
        let mut r = Runner {
            ctx: match rng.below(3) {
                0 => None,
                1 => Some(BlendingContext::new(w.sk.num_soa_joints())),
                _ => Some(BlendingContext::new(rng.below(12))),
            },
            intern: Intern::new(),
        };
        let mut ev = vec![];
        for _ in 0..12 {
            let layers = loop {
                let k = rng.below(np + 1);
                let l: Vec<Lay> = (0..k)
                    .map(|_| Lay {
                        p: rng.below(np),
                        w: *rng.pick(&[-8, 0, 2, 4, 8, 8, 16, 16, 20, 32]),
                        jw: rng.chance(1, 2).then(|| (0..n).map(|_| *rng.pick(&[-16, 0, 0, 4, 8, 12, 16, 16, 24])).collect()),
                        tiny: false,
                    })
                    .collect();
                if sum_ok(&l) {
                    break l;
                }
            };
            let th = *rng.pick(&[1, 16, 26, 64, 128, 256, 512, 1000]);
            let mut e = r.run(&mut rng, &w, &layers, &[], th);
            e["layers"] = json!(layers.iter().map(|l| l.json()).collect::<Vec<_>>());
            ev.push(e);
        }
        rec.end("random", &w.cfg(), ev);
    }
    // many layers, many joints
    for (n, k) in [(3usize, 255usize), (2, 256), (5, 257), (4, 300), (255, 2), (257, 3), (1024, 2)] {
        let np = 4;
        let w = world(&mut rng, n, np, false, true);
        rec.begin("large", &w.cfg());
        let mut r = Runner { ctx: None, intern: Intern::new() };
        let mut ev = vec![];
        for round in 0..3 {
            let all = k > 10 && round == 0;
            // every layer whole, but a few
            let whole = k > 10 && round == 2;
            let layers = loop {
                let l: Vec<Lay> = (0..k)
                    .map(|_| Lay {
                        p: rng.below(np),
                        w: if k < 10 { *rng.pick(&[8, 16]) } else if all || whole { 1 } else { *rng.pick(&[0, 0, 0, 1]) },
                        jw: (all || if whole { rng.chance(1, 100) } else { rng.chance(1, 2) }).then(|| (0..n).map(|_| *rng.pick(if all { &[0, 4, 6] } else { &[0, 8, 16] })).collect()),
                        tiny: false,
                    })
                    .collect();
                if whole || sum_ok(&l) {
                    break l;
                }
            };
            let mut e = r.run(&mut rng, &w, &layers, &[], 16);
            e["layers"] = json!(layers.iter().map(|l| l.json()).collect::<Vec<_>>());
            ev.push(e);
        }
        rec.end("large", &w.cfg(), ev);
    }
}

/// Sequences of the model's layers: every value is exact.
fn additive_model(rec: &mut Rec, rng: &mut Rng, p: &Value) {
    let ints = |v: &Value| -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
    let runs = p["runs"].as_array().unwrap();
    let cat = p["catalogue"].as_array().unwrap();
    let bases = p["bases"].as_array().unwrap();
    for chunk in runs.chunks(48) {
        let n = rng.range(1, 9) as usize;
        // the model's joint each real one stands for
        let map: Vec<usize> = (0..n).map(|_| rng.below(2)).collect();
        let rest: Vec<[f32; 10]> = map
            .iter()
            .map(|m| {
                let (t, q, e) = (ints(&bases[*m]["t"]), ints(&bases[*m]["q"]), ints(&bases[*m]["e"]));
                let mut x = [0f32; 10];
                for c in 0..3 {
                    x[c] = t[c] as f32 / 4.0;
                    x[7 + c] = 2f32.powi(e[c] as i32);
                }
                for c in 0..4 {
                    x[3 + c] = q[c] as f32 / 2.0;
                }
                x
            })
            .collect();
        let mut spec = SkelSpec::simple(&vec![-1; n]);
        spec.rest.copy_from_slice(&rest);
        let sk = spec.skeleton();
        let ns = sk.num_soa_joints();
        let poses: Vec<Vec<SoaTransform>> = cat
            .iter()
            .map(|y| {
                let (t, q, s) = (ints(&y["t"]), ints(&y["q"]), ints(&y["s"]));
                let x = SoaTransform {
                    translation: SoaVec3::splat_vec3(Vec3::from_array([t[0], t[1], t[2]].map(|x| x as f32 / 4.0))),
                    rotation: SoaQuat::splat_quat(Quat::from_array([q[0], q[1], q[2], q[3]].map(|x| x as f32 / 2.0))),
                    scale: SoaVec3::splat_vec3(Vec3::from_array([s[0], s[1], s[2]].map(|x| x as f32 / 2.0))),
                };
                vec![x; ns]
            })
            .collect();
        let cfg = json!({"n": n, "map": map.iter().map(|m| m + 1).collect::<Vec<_>>()});
        rec.begin("model", &cfg);
        let mut ctx = None;
        let mut ev = vec![];
        for run in chunk {
            let run = ints(run);
            let mut out = garbage(rng, ns);
            let r = {
                let mut job: BlendingJobRef = BlendingJob::default();
                job.set_skeleton(&sk);
                job.set_output(&mut out[..]);
                if let Some(c) = ctx.take() {
                    job.set_context(c);
                }
                for y in &run {
                    let i = *y as usize - 1;
                    let w = cat[i]["w"].as_i64().unwrap() as f32 / 4.0;
                    let jw = ints(&cat[i]["jw"]);
                    let mut l = BlendingLayer::with_weight(&poses[i][..], w);
                    if !jw.is_empty() {
                        l.joint_weights = vec![Vec4::splat(0.5); ns];
                        for j in 0..n {
                            l.joint_weights[j / 4][j % 4] = jw[map[j]] as f32 / 4.0;
                        }
                    }
                    job.additive_layers_mut().push(l);
                }
                let r = guard(|| job.run());
                ctx = job.take_context();
                r
            };
            let o: Vec<Value> = (0..n)
                .map(|j| {
                    let (b, k) = (&out[j / 4], j % 4);
                    json!({
                        "t": ([b.translation.x[k], b.translation.y[k], b.translation.z[k]].map(|x| q(x, 4096.0))),
                        "q": ([b.rotation.x[k], b.rotation.y[k], b.rotation.z[k], b.rotation.w[k]].map(|x| q(x, 65536.0))),
                        "s": ([b.scale.x[k], b.scale.y[k], b.scale.z[k]].map(|x| q(x, 65536.0))),
                    })
                })
                .collect();
            ev.push(json!({"op": "model", "res": res_name(&r), "run": run, "out": o}));
        }
        rec.end("model", &cfg, ev);
    }
}

pub fn run_c08(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC08);
    if let Some(p) = &args.plan {
        additive_model(rec, &mut rng, p);
    }
    let count = if args.thorough { 12000 } else { 2000 };
    for i in 0..count {
        let n = match i % 3 {
            0 => rng.range(1, 4),
            1 => rng.range(4, 9),
            _ => rng.range(5, 17),
        } as usize;
        let np = rng.range(1, 4) as usize;
        let w = world(&mut rng, n, np, false, false);
        let jws: &[i64] = &[-16, 0, 4, 8, 12, 16, 16];
        let base: Vec<Lay> = loop {
            let l: Vec<Lay> = (0..rng.below(3))
                .map(|_| Lay { p: rng.below(np), w: *rng.pick(&[-8, 0, 4, 8, 16]), jw: rng.chance(1, 3).then(|| (0..n).map(|_| *rng.pick(&[-8, 0, 8, 16])).collect()), tiny: false })
                .collect();
            if sum_ok(&l) {
                break l;
            }
        };
        let th = *rng.pick(&[26, 128, 256]);
        let mut adds: Vec<Lay> = vec![];
        // one layer may weigh more than one (and what undoes it)
        let mut heavy = rng.chance(1, 2);
        for _ in 0..rng.range(1, 4) {
            if !adds.is_empty() && rng.chance(1, 2) {
                let mut l = adds.last().unwrap().clone();
                l.w = -l.w;
                adds.push(l);
                continue;
            }
            if heavy && rng.chance(1, 2) {
                let l = Lay {
                    p: rng.below(np),
                    w: *rng.pick(&[-32, -24, -20, -17, 12, 16, 17, 20, 24, 32]),
                    jw: rng.chance(1, 2).then(|| (0..n).map(|_| *rng.pick(&[-16, 0, 8, 16, 16, 17, 24, 32])).collect()),
                    tiny: false,
                };
                // no scale may vanish, nor grow out of what is observed
                let fine = (0..n).all(|j| {
                    let a = l.w.abs() * l.jw.as_ref().map_or(16, |v| v[j].max(0));
                    a <= 512 && w.poses[l.p][j].s.iter().all(|s| ((256 - a) * 16 + a * s).abs() >= 1024)
                });
                if fine {
                    heavy = false;
                    adds.push(l);
                    continue;
                }
            }
            adds.push(Lay {
                p: rng.below(np),
                w: *rng.pick(&[-16, -12, -8, -4, -1, 0, 1, 4, 8, 10, 16]),
                jw: rng.chance(1, 2).then(|| (0..n).map(|_| *rng.pick(jws)).collect()),
                tiny: rng.chance(1, 5),
            });
        }
        let mut cfg = w.cfg();
        cfg["layers"] = json!(base.iter().map(|l| l.json()).collect::<Vec<_>>());
        cfg["adds"] = json!(adds.iter().map(|l| l.json()).collect::<Vec<_>>());
        cfg["th"] = json!(th);
        rec.begin("random", &cfg);
        let mut r = Runner { ctx: None, intern: Intern::new() };
        let mut ev = vec![];
        for k in 0..=adds.len() {
            let mut e = r.run(&mut rng, &w, &base, &adds[..k], th);
            e["k"] = json!(k);
            ev.push(e);
        }
        rec.end("random", &cfg, ev);
    }
}

pub fn run_c09(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC09);
    // integer vectors of integer length dividing 315
    let mut vecs: Vec<([i64; 3], i64)> = vec![];
    for x in -9i64..=9 {
        for y in -9i64..=9 {
            for z in -9i64..=9 {
                let l2 = x * x + y * y + z * z;
                for l in [0i64, 1, 3, 5, 7, 9] {
                    if l * l == l2 {
                        vecs.push(([x, y, z], l));
                    }
                }
            }
        }
    }
    if let Some(p) = &args.plan {
        // every pair of the model's layers, and triples, on one job
        let ls = p["layers"].as_array().unwrap();
        let mut lists: Vec<Vec<usize>> = (0..ls.len()).map(|a| vec![a]).collect();
        for a in 0..ls.len() {
            lists.extend((0..ls.len()).map(|b| vec![a, b]));
        }
        let triples = if args.thorough { 60000 } else { 4000 };
        lists.extend((0..triples).map(|_| (0..3).map(|_| rng.below(ls.len())).collect::<Vec<_>>()));
        for chunk in lists.chunks(64) {
            let cfg = json!({});
            let unit = 2f64.powi(*rng.pick(&[0, 0, -10, -16, 10]));
            rec.begin("model", &cfg);
            let mut job = MotionBlendingJob::default();
            let mut ev = vec![];
            for c in chunk {
                job.layers_mut().clear();
                let mut desc = vec![];
                for i in c {
                    let t = &p["ts"][ls[*i]["t"].as_u64().unwrap() as usize - 1];
                    let v: Vec<i64> = (0..3).map(|k| t["t"][k].as_i64().unwrap()).collect();
                    let qd = &p["qs"][ls[*i]["q"].as_u64().unwrap() as usize - 1];
                    let r: Vec<f32> = (0..4).map(|k| qd[k].as_i64().unwrap() as f32 / 2.0).collect();
                    let w = ls[*i]["w"].as_i64().unwrap() * 8;
                    desc.push(json!({"w": w, "t": v, "len": t["len"], "tiny": false, "q": qs(&r, RU)}));
                    let mut delta = glam_ext::Transform3A::IDENTITY;
                    delta.translation = Vec3A::new(v[0] as f32, v[1] as f32, v[2] as f32) * unit as f32;
                    delta.rotation = Quat::from_slice(&r);
                    job.layers_mut().push(MotionBlendingLayer { weight: w as f32 / 16.0, delta });
                }
                let r = guard(|| job.run());
                let o = job.output();
                let ident = o.translation == Vec3A::ZERO && o.rotation == Quat::IDENTITY && o.scale == Vec3A::ONE;
                ev.push(json!({"op": "run", "layers": desc, "res": res_name(&r), "t": qs(&o.translation.to_array(), VU / unit), "q": qs(&o.rotation.to_array(), RU), "s": qs(&o.scale.to_array(), VU), "ident": ident}));
            }
            rec.end("model", &cfg, ev);
        }
    }
    let count = if args.thorough { 60000 } else { 8000 };
    for _ in 0..count {
        let cfg = json!({});
        let about = random_q(&mut rng, [0.0; 4], true);
        let cluster = *rng.pick(&vecs);
        let wild = rng.chance(1, 4);
        // the meaning of a translation of 1 and of a weight of 1
        let unit = 2f64.powi(*rng.pick(&[0, 0, -10, -16, -30, -50, 10, 30]));
        let wunit = 2f64.powi(*rng.pick(&[0, 0, -8, -20, -40, 10, 20]));
        let mut job = MotionBlendingJob::default();
        let mut ev = vec![];
        rec.begin("random", &cfg);
        for _ in 0..4 {
            let k = match rng.below(6) {
                0 => rng.below(2),
                _ => rng.range(1, 5) as usize,
            };
            let mut ls = vec![];
            job.layers_mut().clear();
            for i in 0..k {
                let (t, len) = match rng.below(4) {
                    0 => cluster,
                    1 => {
                        let f = [-1, 0, 1][rng.below(3)];
                        (cluster.0.map(|x| x * f), cluster.1 * (f as i64).abs())
                    }
                    _ => *rng.pick(&vecs),
                };
                let qt = if i > 0 && rng.chance(1, 8) { about } else { random_q(&mut rng, about, wild) };
                let w = *rng.pick(&[-16i64, 0, 1, 4, 8, 8, 16, 16, 24]);
                // a translation too short to be seen in the length, whose direction counts all the same
                let tiny = rng.chance(1, 6);
                ls.push(json!({"w": w, "t": t, "len": len, "tiny": tiny, "q": qs(&qt, RU)}));
                let mut delta = glam_ext::Transform3A::IDENTITY;
                delta.translation = Vec3A::new(t[0] as f32, t[1] as f32, t[2] as f32) * (unit * if tiny { 2f64.powi(-16) } else { 1.0 }) as f32;
                delta.rotation = Quat::from_array(qt);
                // the layer's scale is not blended
                delta.scale = Vec3A::splat(if rng.chance(1, 2) { 1.0 } else { 2.0 });
                job.layers_mut().push(MotionBlendingLayer { weight: (w as f64 / 16.0 * wunit) as f32, delta });
            }
            let r = guard(|| job.run());
            let o = job.output();
            let ident = o.translation == Vec3A::ZERO && o.rotation == Quat::IDENTITY && o.scale == Vec3A::ONE;
            ev.push(json!({"op": "run", "layers": ls, "res": res_name(&r), "t": qs(&o.translation.to_array(), VU / unit), "q": qs(&o.rotation.to_array(), RU), "s": qs(&o.scale.to_array(), VU), "ident": ident}));
        }
        rec.end("random", &cfg, ev);
    }
    // many layers, the last ones unlike the first
    for k in [17i64, 33, 65, 129, 255, 256, 257, 300] {
        let cfg = json!({});
        let about = random_q(&mut rng, [0.0; 4], true);
        let other = random_q(&mut rng, about, false);
        let unit = 2f64.powi(*rng.pick(&[0, -10, 10]));
        let mut job = MotionBlendingJob::default();
        let mut ev = vec![];
        rec.begin("large", &cfg);
        for _ in 0..2 {
            job.layers_mut().clear();
            let mut ls = vec![];
            for i in 0..k {
                let t = if 4 * i < 3 * k { [1i64, 0, 0] } else { *rng.pick(&[[0, 1, 0], [0, 0, 1]]) };
                let qt = if 4 * i < 3 * k { about } else { other };
                let w = if rng.chance(1, 10) { -4 } else { 1 };
                ls.push(json!({"w": w, "t": t, "len": 1, "tiny": false, "q": qs(&qt, RU)}));
                let mut delta = glam_ext::Transform3A::IDENTITY;
                delta.translation = Vec3A::new(t[0] as f32, t[1] as f32, t[2] as f32) * unit as f32;
                delta.rotation = Quat::from_array(qt);
                job.layers_mut().push(MotionBlendingLayer { weight: w as f32 / 16.0, delta });
            }
            let r = guard(|| job.run());
            let o = job.output();
            ev.push(json!({"op": "run", "layers": ls, "res": res_name(&r), "t": qs(&o.translation.to_array(), VU / unit), "q": qs(&o.rotation.to_array(), RU), "s": qs(&o.scale.to_array(), VU), "ident": false}));
        }
        rec.end("large", &cfg, ev);
    }
}
