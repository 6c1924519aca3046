//! Digests of every step of random sequences of jobs.  Inputs come from integer arithmetic and
//! correctly rounded operations only, so they are the same bits on every target.
#![feature(portable_simd)]
#![allow(dead_code)]
#[path = "../../harness/src/build.rs"]
mod build;
mod num;

use build::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use num::Rng;
use ozz_animation_rs::math::{f32_acos, f32_asin, f32_cos, f32_sin, f32_sin_cos};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;
use std::rc::Rc;

struct Hash(u64);

impl Hash {
    fn new() -> Hash {
        Hash(0xcbf29ce484222325)
    }
    fn u32(&mut self, v: u32) {
        for b in v.to_le_bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    /// NaN payloads carry no meaning
    fn f(&mut self, v: f32) {
        self.u32(if v.is_nan() { 0x7fc00000 } else { v.to_bits() })
    }
    fn fs(&mut self, v: &[f32]) {
        v.iter().for_each(|x| self.f(*x));
    }
    fn soa(&mut self, v: &[SoaTransform]) {
        for x in v {
            for y in [x.translation.x, x.translation.y, x.translation.z, x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w, x.scale.x, x.scale.y, x.scale.z] {
                self.fs(&y.to_array());
            }
        }
    }
    fn mats(&mut self, v: &[Mat4]) {
        v.iter().for_each(|m| self.fs(&m.to_cols_array()));
    }
    fn vecs(&mut self, v: &[Vec3]) {
        v.iter().for_each(|m| self.fs(&m.to_array()));
    }
    fn res<T>(&mut self, r: &Result<T, OzzError>) {
        let k = match r {
            Ok(_) => 0,
            Err(OzzError::InvalidJob) => 1,
            Err(OzzError::InvalidIndex) => 2,
            Err(_) => 3,
        };
        self.u32(k)
    }
}

/// Mostly tame, sometimes extreme.
fn num(r: &mut Rng) -> f32 {
    match r.below(30) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 1e-20, -1e-20, 1e20, 1e-40, 3e38, 0.5]),
        1..=4 => r.range(-8, 8) as f32,
        5..=8 => r.range(-1 << 20, 1 << 20) as f32 / 1024.0,
        _ => r.range(-1 << 23, 1 << 23) as f32 / (1 << 21) as f32,
    }
}
/// in [0, 1], rarely outside
fn ratio(r: &mut Rng) -> f32 {
    match r.below(20) {
        0 => *r.pick(&[0.0, -0.0, -0.0, 1.0, -0.25, 1.5, f32::NAN, f32::INFINITY, 1e-7, 0.99999994]),
        _ => r.range(0, 1 << 24) as f32 / (1 << 24) as f32,
    }
}
fn angle(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 3.1415927, -3.1415927, 1.5707964, 6.2831855, 100.0, -1000.0, 1e5, 3.0e9, -4.1e9, 1.3e10, 1e20, 3e38, f32::INFINITY, f32::NAN]),
        _ => r.range(-1 << 23, 1 << 23) as f32 / (1 << 20) as f32,
    }
}
fn vec3(r: &mut Rng) -> Vec3 {
    Vec3::new(num(r), num(r), num(r))
}
fn unit4(r: &mut Rng) -> [f32; 4] {
    loop {
        let v = [0; 4].map(|_| r.range(-4096, 4096) as f64);
        let n = v.iter().map(|x| x * x).sum::<f64>();
        if n > 1000.0 {
            return v.map(|x| (x / n.sqrt()) as f32);
        }
    }
}
fn unit3(r: &mut Rng) -> Vec3A {
    loop {
        let v = [0; 3].map(|_| r.range(-64, 64) as f64);
        let n = v.iter().map(|x| x * x).sum::<f64>();
        if n > 10.0 {
            return Vec3A::from_array(v.map(|x| (x / n.sqrt()) as f32));
        }
    }
}
fn quat(r: &mut Rng) -> Quat {
    if r.chance(1, 12) {
        return *r.pick(&[Quat::IDENTITY, Quat::from_xyzw(0.0, 0.0, 0.0, -1.0), Quat::from_xyzw(1.0, 0.0, 0.0, 0.0), Quat::from_xyzw(0.0, -1.0, 0.0, -0.0)]);
    }
    Quat::from_array(unit4(r))
}
fn mat(r: &mut Rng) -> Mat4 {
    let [x, y, z, w] = unit4(r).map(|x| x as f64);
    let s = [0; 3].map(|_| r.range(32, 128) as f64 / 64.0);
    let t = [0; 3].map(|_| r.range(-1 << 20, 1 << 20) as f64 / (1 << 18) as f64);
    let c = [
        [s[0] * (1.0 - 2.0 * (y * y + z * z)), s[0] * 2.0 * (x * y + z * w), s[0] * 2.0 * (x * z - y * w), 0.0],
        [s[1] * 2.0 * (x * y - z * w), s[1] * (1.0 - 2.0 * (x * x + z * z)), s[1] * 2.0 * (y * z + x * w), 0.0],
        [s[2] * 2.0 * (x * z + y * w), s[2] * 2.0 * (y * z - x * w), s[2] * (1.0 - 2.0 * (x * x + y * y)), 0.0],
        [t[0], t[1], t[2], 1.0],
    ];
    Mat4::from_cols_array_2d(&c.map(|v| v.map(|x| x as f32)))
}
fn soa(r: &mut Rng, n: usize) -> Vec<SoaTransform> {
    (0..n)
        .map(|_| {
            let mut x = SoaTransform::IDENTITY;
            for k in 0..4 {
                x.translation.set_vec3(k, vec3(r));
                x.rotation.set_quat(k, quat(r));
                x.scale.set_vec3(k, vec3(r));
            }
            x
        })
        .collect()
}

fn animation(r: &mut Rng, n: usize) -> Animation {
    let td = *r.pick(&[8i64, 30, 100, 400]);
    let wild = r.chance(1, 4);
    let chan = |r: &mut Rng, rot: bool| Chan {
        tracks: (0..n)
            .map(|_| {
                let mut t = vec![0, td];
                for _ in 0..r.below(6) {
                    t.push(r.range(1, td - 1));
                }
                t.sort();
                t.dedup();
                t.iter()
                    .map(|time| Key {
                        time: *time,
                        raw: if rot {
                            let v = unit4(r).map(|x| x as f64);
                            quat_encode(v)
                        } else if wild {
                            [0; 3].map(|_| r.next() as u16)
                        } else {
                            // exponents around 1
                            [0; 3].map(|_| (r.next() as u16 & 0x83ff) | (r.range(10, 18) as u16) << 10)
                        },
                    })
                    .collect()
            })
            .collect(),
        nif: r.below(4),
        wide: false,
    };
    let (t, q, s) = (chan(r, false), chan(r, true), chan(r, false));
    AnimSpec { n, td, duration: 1.0, name: "a".into(), chans: [t, q, s], filler: vec![] }.animation()
}

fn skeleton(r: &mut Rng, n: usize) -> Skeleton {
    let p = random_parents(r, n, true);
    let mut s = SkelSpec::simple(&p);
    for x in s.rest.iter_mut() {
        for c in 0..3 {
            x[c] = num(r);
            x[7 + c] = num(r);
        }
        x[3..7].copy_from_slice(&quat(r).to_array());
    }
    s.skeleton()
}

fn track<V: TrackValue>(r: &mut Rng, tag: &'static str, dim: usize) -> Track<V> {
    let n = r.range(1, 12);
    TrackSpec {
        tag,
        name: "t".into(),
        ratios: (0..n).map(|i| if n == 1 { 0.0 } else { i as f32 / (n - 1) as f32 }).collect(),
        values: (0..n).map(|_| if tag == "ozz-quat_track" { unit4(r).to_vec() } else { (0..dim).map(|_| num(r)).collect() }).collect(),
        steps: (0..n).map(|_| r.chance(1, 3)).collect(),
    }
    .load()
}

fn sample_track<V: TrackValue + 'static>(r: &mut Rng, h: &mut Hash, tag: &'static str, dim: usize, f: fn(&V) -> Vec<f32>) {
    let t = track::<V>(r, tag, dim);
    let mut j: TrackSamplingJob<V, &Track<V>> = TrackSamplingJob::default();
    j.set_track(&t);
    for _ in 0..4 {
        j.set_ratio(ratio(r));
        h.res(&j.run());
        h.fs(&f(&j.result()));
    }
}

fn lays<'t>(r: &mut Rng, poses: &'t [Vec<SoaTransform>], ns: usize) -> Vec<BlendingLayer<&'t [SoaTransform]>> {
    (0..r.below(4))
        .map(|_| {
            let mut l = BlendingLayer::with_weight(&r.pick(poses)[..], num(r) / 4.0);
            if r.chance(1, 2) {
                l.joint_weights = (0..ns).map(|_| Vec4::new(num(r), num(r), num(r), num(r)) / 4.0).collect();
            }
            l
        })
        .collect()
}

pub const KINDS: [&str; 11] = ["sampling", "blending", "ltm", "skinning", "motion", "tracks", "aim", "twobone", "math", "skeleton", "names"];

/// One scenario: (kind, digest) per step.  `code` lists the kinds of the steps in base 10 digits,
/// first step first, repeated; 0 leaves the choice to the generator.
pub fn scenario(seed: u64, steps: usize, code: u32) -> Vec<(u32, u64)> {
    let plan: Vec<usize> = if code == 0 { vec![] } else { code.to_string().bytes().map(|b| (b - b'1') as usize).collect() };
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let n = r.range(1, 14) as usize;
    let ns = (n + 3) / 4;
    let anims: Vec<Rc<Animation>> = (0..2).map(|_| Rc::new(animation(r, n))).collect();
    let skel = skeleton(r, n);
    let nj = skel.num_joints();
    let mut sj: SamplingJobRc = SamplingJob::default();
    sj.set_context(SamplingContext::new(n));
    let sampled = ozz_rc_buf(soa(r, ns));
    sj.set_output(sampled.clone());
    sj.set_animation(anims[0].clone());
    let mut bctx = Some(BlendingContext::new(ns));
    let mut pose = soa(r, ns);
    let mut models: Vec<Mat4> = (0..nj).map(|_| mat(r)).collect();
    let only = if r.chance(1, 2) { Some(r.below(9)) } else { None };
    let mut log = vec![];
    for step in 0..steps {
        let mut h = Hash::new();
        let drawn = only.unwrap_or_else(|| r.below(9));
        let kind = if plan.is_empty() { drawn } else { plan[step % plan.len()] };
        match kind {
            0 => {
                if r.chance(1, 6) {
                    sj.set_animation(r.pick(&anims).clone());
                }
                sj.set_ratio(ratio(r));
                h.res(&sj.run());
                h.soa(&sampled.borrow());
                h.f(sj.ratio());
                h.f(sj.context().unwrap().ratio());
            }
            1 => {
                let mut poses = vec![sampled.borrow().clone()];
                poses.push(soa(r, ns));
                poses.push(pose.clone());
                let mut j: BlendingJobRef = BlendingJob::default();
                j.set_skeleton(&skel);
                j.set_context(bctx.take().unwrap_or_else(|| BlendingContext::new(ns)));
                j.set_threshold(*r.pick(&[0.1, 0.5, 1.0, 1e-6]));
                *j.layers_mut() = lays(r, &poses, ns);
                *j.additive_layers_mut() = lays(r, &poses, ns);
                j.set_output(&mut pose[..]);
                h.res(&j.run());
                bctx = j.take_context();
                drop(j);
                h.soa(&pose);
                // keep the feedback tame
                if r.chance(1, 3) {
                    pose = soa(r, ns);
                }
            }
            2 => {
                let input = match r.below(3) {
                    0 => sampled.borrow().clone(),
                    1 => pose.clone(),
                    _ => soa(r, ns),
                };
                let root = mat(r);
                let mut j: LocalToModelJobRef = LocalToModelJob::default();
                j.set_skeleton(&skel);
                j.set_input(&input);
                j.set_output(&mut models);
                if r.chance(1, 2) {
                    j.set_root(&root);
                }
                if r.chance(1, 3) {
                    j.set_from(r.below(nj) as i32);
                    j.set_from_excluded(r.chance(1, 2));
                }
                h.res(&j.run());
                drop(j);
                h.mats(&models);
            }
            3 => {
                let k = r.range(1, 6) as usize;
                let vc = r.range(1, 5) as usize;
                let ms: Vec<Mat4> = if r.chance(1, 2) { models.clone() } else { (0..3).map(|_| mat(r)).collect() };
                let its: Vec<Mat4> = (0..ms.len()).map(|_| mat(r)).collect();
                let idx: Vec<u16> = (0..k * vc).map(|_| r.below(ms.len()) as u16).collect();
                let wts: Vec<f32> = (0..k * vc).map(|_| r.range(0, 1 << 20) as f32 / (1 << 21) as f32).collect();
                let ins: Vec<Vec<Vec3>> = (0..3).map(|_| (0..vc).map(|_| vec3(r)).collect()).collect();
                let mut outs = [vec![Vec3::ZERO; vc], vec![Vec3::ZERO; vc], vec![Vec3::ZERO; vc]];
                let [o0, o1, o2] = &mut outs;
                let mut j: SkinningJobRef = SkinningJob::default();
                j.set_vertex_count(vc);
                j.set_influences_count(k);
                j.set_joint_matrices(&ms);
                if r.chance(1, 2) {
                    j.set_joint_it_matrices(&its);
                }
                j.set_joint_indices(&idx);
                j.set_joint_weights(&wts);
                j.set_in_positions(&ins[0]);
                j.set_out_positions(o0);
                let a = r.below(3);
                if a > 0 {
                    j.set_in_normals(&ins[1]);
                    j.set_out_normals(o1);
                }
                if a > 1 {
                    j.set_in_tangents(&ins[2]);
                    j.set_out_tangents(o2);
                }
                h.res(&j.run());
                drop(j);
                outs.iter().for_each(|o| h.vecs(o));
            }
            4 => {
                let mut j = MotionBlendingJob::default();
                for _ in 0..r.below(5) {
                    let mut delta = glam_ext::Transform3A::IDENTITY;
                    delta.translation = vec3(r).into();
                    delta.rotation = quat(r);
                    j.layers_mut().push(MotionBlendingLayer { weight: num(r), delta });
                }
                h.res(&j.run());
                let o = j.output();
                h.fs(&o.translation.to_array());
                h.fs(&o.rotation.to_array());
                h.fs(&o.scale.to_array());
            }
            5 => match r.below(6) {
                0 => sample_track::<f32>(r, &mut h, "ozz-float_track", 1, |v| vec![*v]),
                1 => sample_track::<Vec2>(r, &mut h, "ozz-float2_track", 2, |v| v.to_array().to_vec()),
                2 => sample_track::<Vec3>(r, &mut h, "ozz-float3_track", 3, |v| v.to_array().to_vec()),
                3 => sample_track::<Vec4>(r, &mut h, "ozz-float4_track", 4, |v| v.to_array().to_vec()),
                4 => sample_track::<Quat>(r, &mut h, "ozz-quat_track", 4, |v| v.to_array().to_vec()),
                _ => {
                    let t = track::<f32>(r, "ozz-float_track", 1);
                    let mut j: TrackTriggeringJob<&Track<f32>> = TrackTriggeringJob::default();
                    j.set_track(&t);
                    j.set_from(r.range(-3 << 12, 3 << 12) as f32 / 4096.0);
                    j.set_to(r.range(-3 << 12, 3 << 12) as f32 / 4096.0);
                    j.set_threshold(num(r));
                    match j.run() {
                        Ok(it) => {
                            for e in it.take(200) {
                                format!("{e:?}").bytes().for_each(|b| h.u32(b as u32));
                            }
                        }
                        Err(_) => h.u32(9),
                    }
                }
            },
            6 => {
                let mut j = IKAimJob::default();
                j.set_target(vec3(r).into());
                j.set_forward(unit3(r));
                j.set_up(if r.chance(1, 3) { vec3(r).into() } else { unit3(r) });
                j.set_pole_vector(if r.chance(1, 3) { vec3(r).into() } else { unit3(r) });
                if r.chance(1, 2) {
                    j.set_offset(vec3(r).into());
                }
                j.set_twist_angle(angle(r));
                j.set_weight(if r.chance(1, 3) { 1.0 } else { ratio(r) });
                j.set_joint(if r.chance(1, 3) { models[r.below(nj)] } else { mat(r) });
                h.res(&j.run());
                h.fs(&j.joint_correction().to_array());
                h.u32(j.reached() as u32);
            }
            7 => {
                let mut j = IKTwoBoneJob::default();
                j.set_target(vec3(r).into());
                j.set_mid_axis(unit3(r));
                j.set_pole_vector(if r.chance(1, 3) { vec3(r).into() } else { unit3(r) });
                j.set_twist_angle(angle(r));
                j.set_soften(if r.chance(1, 3) { 1.0 } else { ratio(r) });
                j.set_weight(if r.chance(1, 3) { 1.0 } else { ratio(r) });
                j.set_start_joint(mat(r));
                j.set_mid_joint(mat(r));
                j.set_end_joint(mat(r));
                h.res(&j.run());
                h.fs(&j.start_joint_correction().to_array());
                h.fs(&j.mid_joint_correction().to_array());
                h.u32(j.reached() as u32);
            }
            _ => {
                for _ in 0..8 {
                    let a = angle(r);
                    let (s, c) = f32_sin_cos(a);
                    h.fs(&[s, c, f32_sin(a), f32_cos(a)]);
                    let x = r.range(-1 << 24, 1 << 24) as f32 / (1 << 24) as f32;
                    h.fs(&[f32_asin(x), f32_acos(x)]);
                }
                let (p, q) = (soa(r, 1), soa(r, 1));
                let f = std::simd::f32x4::from_array([ratio(r), ratio(r), num(r), 0.5]);
                let a = &p[0].rotation;
                let b = &q[0].rotation;
                let x = SoaTransform { translation: SoaVec3::lerp(&p[0].translation, &q[0].translation, f), rotation: a.nlerp(b, f), scale: p[0].scale.mul_num(f) };
                let y = SoaTransform { translation: p[0].translation.sub(&q[0].translation), rotation: a.mul(b).normalize(), scale: p[0].scale.neg() };
                let z = SoaTransform { translation: p[0].translation, rotation: a.add(b).positive_w(), scale: q[0].scale };
                h.soa(&[x, y, z]);
                h.fs(&a.dot(b).to_array());
            }
        }
        log.push((kind as u32, h.0));
    }
    // what a skeleton answers, and the order in which its name table is enumerated
    let (mut h, mut o) = (Hash::new(), Hash::new());
    let n = r.range(1, 80) as usize;
    let s = skeleton(r, n);
    s.iter_depth_first(-1, |a, b| [a, b].iter().for_each(|x| h.u32(*x as u32)));
    s.iter_depth_first_reverse(|a, b| [a, b].iter().for_each(|x| h.u32(*x as u32)));
    h.soa(s.joint_rest_poses());
    for j in 0..n as i16 {
        let name = s.name_by_joint(j).unwrap_or("?");
        name.bytes().for_each(|b| h.u32(b as u32));
        h.u32(s.joint_by_name(name).unwrap_or(-9) as u32);
        h.u32(s.is_leaf(j) as u32);
    }
    for (name, j) in s.joint_names().iter() {
        name.bytes().for_each(|b| o.u32(b as u32));
        o.u32(*j as u32);
    }
    log.push((9, h.0));
    log.push((10, o.0));
    log
}

/// For wasm: pointer to (kind, high, low) triples.
#[no_mangle]
pub extern "C" fn run_scenario(hi: u32, lo: u32, steps: u32, code: u32) -> *const u32 {
    let v = scenario((hi as u64) << 32 | lo as u64, steps as usize, code);
    let mut o = vec![];
    for (k, d) in v {
        o.extend([k, (d >> 32) as u32, d as u32]);
    }
    Box::leak(o.into_boxed_slice()).as_ptr()
}
