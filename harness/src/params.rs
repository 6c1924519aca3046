//! Jobs as long-lived objects whose parameters are set, cleared and read back one at a time, over
//! shared buffers edited in place (C19).
use crate::jobs::{track_of, Data};
use crate::num::*;
use crate::rec::*;
use glam::{Mat4, Quat, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::rc::Rc;

pub const NONE: i64 = -1;
const BAD: i64 = -2;

/// Everything the parameters may refer to; buffers come in several content versions.
struct Pool {
    d: Data,
    anims: Vec<Rc<Animation>>,
    skels: Vec<Rc<Skeleton>>,
    tracks: Vec<Rc<Track<f32>>>,
    xf: Vec<OzzRcBuf<SoaTransform>>,
    mats: Vec<OzzRcBuf<Mat4>>,
    idx: Vec<OzzRcBuf<u16>>,
    wts: Vec<OzzRcBuf<f32>>,
    v3: Vec<OzzRcBuf<Vec3>>,
    oxf: Vec<OzzRcBuf<SoaTransform>>,
    omat: Vec<OzzRcBuf<Mat4>>,
    ov3: Vec<OzzRcBuf<Vec3>>,
}

const TRACKS: [i64; 3] = [4, 1, 7];
const ANIMS: [i64; 3] = [5, 9, 4];
const SKELS: [i64; 3] = [5, 7, 3];
const CTX: [i64; 3] = [12, 8, 4];
const BCTX: [i64; 3] = [0, 2, 3];

impl Pool {
    fn new(d: Data) -> Pool {
        fn none<T>(n: usize) -> Vec<OzzRcBuf<T>> {
            (0..n).map(|_| ozz_rc_buf(vec![])).collect()
        }
        let mut p = Pool {
            d,
            anims: with_twins(ANIMS.iter().map(|n| d.anim(*n)).collect(), d.anim(6), "translations"),
            skels: with_twins(SKELS.iter().map(|n| d.skel(*n)).collect(), d.skel(6), "joint_rest_poses"),
            tracks: with_twins(TRACKS.iter().map(|n| track_of(d, *n)).collect(), track_of(d, 6), "values"),
            xf: none(4),
            mats: none(2),
            idx: none(2),
            wts: none(2),
            v3: none(3),
            oxf: none(2),
            omat: none(2),
            ov3: none(4),
        };
        for b in 0..p.buffers() {
            p.edit(b, (b % 2) as i64);
        }
        p
    }
    fn ins(&self) -> usize {
        self.xf.len() + self.mats.len() + self.idx.len() + self.wts.len() + self.v3.len()
    }
    fn buffers(&self) -> usize {
        self.ins() + self.oxf.len() + self.omat.len() + self.ov3.len()
    }
    /// Overwrites the content of a buffer in place: versions 0, 1 and 2 hold other values, 3 is too short.
    fn edit(&mut self, b: usize, ver: i64) {
        // version 4: the first one with its last element changed
        let (ver, last) = if ver == 4 { (0, true) } else { (ver, false) };
        let e = Data(self.d.0 ^ (6 * 0x9E37) ^ ((b as u64) << 20));
        let d = Data(self.d.0 ^ ((ver as u64 + 1) * 0x9E37) ^ ((b as u64) << 20));
        let n = |full: i64| if ver == 3 { 1 } else { full };
        let mut k = b;
        macro_rules! kind {
            ($v:expr, $mk:expr) => {
                if k < $v.len() {
                    let mk = $mk;
                    let mut new = mk(d);
                    if last {
                        if let (Some(x), Some(y)) = (new.last_mut(), mk(e).last()) {
                            *x = y.clone();
                        }
                    }
                    let mut g = $v[k].borrow_mut();
                    if g.len() == new.len() {
                        g.clone_from_slice(&new);
                    } else {
                        *g = new;
                    }
                    return;
                }
                k -= $v.len();
            };
        }
        kind!(self.xf, |d: Data| d.xforms("xf", n(3)));
        kind!(self.mats, |d: Data| d.mats("mats", n(3)));
        kind!(self.idx, |d: Data| {
            let mut r = Rng::new(d.0);
            let m = if ver == 3 { 1 } else { 12 };
            (0..m).map(|_| r.below(3) as u16).collect::<Vec<u16>>()
        });
        kind!(self.wts, |d: Data| {
            let mut r = Rng::new(d.0);
            (0..n(9)).map(|_| r.range(0, 4) as f32 / 16.0).collect::<Vec<f32>>()
        });
        kind!(self.v3, |d: Data| d.vec3("v3", n(3)));
        kind!(self.oxf, |d: Data| d.xforms("oxf", n(3)));
        kind!(self.omat, |d: Data| d.mats("omat", n(9)));
        kind!(self.ov3, |d: Data| d.vec3("ov3", n(3)));
    }
    fn bytes(&self) -> (Vec<u8>, Vec<u8>) {
        fn add<T: Clone>(o: &mut Vec<u8>, v: &[OzzRcBuf<T>]) {
            for b in v {
                let g = b.borrow();
                o.extend((g.len() as u64).to_le_bytes());
                o.extend_from_slice(bytes_of(&g));
            }
        }
        let mut i = vec![];
        add(&mut i, &self.xf);
        add(&mut i, &self.mats);
        add(&mut i, &self.idx);
        add(&mut i, &self.wts);
        add(&mut i, &self.v3);
        for s in &self.skels {
            i.extend_from_slice(bytes_of(s.joint_rest_poses()));
            i.extend_from_slice(bytes_of(s.joint_parents()));
        }
        for s in &self.tracks {
            i.extend_from_slice(bytes_of(s.values()));
            i.extend_from_slice(bytes_of(s.ratios()));
            i.extend_from_slice(bytes_of(s.steps()));
        }
        for s in &self.anims {
            i.extend(format!("{s:?}").bytes());
        }
        let mut o = vec![];
        add(&mut o, &self.oxf);
        add(&mut o, &self.omat);
        add(&mut o, &self.ov3);
        (i, o)
    }
    /// Separate buffers of the same content.
    fn copy(&self) -> Pool {
        fn dup<T: Clone>(v: &[OzzRcBuf<T>]) -> Vec<OzzRcBuf<T>> {
            v.iter().map(|b| ozz_rc_buf(b.borrow().clone())).collect()
        }
        Pool {
            d: self.d,
            anims: self.anims.clone(),
            skels: self.skels.clone(),
            tracks: self.tracks.clone(),
            xf: dup(&self.xf),
            mats: dup(&self.mats),
            idx: dup(&self.idx),
            wts: dup(&self.wts),
            v3: dup(&self.v3),
            oxf: dup(&self.oxf),
            omat: dup(&self.omat),
            ov3: dup(&self.ov3),
        }
    }
}

fn which<T>(pool: &[Rc<T>], x: Option<&Rc<T>>) -> i64 {
    match x {
        None => NONE,
        Some(x) => pool.iter().position(|p| Rc::ptr_eq(p, x)).map_or(BAD, |i| i as i64),
    }
}

fn code_of(table: &[f32], x: f32) -> i64 {
    table.iter().position(|t| t.to_bits() == x.to_bits()).map_or(BAD, |i| i as i64)
}

fn code3(table: &[[f32; 3]], x: [f32; 3]) -> i64 {
    table.iter().position(|t| (0..3).all(|k| t[k].to_bits() == x[k].to_bits())).map_or(BAD, |i| i as i64)
}

/// A vector whose unused fourth lane holds anything.
fn vec3a(v: [f32; 3], rng: &mut Rng) -> Vec3A {
    let h = *rng.pick(&[0.0f32, 1.0, -3.0, 1e30, f32::NAN, f32::INFINITY]);
    Vec3A::from_vec4(Vec4::new(v[0], v[1], v[2], h))
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    /// a value: always something, code 0 by default
    Val(i64),
    /// a value in 0..1: codes 4, 5 and 6 are -0.5, 1.5 and NaN
    Ratio,
    /// an optional reference to one of n
    Opt(i64),
    /// the same, required by run
    Req(i64),
    /// the same, a new job has number 0
    Own(i64),
    /// a list entry
    Layer(i64),
}

// every table ends in values next to each other
const RATIO01: [f32; 10] = [0.0, 0.25, 0.6, 1.0, -0.5, 1.5, f32::NAN, 0.4, 0.40000004, 0.40005];

trait Job {
    fn slots(&self) -> Vec<(&'static str, K)>;
    /// outputs held by value
    fn outs(&self) -> Vec<u8> {
        vec![]
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, rng: &mut Rng);
    fn clear(&mut self, p: &Pool, s: usize, rng: &mut Rng);
    fn get(&self, p: &Pool, s: usize) -> i64;
    fn clear_outs(&mut self, _: &mut Rng) {}
    fn valid(&self) -> Option<bool>;
    fn run(&mut self) -> Result<(), OzzError>;
}

// --------------------------------------------------------------------------------------- sampling

struct JSampling(SamplingJob, Option<SamplingContext>);
impl Job for JSampling {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("animation", K::Req(5)), ("context", K::Req(3)), ("output", K::Req(2)), ("ratio", K::Ratio)]
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, rng: &mut Rng) {
        let v = v as usize;
        match s {
            0 => self.0.set_animation(p.anims[v].clone()),
            1 => {
                let old = self.1.take().filter(|c| c.max_tracks() == (CTX[v] as usize + 3) / 4 * 4 && rng.chance(1, 2));
                self.0.set_context(old.unwrap_or_else(|| SamplingContext::new(CTX[v] as usize)));
            }
            2 => self.0.set_output(p.oxf[v].clone()),
            _ => self.0.set_ratio(RATIO01[v]),
        }
    }
    fn clear(&mut self, _: &Pool, s: usize, rng: &mut Rng) {
        match s {
            0 => self.0.clear_animation(),
            1 if rng.chance(1, 2) => self.1 = self.0.take_context(),
            1 => self.0.clear_context(),
            2 => self.0.clear_output(),
            _ => self.0.set_ratio(0.0),
        }
    }
    fn get(&self, p: &Pool, s: usize) -> i64 {
        match s {
            0 => which(&p.anims, self.0.animation()),
            1 => self.0.context().map_or(NONE, |c| CTX.iter().position(|n| (*n as usize + 3) / 4 * 4 == c.max_tracks()).map_or(BAD, |i| i as i64)),
            2 => which(&p.oxf, self.0.output()),
            _ => code_of(&RATIO01, self.0.ratio()),
        }
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

// --------------------------------------------------------------------------------------- blending

const TH: [f32; 8] = [0.1, 0.5, 2.0, 0.0, -1.0, 0.75, 0.75000006, 0.75005];
const LW: [f32; 7] = [1.0, 0.5, 0.0, -0.5, 0.75, 0.75000006, 0.75005];

/// layer code: buffer * 21 + weight * 3 + joint weights
fn joint_weights(k: i64) -> Vec<Vec4> {
    (0..[0, 3, 3][k as usize]).map(|i| Vec4::new(0.25 * k as f32, 0.5, 1.0, 0.1 * (i as f32 + k as f32))).collect()
}

struct JBlending {
    job: BlendingJob,
    ctx: i64,
    taken: Option<BlendingContext>,
    have: [[bool; 2]; 2],
}

impl JBlending {
    fn list(&mut self, s: usize) -> &mut Vec<BlendingLayer<OzzRcBuf<SoaTransform>>> {
        if s < 6 {
            self.job.layers_mut()
        } else {
            self.job.additive_layers_mut()
        }
    }
    fn at(&self, s: usize) -> usize {
        // the entries present are kept in the order of their slots
        if s % 2 == 1 && self.have[s / 2 - 2][0] {
            1
        } else {
            0
        }
    }
}

impl Job for JBlending {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("skeleton", K::Req(5)), ("context", K::Own(3)), ("output", K::Req(2)), ("threshold", K::Val(8)), ("layer0", K::Layer(84)),
            ("layer1", K::Layer(84)), ("add0", K::Layer(84)), ("add1", K::Layer(84))]
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, rng: &mut Rng) {
        let u = v as usize;
        match s {
            0 => self.job.set_skeleton(p.skels[u].clone()),
            1 => {
                let t = self.taken.take().filter(|_| self.ctx == v && rng.chance(1, 2));
                self.ctx = v;
                self.job.set_context(t.unwrap_or_else(|| if v == 0 { BlendingContext::default() } else { BlendingContext::new(BCTX[u] as usize) }));
            }
            2 => self.job.set_output(p.oxf[u].clone()),
            3 => self.job.set_threshold(TH[u]),
            _ => {
                let (b, w, jw) = (p.xf[u / 21].clone(), LW[u / 3 % 7], joint_weights(v % 3));
                let (i, had) = (self.at(s), self.have[s / 2 - 2][s % 2]);
                self.have[s / 2 - 2][s % 2] = true;
                let l = self.list(s);
                if had && rng.chance(1, 2) {
                    // changed in place
                    l[i].transform = b;
                    l[i].weight = w;
                    l[i].joint_weights = jw;
                } else {
                    let x = match rng.below(3) {
                        0 if v % 3 == 0 => BlendingLayer::with_weight(b, w),
                        1 => {
                            let mut x = BlendingLayer::with_joint_weights(b, jw);
                            x.weight = w;
                            x
                        }
                        _ => {
                            let mut x = BlendingLayer::new(b);
                            x.weight = w;
                            x.joint_weights = jw;
                            x
                        }
                    };
                    if had {
                        l[i] = x;
                    } else {
                        l.insert(i, x);
                    }
                }
            }
        }
    }
    fn clear(&mut self, _: &Pool, s: usize, rng: &mut Rng) {
        match s {
            0 => self.job.clear_skeleton(),
            1 if rng.chance(1, 2) => self.taken = self.job.take_context(),
            1 => self.job.clear_context(),
            2 => self.job.clear_output(),
            3 => self.job.set_threshold(TH[0]),
            _ => {
                let i = self.at(s);
                if std::mem::replace(&mut self.have[s / 2 - 2][s % 2], false) {
                    self.list(s).remove(i);
                }
            }
        }
    }
    fn get(&self, p: &Pool, s: usize) -> i64 {
        match s {
            0 => which(&p.skels, self.job.skeleton()),
            1 => self.job.context().map_or(NONE, |_| self.ctx),
            2 => which(&p.oxf, self.job.output()),
            3 => code_of(&TH, self.job.threshold()),
            _ => {
                let l = if s < 6 { self.job.layers() } else { self.job.additive_layers() };
                let h = self.have[s / 2 - 2];
                if l.len() != h.iter().filter(|x| **x).count() {
                    return BAD;
                }
                if !h[s % 2] {
                    return NONE;
                }
                let l = &l[self.at(s)];
                let (b, w) = (which(&p.xf, Some(&l.transform)), code_of(&LW, l.weight));
                let j = (0..3).find(|k| bytes_of(&joint_weights(*k)) == bytes_of(&l.joint_weights)).unwrap_or(BAD);
                if b < 0 || w < 0 || j < 0 {
                    BAD
                } else {
                    b * 21 + w * 3 + j
                }
            }
        }
    }
    fn valid(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
}

// ---------------------------------------------------------------------------------- local to model

const FROM: [i64; 5] = [-1, 0, 2, 4, 100];
const TO: [i64; 5] = [1024, 1, 3, 0, -1];

const NEAR: [f32; 3] = [0.0625, 0.06250012, 0.06255];

fn root(v: i64) -> Mat4 {
    match v {
        0 => Mat4::IDENTITY,
        1 => Mat4::from_scale_rotation_translation(Vec3::new(2.0, 1.0, 0.5), Quat::from_xyzw(0.0, 0.6, 0.0, 0.8), Vec3::new(1.0, -2.0, 3.0)),
        2 => Mat4::from_translation(Vec3::new(7.0, 8.0, 9.0)),
        _ => root(1) + Mat4::from_cols_array(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, NEAR[v as usize - 3], 0.0, 0.0]),
    }
}

fn mat_code(m: &Mat4, n: i64, f: fn(i64) -> Mat4) -> i64 {
    (0..n).find(|v| f(*v).to_cols_array().map(f32::to_bits) == m.to_cols_array().map(f32::to_bits)).unwrap_or(BAD)
}

struct JLtm(LocalToModelJob);
impl Job for JLtm {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("skeleton", K::Req(5)), ("input", K::Req(4)), ("output", K::Req(2)), ("root", K::Val(6)), ("from", K::Val(5)), ("to", K::Val(5)), ("from_excluded", K::Val(2))]
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, rng: &mut Rng) {
        let u = v as usize;
        match s {
            0 => self.0.set_skeleton(p.skels[u].clone()),
            1 => self.0.set_input(p.xf[u].clone()),
            2 => self.0.set_output(p.omat[u].clone()),
            3 => self.0.set_root(&root(v)),
            4 | 5 => {
                let x = if s == 4 { FROM[u] } else { TO[u] };
                match (s, rng.below(3)) {
                    (4, 0) if x >= 0 => self.0.set_from(x as usize),
                    (4, 1) => self.0.set_from(x as i16),
                    (4, _) => self.0.set_from(x as i32),
                    (_, 0) if x >= 0 => self.0.set_to(x as usize),
                    (_, 1) => self.0.set_to(x as i16),
                    _ => self.0.set_to(x as i32),
                }
            }
            _ => self.0.set_from_excluded(v == 1),
        }
    }
    fn clear(&mut self, p: &Pool, s: usize, rng: &mut Rng) {
        match s {
            0 => self.0.clear_skeleton(),
            1 => self.0.clear_input(),
            2 => self.0.clear_output(),
            _ => self.set(p, s, 0, rng),
        }
    }
    fn get(&self, p: &Pool, s: usize) -> i64 {
        match s {
            0 => which(&p.skels, self.0.skeleton()),
            1 => which(&p.xf, self.0.input()),
            2 => which(&p.omat, self.0.output()),
            3 => mat_code(&self.0.root(), 6, root),
            4 => FROM.iter().position(|x| *x == self.0.from() as i64).map_or(BAD, |i| i as i64),
            5 => TO.iter().position(|x| *x == self.0.to() as i64).map_or(BAD, |i| i as i64),
            _ => self.0.from_excluded() as i64,
        }
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

// --------------------------------------------------------------------------------------- skinning

const VC: [usize; 4] = [0, 2, 3, 1];
const INF: [usize; 6] = [0, 1, 2, 3, 4, 5];

struct JSkinning(SkinningJob);
impl Job for JSkinning {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("vertex_count", K::Val(4)), ("influences_count", K::Val(6)), ("joint_matrices", K::Req(2)), ("joint_it_matrices", K::Opt(2)),
            ("joint_indices", K::Req(2)), ("joint_weights", K::Opt(2)), ("in_positions", K::Req(3)), ("in_normals", K::Opt(3)), ("in_tangents", K::Opt(3)),
            ("out_positions", K::Req(2)), ("out_normals", K::Opt(1)), ("out_tangents", K::Opt(1))]
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, _: &mut Rng) {
        let (j, u) = (&mut self.0, v as usize);
        match s {
            0 => j.set_vertex_count(VC[u]),
            1 => j.set_influences_count(INF[u]),
            2 => j.set_joint_matrices(p.mats[u].clone()),
            3 => j.set_joint_it_matrices(p.mats[u].clone()),
            4 => j.set_joint_indices(p.idx[u].clone()),
            5 => j.set_joint_weights(p.wts[u].clone()),
            6 => j.set_in_positions(p.v3[u].clone()),
            7 => j.set_in_normals(p.v3[u].clone()),
            8 => j.set_in_tangents(p.v3[u].clone()),
            9 => j.set_out_positions(p.ov3[u].clone()),
            10 => j.set_out_normals(p.ov3[2 + u].clone()),
            _ => j.set_out_tangents(p.ov3[3 + u].clone()),
        }
    }
    fn clear(&mut self, p: &Pool, s: usize, rng: &mut Rng) {
        let j = &mut self.0;
        match s {
            0 | 1 => self.set(p, s, 0, rng),
            2 => j.clear_joint_matrices(),
            3 => j.clear_joint_it_matrices(),
            4 => j.clear_joint_indices(),
            5 => j.clear_joint_weights(),
            6 => j.clear_in_positions(),
            7 => j.clear_in_normals(),
            8 => j.clear_in_tangents(),
            9 => j.clear_out_positions(),
            10 => j.clear_out_normals(),
            _ => j.clear_out_tangents(),
        }
    }
    fn get(&self, p: &Pool, s: usize) -> i64 {
        let j = &self.0;
        match s {
            0 => VC.iter().position(|x| *x == j.vertex_count()).map_or(BAD, |i| i as i64),
            1 => INF.iter().position(|x| *x == j.influences_count()).map_or(BAD, |i| i as i64),
            2 => which(&p.mats, j.joint_matrices()),
            3 => which(&p.mats, j.joint_it_matrices()),
            4 => which(&p.idx, j.joint_indices()),
            5 => which(&p.wts, j.joint_weights()),
            6 => which(&p.v3, j.in_positions()),
            7 => which(&p.v3, j.in_normals()),
            8 => which(&p.v3, j.in_tangents()),
            9 => which(&p.ov3[..2], j.out_positions()),
            10 => which(&p.ov3[2..3], j.out_normals()),
            _ => which(&p.ov3[3..], j.out_tangents()),
        }
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

// ----------------------------------------------------------------------------------------- tracks

const TRATIO: [f32; 10] = [0.0, 0.25, 0.6, 1.0, -0.5, 1.5, f32::INFINITY, 0.4, 0.40000004, 0.40005];

struct JTrack(TrackSamplingJob<f32>);
impl Job for JTrack {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("track", K::Req(5)), ("ratio", K::Val(10))]
    }
    fn outs(&self) -> Vec<u8> {
        self.0.result().to_le_bytes().to_vec()
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, _: &mut Rng) {
        match s {
            0 => self.0.set_track(p.tracks[v as usize].clone()),
            _ => self.0.set_ratio(TRATIO[v as usize]),
        }
    }
    fn clear(&mut self, _: &Pool, s: usize, _: &mut Rng) {
        match s {
            0 => self.0.clear_track(),
            _ => self.0.set_ratio(0.0),
        }
    }
    fn get(&self, p: &Pool, s: usize) -> i64 {
        match s {
            0 => which(&p.tracks, self.0.track()),
            _ => code_of(&TRATIO, self.0.ratio()),
        }
    }
    fn clear_outs(&mut self, rng: &mut Rng) {
        if rng.chance(1, 2) {
            self.0.clear_outs()
        } else {
            self.0.clear_result()
        }
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

const TRIG: [f32; 9] = [0.0, 0.5, 1.0, -1.25, 2.5, 3.0, 0.75, 0.75000006, 0.75005];

struct JTrigger(TrackTriggeringJob, Vec<u8>);
impl Job for JTrigger {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("track", K::Req(5)), ("from", K::Val(9)), ("to", K::Val(9)), ("threshold", K::Val(9))]
    }
    fn outs(&self) -> Vec<u8> {
        self.1.clone()
    }
    fn set(&mut self, p: &Pool, s: usize, v: i64, _: &mut Rng) {
        let u = v as usize;
        match s {
            0 => self.0.set_track(p.tracks[u].clone()),
            1 => self.0.set_from(TRIG[u]),
            2 => self.0.set_to(TRIG[u]),
            _ => self.0.set_threshold(TRIG[u]),
        }
    }
    fn clear(&mut self, p: &Pool, s: usize, rng: &mut Rng) {
        match s {
            0 => self.0.clear_track(),
            _ => self.set(p, s, 0, rng),
        }
    }
    fn get(&self, p: &Pool, s: usize) -> i64 {
        match s {
            0 => which(&p.tracks, self.0.track()),
            1 => code_of(&TRIG, self.0.from()),
            2 => code_of(&TRIG, self.0.to()),
            _ => code_of(&TRIG, self.0.threshold()),
        }
    }
    fn clear_outs(&mut self, _: &mut Rng) {
        self.1 = vec![];
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        let v: Vec<String> = self.0.run()?.take(200).map(|e| format!("{e:?}")).collect();
        self.1 = v.join(";").into_bytes();
        Ok(())
    }
}

// ----------------------------------------------------------------------------------------- motion

/// layer code: delta * 7 + weight
fn delta(k: i64) -> Transform3A {
    Transform3A {
        translation: Vec3A::new(3.0 * k as f32, 4.0, k as f32 - 2.0),
        rotation: Quat::from_array(crate::sampling::quat_about(k as usize % 3, 30.0 * k as f64).map(|x| x as f32)),
        scale: Vec3A::ONE,
    }
}

fn bits_of_transform(t: &Transform3A) -> Vec<u8> {
    let mut v = vec![];
    for x in t.translation.to_array().iter().chain(t.rotation.to_array().iter()).chain(t.scale.to_array().iter()) {
        v.extend(x.to_le_bytes());
    }
    v
}

struct JMotion(MotionBlendingJob, [bool; 3]);
impl JMotion {
    fn at(&self, s: usize) -> usize {
        self.1[..s].iter().filter(|x| **x).count()
    }
}
impl Job for JMotion {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("layer0", K::Layer(28)), ("layer1", K::Layer(28)), ("layer2", K::Layer(28))]
    }
    fn outs(&self) -> Vec<u8> {
        bits_of_transform(&self.0.output())
    }
    fn set(&mut self, _: &Pool, s: usize, v: i64, rng: &mut Rng) {
        let i = self.at(s);
        let mut d = delta(v / 7);
        d.translation = vec3a(d.translation.to_array(), rng);
        let l = MotionBlendingLayer { weight: LW[v as usize % 7], delta: d };
        if self.1[s] {
            self.0.layers_mut()[i] = l;
        } else {
            self.0.layers_mut().insert(i, l);
        }
        self.1[s] = true;
    }
    fn clear(&mut self, _: &Pool, s: usize, _: &mut Rng) {
        let i = self.at(s);
        if std::mem::replace(&mut self.1[s], false) {
            self.0.layers_mut().remove(i);
        }
    }
    fn get(&self, _: &Pool, s: usize) -> i64 {
        if self.0.layers().len() != self.at(3) {
            return BAD;
        }
        if !self.1[s] {
            return NONE;
        }
        let l = &self.0.layers()[self.at(s)];
        let d = (0..4).find(|k| bits_of_transform(&delta(*k)) == bits_of_transform(&l.delta)).unwrap_or(BAD);
        let w = code_of(&LW, l.weight);
        if d < 0 || w < 0 {
            BAD
        } else {
            d * 7 + w
        }
    }
    fn clear_outs(&mut self, _: &mut Rng) {
        self.0.clear_output();
    }
    fn valid(&self) -> Option<bool> {
        Some(self.0.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

// ---------------------------------------------------------------------------- inverse kinematics

const TARGET: [[f32; 3]; 7] = [[0.0, 0.0, 0.0], [1.0, 1.5, 0.5], [-3.0, 0.25, 2.0], [0.25, -0.5, 0.75], [0.75, 1.25, -0.5], [0.75, 1.2500001, -0.5], [0.75, 1.25, -0.50005]];
const XAX: [[f32; 3]; 7] = [[1.0, 0.0, 0.0], [0.6, 0.0, 0.8], [0.0, 0.0, 1.0], [0.5, 0.0, 0.5], [0.8, 0.6, 0.0], [0.8, 0.6000001, 0.0], [0.8, 0.60005, 0.0]];
const ZAX: [[f32; 3]; 7] = [[0.0, 0.0, 1.0], [0.6, 0.0, 0.8], [1.0, 0.0, 0.0], [0.5, 0.0, 0.5], [0.0, 0.6, 0.8], [0.0, 0.6000001, 0.8], [0.0, 0.6, 0.80005]];
const OFFS: [[f32; 3]; 6] = [[0.0, 0.0, 0.0], [0.1, 0.2, -0.3], [5.0, 4.0, 3.0], [0.2, 0.1, 0.05], [0.2, 0.1, 0.050000004], [0.2, 0.10005, 0.05]];
const YAX: [[f32; 3]; 7] = [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.3, 0.4, 0.5], [1.0, 0.0, 0.0], [0.0, 0.8, 0.6], [0.0, 0.8, 0.6000001], [0.00005, 0.8, 0.6]];
const TWIST: [f32; 6] = [0.0, 1.0, -2.5, 0.5, 0.50000006, 0.50005];
const WONE: [f32; 9] = [1.0, 0.5, 0.0, -1.0, 2.0, 0.25, 0.75, 0.75000006, 0.75005];
const SOFT: [f32; 8] = [1.0, 0.5, 0.97, 2.0, -1.0, 0.75, 0.75000006, 0.75005];

fn joint(v: i64) -> Mat4 {
    let q = |k: usize, a: f64| Quat::from_array(crate::sampling::quat_about(k, a).map(|x| x as f32));
    match v {
        0 => Mat4::IDENTITY,
        1 => Mat4::from_rotation_translation(q(0, 40.0), Vec3::new(0.0, 1.0, 0.0)),
        2 => Mat4::from_rotation_translation(q(2, 75.0), Vec3::new(1.0, 1.0, 0.25)),
        3 => Mat4::from_scale_rotation_translation(Vec3::splat(2.0), q(1, -30.0), Vec3::new(0.5, -1.0, 2.0)),
        _ => Mat4::from_rotation_translation(q(0, 40.0), Vec3::new(1.0 + NEAR[v as usize - 4], 1.0, 0.0)),
    }
}

struct JAim(IKAimJob);
impl Job for JAim {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("target", K::Val(7)), ("forward", K::Val(7)), ("offset", K::Val(6)), ("up", K::Val(7)), ("pole_vector", K::Val(7)), ("twist_angle", K::Val(6)),
            ("weight", K::Val(9)), ("joint", K::Val(7))]
    }
    fn outs(&self) -> Vec<u8> {
        let mut v = bytes_of(&self.0.joint_correction().to_array()).to_vec();
        v.push(self.0.reached() as u8);
        v
    }
    fn set(&mut self, _: &Pool, s: usize, v: i64, rng: &mut Rng) {
        let (j, u) = (&mut self.0, v as usize);
        match s {
            0 => j.set_target(vec3a(TARGET[u], rng)),
            1 => j.set_forward(vec3a(XAX[u], rng)),
            2 => j.set_offset(vec3a(OFFS[u], rng)),
            3 => j.set_up(vec3a(YAX[u], rng)),
            4 => j.set_pole_vector(vec3a(YAX[u], rng)),
            5 => j.set_twist_angle(TWIST[u]),
            6 => j.set_weight(WONE[u]),
            _ => j.set_joint(joint(v)),
        }
    }
    fn clear(&mut self, p: &Pool, s: usize, rng: &mut Rng) {
        self.set(p, s, 0, rng)
    }
    fn get(&self, _: &Pool, s: usize) -> i64 {
        let j = &self.0;
        match s {
            0 => code3(&TARGET, j.target().to_array()),
            1 => code3(&XAX, j.forward().to_array()),
            2 => code3(&OFFS, j.offset().to_array()),
            3 => code3(&YAX, j.up().to_array()),
            4 => code3(&YAX, j.pole_vector().to_array()),
            5 => code_of(&TWIST, j.twist_angle()),
            6 => code_of(&WONE, j.weight()),
            _ => mat_code(&j.joint(), 7, joint),
        }
    }
    fn clear_outs(&mut self, rng: &mut Rng) {
        if rng.chance(1, 2) {
            self.0.clear_outs();
        } else {
            self.0.clear_joint_correction();
            self.0.clear_reached();
        }
    }
    fn valid(&self) -> Option<bool> {
        None
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

struct JTwo(IKTwoBoneJob);
impl Job for JTwo {
    fn slots(&self) -> Vec<(&'static str, K)> {
        vec![("target", K::Val(7)), ("mid_axis", K::Val(7)), ("pole_vector", K::Val(7)), ("twist_angle", K::Val(6)), ("soften", K::Val(8)), ("weight", K::Val(9)),
            ("start_joint", K::Val(7)), ("mid_joint", K::Val(7)), ("end_joint", K::Val(7))]
    }
    fn outs(&self) -> Vec<u8> {
        let mut v = bytes_of(&self.0.start_joint_correction().to_array()).to_vec();
        v.extend_from_slice(bytes_of(&self.0.mid_joint_correction().to_array()));
        v.push(self.0.reached() as u8);
        v
    }
    fn set(&mut self, _: &Pool, s: usize, v: i64, rng: &mut Rng) {
        let (j, u) = (&mut self.0, v as usize);
        match s {
            0 => j.set_target(vec3a(TARGET[u], rng)),
            1 => j.set_mid_axis(vec3a(ZAX[u], rng)),
            2 => j.set_pole_vector(vec3a(YAX[u], rng)),
            3 => j.set_twist_angle(TWIST[u]),
            4 => j.set_soften(SOFT[u]),
            5 => j.set_weight(WONE[u]),
            6 => j.set_start_joint(joint(v)),
            7 => j.set_mid_joint(joint(v)),
            _ => j.set_end_joint(joint(v)),
        }
    }
    fn clear(&mut self, p: &Pool, s: usize, rng: &mut Rng) {
        self.set(p, s, 0, rng)
    }
    fn get(&self, _: &Pool, s: usize) -> i64 {
        let j = &self.0;
        match s {
            0 => code3(&TARGET, j.target().to_array()),
            1 => code3(&ZAX, j.mid_axis().to_array()),
            2 => code3(&YAX, j.pole_vector().to_array()),
            3 => code_of(&TWIST, j.twist_angle()),
            4 => code_of(&SOFT, j.soften()),
            5 => code_of(&WONE, j.weight()),
            6 => mat_code(&j.start_joint(), 7, joint),
            7 => mat_code(&j.mid_joint(), 7, joint),
            _ => mat_code(&j.end_joint(), 7, joint),
        }
    }
    fn clear_outs(&mut self, rng: &mut Rng) {
        if rng.chance(1, 2) {
            self.0.clear_outs();
        } else {
            self.0.clear_start_joint_correction();
            self.0.clear_mid_joint_correction();
            self.0.clear_reached();
        }
    }
    fn valid(&self) -> Option<bool> {
        None
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
}

// ----------------------------------------------------------------------------------------- driver

const JOBS: [&str; 9] = ["sampling", "blending", "ltm", "skinning", "tracksampling", "tracktriggering", "motion", "aim", "twobone"];

fn make(job: &str) -> Box<dyn Job> {
    match job {
        "sampling" => Box::new(JSampling(SamplingJob::default(), None)),
        "blending" => Box::new(JBlending { job: BlendingJob::default(), ctx: 0, taken: None, have: [[false; 2]; 2] }),
        "ltm" => Box::new(JLtm(LocalToModelJob::default())),
        "skinning" => Box::new(JSkinning(SkinningJob::default())),
        "tracksampling" => Box::new(JTrack(TrackSamplingJob::default())),
        "tracktriggering" => Box::new(JTrigger(TrackTriggeringJob::default(), vec![])),
        "motion" => Box::new(JMotion(MotionBlendingJob::default(), [false; 3])),
        "aim" => Box::new(JAim(IKAimJob::default())),
        "twobone" => Box::new(JTwo(IKTwoBoneJob::default())),
        j => panic!("{j}"),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize, i64),
    Clear(usize),
    Edit(usize, i64),
    ClearOuts,
    Run,
}

/// The resources, one more, and another of the same name, layout and size that differs in its values.
fn with_twins<T: serde::Serialize + serde::de::DeserializeOwned>(v: Vec<T>, one: T, field: &str) -> Vec<Rc<T>> {
    let mut j = serde_json::to_value(&one).unwrap();
    let a = j[field].as_array_mut().unwrap();
    a.rotate_left(1);
    let two: T = serde_json::from_value(j).unwrap();
    v.into_iter().chain([one, two]).map(Rc::new).collect()
}

struct World {
    pool: Pool,
    job: Box<dyn Job>,
    slots: Vec<(&'static str, K)>,
    /// what was last asked for
    want: Vec<i64>,
    it: Intern,
}

impl World {
    fn new(job: &str, d: Data) -> World {
        let job = make(job);
        let slots = job.slots();
        let want = slots.iter().map(|s| if matches!(s.1, K::Val(_) | K::Ratio | K::Own(_)) { 0 } else { NONE }).collect();
        World { pool: Pool::new(d), job, slots, want, it: Intern::new() }
    }
    fn state(&mut self) -> (Value, usize, usize) {
        let gets: Vec<i64> = (0..self.slots.len()).map(|s| self.job.get(&self.pool, s)).collect();
        let (i, mut o) = self.pool.bytes();
        o.extend(self.job.outs());
        (json!(gets), self.it.id(&i), self.it.id(&o))
    }
    fn step(&mut self, name: &str, op: &Op, rng: &mut Rng) -> Value {
        let mut e = match op {
            Op::Set(s, v) => {
                let r = guard(|| self.job.set(&self.pool, *s, *v, rng));
                self.want[*s] = *v;
                json!({"op": "set", "s": s + 1, "v": v, "res": if r.is_ok() { "ok" } else { "panic" }})
            }
            Op::Clear(s) => {
                let r = guard(|| self.job.clear(&self.pool, *s, rng));
                self.want[*s] = if matches!(self.slots[*s].1, K::Val(_) | K::Ratio) { 0 } else { NONE };
                json!({"op": "clear", "s": s + 1, "res": if r.is_ok() { "ok" } else { "panic" }})
            }
            Op::Edit(b, v) => {
                self.pool.edit(*b, *v);
                json!({"op": "edit", "b": b, "v": v, "res": "ok"})
            }
            Op::ClearOuts => {
                let r = guard(|| self.job.clear_outs(rng));
                // by-value outputs go back to those of a new job
                let (_, mut o) = self.pool.bytes();
                o.extend(make(name).outs());
                json!({"op": "clearouts", "cleared": self.it.id(&o), "res": if r.is_ok() { "ok" } else { "panic" }})
            }
            Op::Run => {
                // a new job of the same parameters over copies of the buffers
                let fp = self.pool.copy();
                let mut f = make(name);
                let mut order: Vec<usize> = (0..self.slots.len()).collect();
                if !matches!(name, "blending" | "motion") {
                    rng.shuffle(&mut order);
                }
                for s in order {
                    if self.want[s] != NONE {
                        f.set(&fp, s, self.want[s], rng);
                    } else if matches!(self.slots[s].1, K::Own(_)) {
                        f.clear(&fp, s, rng);
                    }
                }
                let before = self.job.outs();
                let fb = f.outs();
                let fvalid = guard(|| f.valid());
                let fres = guard(|| f.run());
                let (fi, mut fo) = fp.bytes();
                // a run that fails leaves the outputs held by value as they were
                fo.extend(if matches!(fres, Ok(Ok(_))) || f.outs() != fb { f.outs() } else { before });
                let valid = guard(|| self.job.valid());
                let res = guard(|| self.job.run());
                let v = |v: Result<Option<bool>, ()>| match v {
                    Err(()) => "panic",
                    Ok(None) => "none",
                    Ok(Some(true)) => "true",
                    Ok(Some(false)) => "false",
                };
                json!({"op": "run", "valid": v(valid), "res": res_name(&res),
                    "fresh": {"valid": v(fvalid), "res": res_name(&fres), "ins": self.it.id(&fi), "outs": self.it.id(&fo)}})
            }
        };
        let (gets, ins, outs) = self.state();
        e["gets"] = gets;
        e["ins"] = json!(ins);
        e["outs"] = json!(outs);
        e
    }
}

fn codes(k: K) -> i64 {
    match k {
        K::Val(n) | K::Opt(n) | K::Req(n) | K::Own(n) | K::Layer(n) => n,
        K::Ratio => 10,
    }
}

/// Parameters under which the job runs, for a start.
fn usual(name: &str, slot: &str) -> i64 {
    match (name, slot) {
        ("blending", "layer0") => 1 * 21 + 3,
        ("blending", "add0") => 2 * 21 + 3,
        ("blending", "layer1" | "add1") => NONE,
        ("skinning", "vertex_count") => 1,
        ("skinning", "influences_count") => 2,
        ("skinning", "in_normals") => 1,
        ("motion", "layer0") => 1,
        ("motion", "layer1") => 8,
        ("motion", _) => NONE,
        ("tracktriggering", "to") => 4,
        ("tracktriggering", "track") => 2,
        ("aim" | "twobone", "target") => 1,
        ("twobone", "mid_joint") => 1,
        ("twobone", "end_joint") => 2,
        _ => 0,
    }
}

pub fn run_c19(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC19);
    let plan = args.plan.as_ref().unwrap();
    let header = |name: &str, w: &mut World| {
        let (gets, ins, outs) = w.state();
        let kinds: Vec<&str> = w
            .slots
            .iter()
            .map(|s| match s.1 {
                K::Val(_) => "val",
                K::Ratio => "ratio",
                K::Opt(_) => "opt",
                K::Req(_) => "req",
                K::Own(_) => "own",
                K::Layer(_) => "layer",
            })
            .collect();
        let names: Vec<&str> = w.slots.iter().map(|s| s.0).collect();
        json!({"job": name, "slots": names, "kinds": kinds, "gets": gets, "ins": ins, "outs": outs})
    };
    // the model's walks over two abstract parameters and a buffer, for every pair of parameters
    let walks = plan["walks"].as_array().unwrap();
    for name in JOBS {
        let slots = make(name).slots();
        for a in 0..slots.len() {
            for b in 0..slots.len() {
                if a == b || (!args.thorough && (a > b) && rng.chance(1, 2)) {
                    continue;
                }
                let w = rng.pick(walks).as_array().unwrap();
                let n = if args.thorough { w.len() } else { w.len().min(60) };
                let off = rng.below(w.len() - n + 1);
                let mut wd = World::new(name, Data(rng.next()));
                let hdr = header(name, &mut wd);
                rec.begin("pairs", &hdr);
                let mut ev = vec![];
                for s in 0..slots.len() {
                    let v = usual(name, slots[s].0);
                    if v != NONE {
                        let o = Op::Set(s, v);
                        ev.push(wd.step(name, &o, &mut rng));
                    }
                }
                let pick2 = |rng: &mut Rng, k: K| -> [i64; 2] {
                    let n = codes(k);
                    let a = rng.range(0, n - 1);
                    match (k, rng.below(3)) {
                        (K::Layer(_), 0) => {
                            let step = if name == "motion" { 1 } else { 3 };
                            let base = rng.range(0, n / (step * 7) - 1) * step * 7 + rng.range(0, step - 1);
                            let w = rng.range(4, 6);
                            [base + w * step, base + (4 + (w - 4 + rng.range(1, 2)) % 3) * step]
                        }
                        (_, 0) if n >= 6 => {
                            let i = rng.range(0, 2);
                            [n - 3 + i, n - 3 + (i + rng.range(1, 2)) % 3]
                        }
                        (_, 0) if n >= 2 => [n - 2, n - 1],
                        _ => [a, rng.range(0, n - 1)],
                    }
                };
                let (va, vb) = (pick2(&mut rng, slots[a].1), pick2(&mut rng, slots[b].1));
                let buf = rng.below(wd.pool.buffers());
                let other = *rng.pick(&[1, 4]);
                for st in &w[off..off + n] {
                    let st = st.as_array().unwrap();
                    let x = st[1].as_i64().unwrap();
                    let op = match st[0].as_str().unwrap() {
                        "A" if x < 0 => Op::Clear(a),
                        "A" => Op::Set(a, va[x as usize]),
                        "B" if x < 0 => Op::Clear(b),
                        "B" => Op::Set(b, vb[x as usize]),
                        "M" => Op::Edit(buf, if x == 1 { other } else { x }),
                        "O" => Op::ClearOuts,
                        _ => Op::Run,
                    };
                    ev.push(wd.step(name, &op, &mut rng));
                }
                rec.end("pairs", &hdr, ev);
            }
        }
    }
    // long random lives
    for round in 0..(if args.thorough { 60 } else { 8 }) {
        for name in JOBS {
            let mut wd = World::new(name, Data(rng.next()));
            let hdr = header(name, &mut wd);
            rec.begin("life", &hdr);
            let slots = wd.slots.clone();
            let mut ev = vec![];
            for _ in 0..90 {
                let missing: Vec<usize> = (0..slots.len()).filter(|s| wd.want[*s] == NONE && usual(name, slots[*s].0) != NONE).collect();
                let short: Vec<usize> = (0..slots.len()).collect();
                let op = match rng.below(20) {
                    0..=7 => Op::Run,
                    8..=10 if !missing.is_empty() => {
                        let s = *rng.pick(&missing);
                        Op::Set(s, usual(name, slots[s].0))
                    }
                    8..=14 => {
                        let s = *rng.pick(&short);
                        // small values keep the job valid more often, and coming back to earlier parameters
                        let n = codes(slots[s].1);
                        let v = if rng.chance(2, 3) { rng.range(0, (n - 1).min(1 + round as i64 % 3)) } else { rng.range(0, n - 1) };
                        Op::Set(s, v)
                    }
                    15 => Op::Clear(*rng.pick(&short)),
                    16..=18 => {
                        let b = rng.below(wd.pool.buffers());
                        Op::Edit(b, *rng.pick(&[0, 0, 1, 1, 2, 2, 4, 4, 4, 3]))
                    }
                    _ => Op::ClearOuts,
                };
                ev.push(wd.step(name, &op, &mut rng));
            }
            rec.end("life", &hdr, ev);
        }
    }
}
