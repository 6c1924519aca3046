//! Every job in every buffer style, driven from a configuration record (C11, C14).
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use glam::{Mat4, Quat, Vec3, Vec3A, Vec4};
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::{Arc, RwLock};

pub const HUGE: i64 = 1_000_000_000;

// ----------------------------------------------------------------------------------------- styles

pub trait Style: 'static {
    type In<T: Debug + Clone + 'static>: OzzBuf<T>;
    type Out<T: Debug + Clone + 'static>: OzzMutBuf<T>;
    type Obj<T: Debug + 'static>: OzzObj<T>;
    const NAME: &'static str;
    fn input<T: Debug + Clone + Send + Sync + 'static>(name: &str, v: Vec<T>, poison: bool) -> Self::In<T>;
    fn output<T: Debug + Clone + Send + Sync + 'static>(name: &str, v: Vec<T>, poison: bool) -> Self::Out<T>;
    fn peek<T: Debug + Clone + 'static>(o: &Self::Out<T>) -> Vec<T>;
    /// `pool`: where the objects of this style stay alive, by code
    fn obj<T: Debug + 'static>(pool: &mut Vec<(i64, Self::Obj<T>)>, code: i64, mk: &dyn Fn() -> T) -> Self::Obj<T>;
    /// neither locked nor borrowed by anybody
    fn free<T: Debug + Clone + 'static>(_: &Self::Out<T>) -> bool {
        true
    }
    fn free_in<T: Debug + Clone + 'static>(_: &Self::In<T>) -> bool {
        true
    }
}

pub struct RefStyle;
impl Style for RefStyle {
    type In<T: Debug + Clone + 'static> = &'static [T];
    type Out<T: Debug + Clone + 'static> = &'static mut [T];
    type Obj<T: Debug + 'static> = &'static T;
    const NAME: &'static str = "ref";
    fn input<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, _: bool) -> &'static [T] {
        Box::leak(v.into_boxed_slice())
    }
    fn output<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, _: bool) -> &'static mut [T] {
        Box::leak(v.into_boxed_slice())
    }
    fn peek<T: Debug + Clone + 'static>(o: &&'static mut [T]) -> Vec<T> {
        o.to_vec()
    }
    fn obj<T: Debug + 'static>(pool: &mut Vec<(i64, &'static T)>, code: i64, mk: &dyn Fn() -> T) -> &'static T {
        if let Some(p) = pool.iter().find(|p| p.0 == code) {
            return p.1;
        }
        let o: &'static T = Box::leak(Box::new(mk()));
        pool.push((code, o));
        o
    }
}

pub struct VecStyle;
impl Style for VecStyle {
    type In<T: Debug + Clone + 'static> = Vec<T>;
    type Out<T: Debug + Clone + 'static> = Vec<T>;
    type Obj<T: Debug + 'static> = T;
    const NAME: &'static str = "vec";
    fn input<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, _: bool) -> Vec<T> {
        v
    }
    fn output<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, _: bool) -> Vec<T> {
        v
    }
    fn peek<T: Debug + Clone + 'static>(o: &Vec<T>) -> Vec<T> {
        o.clone()
    }
    fn obj<T: Debug + 'static>(_: &mut Vec<(i64, T)>, _: i64, mk: &dyn Fn() -> T) -> T {
        mk()
    }
}

pub struct RcStyle;
impl Style for RcStyle {
    type In<T: Debug + Clone + 'static> = Rc<RefCell<Vec<T>>>;
    type Out<T: Debug + Clone + 'static> = Rc<RefCell<Vec<T>>>;
    type Obj<T: Debug + 'static> = Rc<T>;
    const NAME: &'static str = "rc";
    fn input<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, _: bool) -> OzzRcBuf<T> {
        ozz_rc_buf(v)
    }
    fn output<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, _: bool) -> OzzRcBuf<T> {
        ozz_rc_buf(v)
    }
    fn peek<T: Debug + Clone + 'static>(o: &OzzRcBuf<T>) -> Vec<T> {
        unsafe { (*o.as_ptr()).clone() }
    }
    fn obj<T: Debug + 'static>(pool: &mut Vec<(i64, Rc<T>)>, code: i64, mk: &dyn Fn() -> T) -> Rc<T> {
        if let Some(p) = pool.iter().find(|p| p.0 == code) {
            return p.1.clone();
        }
        let o = Rc::new(mk());
        pool.push((code, o.clone()));
        o
    }
    fn free<T: Debug + Clone + 'static>(o: &OzzRcBuf<T>) -> bool {
        o.try_borrow_mut().is_ok()
    }
    fn free_in<T: Debug + Clone + 'static>(o: &OzzRcBuf<T>) -> bool {
        o.try_borrow_mut().is_ok()
    }
}

pub fn poison_lock<T>(b: &Arc<RwLock<T>>) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = b.write();
        panic!("poison");
    }));
}

fn lock_free<T>(o: &Arc<RwLock<T>>) -> bool {
    !matches!(o.try_write(), Err(std::sync::TryLockError::WouldBlock))
}

pub struct ArcStyle;
impl Style for ArcStyle {
    type In<T: Debug + Clone + 'static> = Arc<RwLock<Vec<T>>>;
    type Out<T: Debug + Clone + 'static> = Arc<RwLock<Vec<T>>>;
    type Obj<T: Debug + 'static> = Arc<T>;
    const NAME: &'static str = "arc";
    fn input<T: Debug + Clone + Send + Sync + 'static>(_: &str, v: Vec<T>, poison: bool) -> OzzArcBuf<T> {
        let b = ozz_arc_buf(v);
        if poison {
            poison_lock(&b);
        }
        b
    }
    fn output<T: Debug + Clone + Send + Sync + 'static>(name: &str, v: Vec<T>, poison: bool) -> OzzArcBuf<T> {
        Self::input(name, v, poison)
    }
    fn peek<T: Debug + Clone + 'static>(o: &OzzArcBuf<T>) -> Vec<T> {
        match o.try_read() {
            Ok(g) => g.clone(),
            Err(std::sync::TryLockError::Poisoned(e)) => e.into_inner().clone(),
            Err(_) => vec![],
        }
    }
    fn obj<T: Debug + 'static>(pool: &mut Vec<(i64, Arc<T>)>, code: i64, mk: &dyn Fn() -> T) -> Arc<T> {
        if let Some(p) = pool.iter().find(|p| p.0 == code) {
            return p.1.clone();
        }
        let o = Arc::new(mk());
        pool.push((code, o.clone()));
        o
    }
    fn free<T: Debug + Clone + 'static>(o: &OzzArcBuf<T>) -> bool {
        lock_free(o)
    }
    fn free_in<T: Debug + Clone + 'static>(o: &OzzArcBuf<T>) -> bool {
        lock_free(o)
    }
}

// ------------------------------------------------------------------------------------------- data

/// Content of buffers and objects: a function of the seed, the member's name and its size.
#[derive(Clone, Copy)]
pub struct Data(pub u64);

impl Data {
    fn rng(&self, name: &str, len: i64) -> Rng {
        let mut h = self.0 ^ 0x51;
        for b in name.bytes() {
            h = h.wrapping_mul(1099511628211) ^ b as u64;
        }
        Rng::new(h ^ ((len as u64) << 40))
    }
    pub fn anim(&self, n: i64) -> Animation {
        let mut rng = self.rng("anim", n);
        let n = n as usize;
        let td = 8;
        let times = |rng: &mut Rng| -> Vec<Vec<i64>> {
            (0..n)
                .map(|_| {
                    let mut v = vec![0, td];
                    for _ in 0..rng.below(3) {
                        v.push(rng.range(1, td - 1));
                    }
                    v.sort();
                    v.dedup();
                    v
                })
                .collect()
        };
        let t = [times(&mut rng), times(&mut rng), times(&mut rng)];
        crate::sampling::anim_of_times(&mut rng, td, &t, [0, 0, 0]).animation()
    }
    pub fn skel(&self, n: i64) -> Skeleton {
        let mut rng = self.rng("skel", n);
        let p = random_parents(&mut rng, n as usize, true);
        let mut s = SkelSpec::simple(&p);
        for r in s.rest.iter_mut() {
            for c in 0..3 {
                r[c] = rng.range(-16, 16) as f32;
            }
        }
        s.skeleton()
    }
    pub fn xforms(&self, name: &str, n: i64) -> Vec<SoaTransform> {
        let mut rng = self.rng(name, n);
        (0..n)
            .map(|_| {
                let mut x = SoaTransform::IDENTITY;
                for k in 0..4 {
                    x.translation.x[k] = rng.range(-64, 64) as f32 / 8.0;
                    x.translation.y[k] = rng.range(-64, 64) as f32 / 8.0;
                    x.translation.z[k] = rng.range(-64, 64) as f32 / 8.0;
                    x.scale.x[k] = rng.range(1, 32) as f32 / 8.0;
                    let q = crate::sampling::quat_about(rng.below(3), rng.range(-80, 80) as f64);
                    x.rotation.x[k] = q[0] as f32;
                    x.rotation.y[k] = q[1] as f32;
                    x.rotation.z[k] = q[2] as f32;
                    x.rotation.w[k] = q[3] as f32;
                }
                x
            })
            .collect()
    }
    pub fn vec3(&self, name: &str, n: i64) -> Vec<Vec3> {
        let mut rng = self.rng(name, n);
        (0..n).map(|_| Vec3::new(rng.range(-64, 64) as f32 / 4.0, rng.range(-64, 64) as f32 / 4.0, rng.range(-64, 64) as f32 / 4.0)).collect()
    }
    pub fn mats(&self, name: &str, n: i64) -> Vec<Mat4> {
        let mut rng = self.rng(name, n);
        (0..n)
            .map(|_| {
                let q = crate::sampling::quat_about(rng.below(3), rng.range(-170, 170) as f64).map(|x| x as f32);
                Mat4::from_rotation_translation(Quat::from_array(q), Vec3::new(rng.range(-9, 9) as f32, 1.0, 2.0))
            })
            .collect()
    }
    fn joint_weights(&self, n: i64) -> Vec<Vec4> {
        let mut rng = self.rng("jw", n);
        (0..n).map(|_| Vec4::new(rng.range(-1, 4) as f32 / 4.0, rng.range(0, 4) as f32 / 4.0, 1.0, rng.range(0, 4) as f32 / 4.0)).collect()
    }
}

// ---------------------------------------------------------------------------------------- drivers

pub trait Driver {
    fn apply(&mut self, c: &Value);
    fn validate(&self) -> Option<bool>;
    fn run(&mut self) -> Result<(), OzzError>;
    /// bytes of every output
    fn outs(&self) -> Vec<u8>;
    fn free(&self) -> bool;
}

fn g(c: &Value, k: &str) -> i64 {
    c[k].as_i64().unwrap_or_else(|| panic!("{k} in {c}"))
}

fn poisoned(c: &Value, k: &str) -> bool {
    c["poison"].as_array().map_or(false, |p| p.iter().any(|x| x == k))
}

fn dump<T>(o: &mut Vec<u8>, v: &[T]) {
    o.extend_from_slice(&(v.len() as u64).to_le_bytes());
    o.extend_from_slice(bytes_of(v));
}

struct DSampling<S: Style> {
    d: Data,
    job: SamplingJob<S::Obj<Animation>, S::Out<SoaTransform>>,
    pool: Vec<(i64, S::Obj<Animation>)>,
    last: Option<(i64, i64)>,
}

impl<S: Style> Driver for DSampling<S> {
    fn apply(&mut self, c: &Value) {
        let d = self.d;
        let (a, x) = (g(c, "anim"), g(c, "ctx"));
        match a {
            -1 => self.job.clear_animation(),
            n => {
                // an owned animation replaces the previous one at the same address: its context starts over
                self.job.set_animation(S::obj(&mut self.pool, n, &|| d.anim(n)));
            }
        }
        let keep = self.last.map_or(false, |l| l.1 == x && (S::NAME != "vec" || l.0 == a));
        if !keep {
            match x {
                -1 => self.job.clear_context(),
                n => self.job.set_context(SamplingContext::new(n as usize)),
            }
        }
        self.last = Some((a, x));
        match g(c, "out") {
            -1 => self.job.clear_output(),
            n => self.job.set_output(S::output("out", d.xforms("out", n), poisoned(c, "out"))),
        }
        self.job.set_ratio(c["ratio"].as_f64().unwrap_or(0.3) as f32);
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
    fn outs(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(b) = self.job.output() {
            dump(&mut o, &S::peek(b));
        }
        o
    }
    fn free(&self) -> bool {
        self.job.output().map_or(true, |o| S::free(o))
    }
}

struct DBlending<S: Style> {
    d: Data,
    job: BlendingJob<S::Obj<Skeleton>, S::In<SoaTransform>, S::Out<SoaTransform>>,
    pool: Vec<(i64, S::Obj<Skeleton>)>,
    last: Option<i64>,
}

impl<S: Style> Driver for DBlending<S> {
    fn apply(&mut self, c: &Value) {
        let d = self.d;
        match g(c, "skel") {
            -1 => self.job.clear_skeleton(),
            n => self.job.set_skeleton(S::obj(&mut self.pool, n, &|| d.skel(n))),
        }
        let x = g(c, "ctx");
        if self.last != Some(x) {
            match x {
                -1 => self.job.clear_context(),
                0 => self.job.set_context(BlendingContext::default()),
                n => self.job.set_context(BlendingContext::new(n as usize)),
            }
        }
        self.last = Some(x);
        self.job.set_threshold(match c["th"].as_str().unwrap() {
            "positive" => 0.1,
            "zero" => 0.0,
            "negative" => -1.0,
            _ => f32::NAN,
        });
        let layers = |k: &str| -> Vec<BlendingLayer<S::In<SoaTransform>>> {
            let arr = c[if k == "layer" { "layers" } else { "adds" }].as_array().unwrap();
            arr.iter()
                .enumerate()
                .map(|(i, l)| {
                    let p = poisoned(c, k) && (i + 1 == arr.len());
                    let mut x = BlendingLayer::new(S::input(&format!("{k}{i}"), d.xforms(&format!("{k}{i}"), g(l, "len")), p));
                    x.weight = g(l, "w") as f32 / if i == 0 { 2.0 } else { 1.0 };
                    x.joint_weights = d.joint_weights(g(l, "jw"));
                    x
                })
                .collect()
        };
        *self.job.layers_mut() = layers("layer");
        *self.job.additive_layers_mut() = layers("add");
        match g(c, "out") {
            -1 => self.job.clear_output(),
            n => self.job.set_output(S::output("out", d.xforms("out", n), poisoned(c, "out"))),
        }
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
    fn outs(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(b) = self.job.output() {
            dump(&mut o, &S::peek(b));
        }
        o
    }
    fn free(&self) -> bool {
        self.job.output().map_or(true, |o| S::free(o))
            && self.job.layers().iter().all(|l| S::free_in(&l.transform))
            && self.job.additive_layers().iter().all(|l| S::free_in(&l.transform))
    }
}

struct DLtm<S: Style> {
    d: Data,
    job: LocalToModelJob<S::Obj<Skeleton>, S::In<SoaTransform>, S::Out<Mat4>>,
    pool: Vec<(i64, S::Obj<Skeleton>)>,
}

impl<S: Style> Driver for DLtm<S> {
    fn apply(&mut self, c: &Value) {
        let d = self.d;
        match g(c, "skel") {
            -1 => self.job.clear_skeleton(),
            n => self.job.set_skeleton(S::obj(&mut self.pool, n, &|| d.skel(n))),
        }
        match g(c, "inp") {
            -1 => self.job.clear_input(),
            n => self.job.set_input(S::input("inp", d.xforms("inp", n), poisoned(c, "inp"))),
        }
        match g(c, "out") {
            -1 => self.job.clear_output(),
            n => self.job.set_output(S::output("out", d.mats("out", n), poisoned(c, "out"))),
        }
        let dflt = |k: &str, v: i64| c.get(k).and_then(|x| x.as_i64()).unwrap_or(v) as i32;
        self.job.set_from(dflt("from", -1));
        self.job.set_to(dflt("to", i32::MAX as i64));
        self.job.set_from_excluded(c.get("fe").map_or(false, |x| x.as_bool().unwrap()));
        self.job.set_root(&d.mats("root", 1)[0]);
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
    fn outs(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(b) = self.job.output() {
            dump(&mut o, &S::peek(b));
        }
        o
    }
    fn free(&self) -> bool {
        self.job.output().map_or(true, |o| S::free(o)) && self.job.input().map_or(true, |o| S::free_in(o))
    }
}

struct DSkinning<S: Style> {
    d: Data,
    job: SkinningJob<S::In<Mat4>, S::In<u16>, S::In<f32>, S::In<Vec3>, S::Out<Vec3>>,
}

impl<S: Style> Driver for DSkinning<S> {
    fn apply(&mut self, c: &Value) {
        let d = self.d;
        let big = |x: i64| if x >= HUGE { usize::MAX } else { x as usize };
        self.job.set_vertex_count(big(g(c, "vc")));
        self.job.set_influences_count(big(g(c, "n")));
        macro_rules! set {
            ($k:literal, $set:ident, $clear:ident, $mk:expr) => {
                match g(c, $k) {
                    -1 => self.job.$clear(),
                    n => {
                        let v = $mk(n);
                        self.job.$set(S::input($k, v, poisoned(c, $k)));
                    }
                }
            };
        }
        macro_rules! set_out {
            ($k:literal, $set:ident, $clear:ident) => {
                match g(c, $k) {
                    -1 => self.job.$clear(),
                    n => self.job.$set(S::output($k, d.vec3($k, n), poisoned(c, $k))),
                }
            };
        }
        let nm = g(c, "mats").max(1) as usize;
        let bad = g(c, "bad");
        set!("mats", set_joint_matrices, clear_joint_matrices, |n| d.mats("mats", n));
        set!("its", set_joint_it_matrices, clear_joint_it_matrices, |n| d.mats("its", n));
        set!("idx", set_joint_indices, clear_joint_indices, |n: i64| {
            let mut r = d.rng("idx", n);
            let mut v: Vec<u16> = (0..n).map(|_| r.below(nm) as u16).collect();
            if bad > 0 && (bad as usize) <= v.len() {
                v[bad as usize - 1] = nm as u16;
            }
            v
        });
        set!("wts", set_joint_weights, clear_joint_weights, |n: i64| {
            let mut r = d.rng("wts", n);
            (0..n).map(|_| r.range(0, 8) as f32 / 16.0).collect::<Vec<f32>>()
        });
        set!("ip", set_in_positions, clear_in_positions, |n| d.vec3("ip", n));
        set!("inn", set_in_normals, clear_in_normals, |n| d.vec3("inn", n));
        set!("it", set_in_tangents, clear_in_tangents, |n| d.vec3("it", n));
        set_out!("op", set_out_positions, clear_out_positions);
        set_out!("on", set_out_normals, clear_out_normals);
        set_out!("ot", set_out_tangents, clear_out_tangents);
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
    fn outs(&self) -> Vec<u8> {
        let mut o = vec![];
        for b in [self.job.out_positions(), self.job.out_normals(), self.job.out_tangents()].into_iter().flatten() {
            dump(&mut o, &S::peek(b));
        }
        o
    }
    fn free(&self) -> bool {
        let j = &self.job;
        [j.out_positions(), j.out_normals(), j.out_tangents()].into_iter().flatten().all(|o| S::free(o))
            && [j.in_positions(), j.in_normals(), j.in_tangents()].into_iter().flatten().all(|o| S::free_in(o))
            && [j.joint_matrices(), j.joint_it_matrices()].into_iter().flatten().all(|o| S::free_in(o))
            && j.joint_indices().map_or(true, |o| S::free_in(o))
            && j.joint_weights().map_or(true, |o| S::free_in(o))
    }
}

struct DTrack<S: Style> {
    d: Data,
    job: TrackSamplingJob<f32, S::Obj<Track<f32>>>,
    pool: Vec<(i64, S::Obj<Track<f32>>)>,
}

pub fn track_of(d: Data, n: i64) -> Track<f32> {
    if n == 0 {
        return Track::default();
    }
    let mut r = d.rng("track", n);
    TrackSpec {
        tag: "ozz-float_track",
        name: "t".into(),
        ratios: (0..n).map(|i| if n == 1 { 0.0 } else { i as f32 / (n - 1) as f32 }).collect(),
        values: (0..n).map(|_| vec![r.range(-8, 8) as f32]).collect(),
        steps: (0..n).map(|_| r.chance(1, 2)).collect(),
    }
    .load()
}

impl<S: Style> Driver for DTrack<S> {
    fn apply(&mut self, c: &Value) {
        let d = self.d;
        match g(c, "track") {
            -1 => self.job.clear_track(),
            n => self.job.set_track(S::obj(&mut self.pool, n, &|| track_of(d, n))),
        }
        // an unset result shows whether run wrote it
        self.job.clear_result();
        self.job.set_ratio(c["ratio"].as_f64().unwrap_or(0.3) as f32);
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
    fn outs(&self) -> Vec<u8> {
        self.job.result().to_le_bytes().to_vec()
    }
    fn free(&self) -> bool {
        true
    }
}

struct DTrigger<S: Style> {
    d: Data,
    job: TrackTriggeringJob<S::Obj<Track<f32>>>,
    pool: Vec<(i64, S::Obj<Track<f32>>)>,
    edges: Vec<u8>,
}

impl<S: Style> Driver for DTrigger<S> {
    fn apply(&mut self, c: &Value) {
        let d = self.d;
        match g(c, "track") {
            -1 => self.job.clear_track(),
            n => self.job.set_track(S::obj(&mut self.pool, n, &|| track_of(d, n))),
        }
        self.edges = vec![];
        self.job.set_from(-0.7);
        self.job.set_to(1.6);
        self.job.set_threshold(0.5);
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        let s: Vec<String> = self.job.run()?.take(100).map(|e| format!("{e:?}")).collect();
        self.edges = s.join(";").into_bytes();
        Ok(())
    }
    fn outs(&self) -> Vec<u8> {
        self.edges.clone()
    }
    fn free(&self) -> bool {
        true
    }
}

struct DMotion {
    job: MotionBlendingJob,
    d: Data,
}

impl Driver for DMotion {
    fn apply(&mut self, c: &Value) {
        self.job.layers_mut().clear();
        for i in 0..g(c, "layers") {
            let mut delta = glam_ext::Transform3A::IDENTITY;
            delta.translation = Vec3A::from(self.d.vec3("m", i + 1)[i as usize]);
            self.job.layers_mut().push(MotionBlendingLayer { weight: i as f32 * 0.5, delta });
        }
        self.job.clear_output();
    }
    fn validate(&self) -> Option<bool> {
        Some(self.job.validate())
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.job.run()
    }
    fn outs(&self) -> Vec<u8> {
        let o = self.job.output();
        let mut v = vec![];
        for x in o.translation.to_array().iter().chain(o.rotation.to_array().iter()).chain(o.scale.to_array().iter()) {
            v.extend(x.to_le_bytes());
        }
        v
    }
    fn free(&self) -> bool {
        true
    }
}

fn axis_of(c: &Value) -> Vec3A {
    match c["axis"].as_str().unwrap() {
        "unit" => Vec3A::new(0.6, 0.0, 0.8),
        "zero" => Vec3A::ZERO,
        "long" => Vec3A::new(0.6, 0.2, 0.8),
        "short" => Vec3A::new(0.5, 0.0, 0.8),
        "nan" => Vec3A::new(0.6, f32::NAN, 0.8),
        _ => Vec3A::new(f32::INFINITY, 0.0, 0.0),
    }
}

fn joint_of(c: &Value) -> Mat4 {
    match c["joint"].as_str().unwrap() {
        "rigid" => Mat4::from_rotation_translation(Quat::from_xyzw(0.0, 0.6, 0.0, 0.8), Vec3::new(1.0, 2.0, 3.0)),
        "singular" => Mat4::ZERO,
        _ => Mat4::from_cols_array(&[f32::NAN; 16]),
    }
}

struct DAim(IKAimJob);
impl Driver for DAim {
    fn apply(&mut self, c: &Value) {
        self.0.set_forward(axis_of(c));
        self.0.set_target(Vec3A::new(3.0, 1.0, 2.0));
        self.0.set_joint(joint_of(c));
        self.0.clear_outs();
    }
    fn validate(&self) -> Option<bool> {
        None
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
    fn outs(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.joint_correction().to_array().iter().flat_map(|x| x.to_le_bytes()).collect();
        v.push(self.0.reached() as u8);
        v
    }
    fn free(&self) -> bool {
        true
    }
}

struct DTwo(IKTwoBoneJob);
impl Driver for DTwo {
    fn apply(&mut self, c: &Value) {
        self.0.set_mid_axis(axis_of(c));
        self.0.set_target(Vec3A::new(1.0, 1.0, 2.0));
        self.0.set_start_joint(joint_of(c));
        self.0.set_mid_joint(Mat4::from_translation(Vec3::new(1.0, 3.0, 3.0)));
        self.0.set_end_joint(Mat4::from_translation(Vec3::new(1.0, 3.0, 4.0)));
        self.0.clear_outs();
    }
    fn validate(&self) -> Option<bool> {
        None
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
    fn outs(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.start_joint_correction().to_array().iter().flat_map(|x| x.to_le_bytes()).collect();
        v.extend(self.0.mid_joint_correction().to_array().iter().flat_map(|x| x.to_le_bytes()));
        v.push(self.0.reached() as u8);
        v
    }
    fn free(&self) -> bool {
        true
    }
}

pub fn driver<S: Style>(job: &str, d: Data) -> Box<dyn Driver> {
    match job {
        "sampling" => Box::new(DSampling::<S> { d, job: SamplingJob::default(), pool: vec![], last: None }),
        "blending" => Box::new(DBlending::<S> { d, job: BlendingJob::default(), pool: vec![], last: None }),
        "ltm" => Box::new(DLtm::<S> { d, job: LocalToModelJob::default(), pool: vec![] }),
        "skinning" => Box::new(DSkinning::<S> { d, job: SkinningJob::default() }),
        "tracksampling" => Box::new(DTrack::<S> { d, job: TrackSamplingJob::default(), pool: vec![] }),
        "tracktriggering" => Box::new(DTrigger::<S> { d, job: TrackTriggeringJob::default(), pool: vec![], edges: vec![] }),
        "motion" => Box::new(DMotion { job: MotionBlendingJob::default(), d }),
        "aim" => Box::new(DAim(IKAimJob::default())),
        "twobone" => Box::new(DTwo(IKTwoBoneJob::default())),
        j => panic!("{j}"),
    }
}

/// Configure, validate, run.
pub fn attempt(dr: &mut dyn Driver, c: &Value, it: &mut Intern) -> Value {
    dr.apply(c);
    let before = it.id(&dr.outs());
    let valid = guard(|| dr.validate());
    let mid = it.id(&dr.outs());
    let res = guard(|| dr.run());
    let after = it.id(&dr.outs());
    let valid = match valid {
        Err(()) => json!("panic"),
        Ok(None) => json!("none"),
        Ok(Some(b)) => json!(if b { "true" } else { "false" }),
    };
    json!({"valid": valid, "res": res_name(&res), "before": before, "mid": mid, "after": after, "free": dr.free()})
}

/// Anything goes for every member, mostly near a valid configuration.
pub fn random_cfg(rng: &mut Rng, job: &str) -> Value {
    let near = |rng: &mut Rng, n: i64| -> i64 {
        match rng.below(16) {
            0 => -1,
            1 => 0,
            2 => (n - 1).max(-1),
            3..=5 => n + 1,
            6 => n + 3,
            _ => n,
        }
    };
    let mut c = match job {
        "sampling" => {
            let a = *rng.pick(&[0i64, 1, 4, 5, 9, 13]);
            json!({"anim": if rng.chance(1, 12) { -1 } else { a }, "ctx": near(rng, a), "out": near(rng, (a + 3) / 4)})
        }
        "blending" => {
            let s = *rng.pick(&[0i64, 1, 4, 5, 9, 13]);
            let n = (s + 3) / 4;
            let mut ls = |rng: &mut Rng| -> Value {
                json!((0..rng.below(4))
                    .map(|_| {
                        let len = near(rng, n).max(0);
                        let jw = if rng.chance(1, 2) { 0 } else { near(rng, n).max(0) };
                        json!({"len": len, "jw": jw, "w": rng.range(-1, 1)})
                    })
                    .collect::<Vec<_>>())
            };
            let (l, a) = (ls(rng), ls(rng));
            json!({"skel": if rng.chance(1, 12) { -1 } else { s }, "ctx": *rng.pick(&[-1i64, 0, 1, 2, 3, 4, 0, 4]),
                "th": *rng.pick(&["positive", "positive", "positive", "positive", "positive", "zero", "negative", "nan"]),
                "out": near(rng, n), "layers": l, "adds": a})
        }
        "ltm" => {
            let s = *rng.pick(&[0i64, 1, 4, 5, 9, 13]);
            json!({"skel": if rng.chance(1, 12) { -1 } else { s }, "inp": near(rng, (s + 3) / 4), "out": near(rng, s),
                "from": *rng.pick(&[-1, -1, 0, 1, 3, 5, 100, i32::MAX as i64, i32::MIN as i64]), "to": *rng.pick(&[1024, 1024, 0, 2, -1, i32::MAX as i64, i32::MIN as i64]), "fe": rng.chance(1, 2)})
        }
        "skinning" => {
            let (v, n) = (rng.range(0, 4), rng.range(0, 6));
            let opt = |rng: &mut Rng, x: i64| if rng.chance(1, 3) { -1 } else { near(rng, x) };
            json!({"vc": v, "n": n, "mats": near(rng, 2), "its": opt(rng, 3), "idx": near(rng, v * n), "wts": near(rng, v * (n - 1).max(0)),
                "ip": near(rng, v), "inn": opt(rng, v), "it": opt(rng, v), "op": near(rng, v), "on": opt(rng, v), "ot": opt(rng, v), "bad": 0})
        }
        _ => unreachable!(),
    };
    // inverse-transpose matrices too short are an index error: keep them long enough here
    if job == "skinning" && c["its"].as_i64().unwrap() >= 0 && c["its"].as_i64() < c["mats"].as_i64() {
        c["its"] = c["mats"].clone();
    }
    c["job"] = json!(job);
    c["poison"] = json!([]);
    c
}

pub fn run_c11(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC11);
    let mut cfgs: Vec<Value> = args.plan.as_ref().unwrap()["configs"].as_array().unwrap().clone();
    for _ in 0..(if args.thorough { 40000 } else { 4000 }) {
        let job = *rng.pick(&["sampling", "blending", "ltm", "skinning"]);
        cfgs.push(random_cfg(&mut rng, job));
    }
    rng.shuffle(&mut cfgs);
    let jobs = ["sampling", "blending", "ltm", "skinning", "tracksampling", "tracktriggering", "motion", "aim", "twobone"];
    for job in jobs {
        let mine: Vec<Value> = cfgs.iter().filter(|c| c["job"] == job).cloned().collect();
        for chunk in mine.chunks(100) {
            let hdr = json!({"job": job});
            rec.begin("walk", &hdr);
            let d = Data(rng.next());
            // one job object lives through all configurations of the scenario
            let mut walk = driver::<RcStyle>(job, d);
            let mut it = Intern::new();
            let mut ev = vec![];
            for c in chunk {
                let mut c = c.clone();
                c["ratio"] = json!(*rng.pick(&[0.0, 0.1, 0.4, 0.7, 1.0, -1.0, 3.0]));
                let mut e = attempt(&mut *walk, &c, &mut it);
                let mut fresh = driver::<RcStyle>(job, d);
                let f = attempt(&mut *fresh, &c, &mut it);
                c.as_object_mut().unwrap().remove("ratio");
                e["op"] = json!("run");
                e["c"] = c;
                e["fresh"] = json!({"res": f["res"], "after": f["after"]});
                ev.push(e);
            }
            rec.end("walk", &hdr, ev);
        }
    }
}
