//! Buffer styles, poisoned and contended locks, concurrent use of shared resources (C14).
use crate::jobs::*;
use crate::num::*;
use crate::rec::*;
use glam::Mat4;
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::{mpsc, Arc, Barrier, RwLock, TryLockError};
use std::time::Duration;

// ------------------------------------------------------------------------------------------- gates

/// What other threads may do to a buffer, whatever its element type.
pub trait Ctl: Send + Sync {
    /// false: somebody holds it
    fn try_poison(&self) -> bool;
    /// one element less
    fn try_shrink(&self) -> bool;
    fn try_hold(&self, write: bool) -> Option<Box<dyn Any>>;
    fn is_free(&self) -> bool;
}

pub struct Lock<T>(Arc<RwLock<Vec<T>>>);

impl<T: Debug + Clone + Send + Sync + 'static> Ctl for Lock<T> {
    fn try_poison(&self) -> bool {
        if !self.is_free() {
            return false;
        }
        let l = self.0.clone();
        // another thread panics with the lock in its hands
        let _ = std::thread::spawn(move || {
            let _g = l.write();
            panic!("poison");
        })
        .join();
        true
    }
    fn try_shrink(&self) -> bool {
        match self.0.try_write() {
            Ok(mut g) => {
                g.pop();
                true
            }
            Err(TryLockError::Poisoned(_)) => true,
            Err(TryLockError::WouldBlock) => false,
        }
    }
    fn try_hold(&self, write: bool) -> Option<Box<dyn Any>> {
        let l: &'static RwLock<Vec<T>> = unsafe { &*Arc::as_ptr(&self.0) };
        std::mem::forget(self.0.clone());
        if write {
            match l.try_write() {
                Ok(g) => Some(Box::new(g)),
                Err(TryLockError::Poisoned(e)) => Some(Box::new(e.into_inner())),
                Err(TryLockError::WouldBlock) => None,
            }
        } else {
            match l.try_read() {
                Ok(g) => Some(Box::new(g)),
                Err(TryLockError::Poisoned(e)) => Some(Box::new(e.into_inner())),
                Err(TryLockError::WouldBlock) => None,
            }
        }
    }
    fn is_free(&self) -> bool {
        !matches!(self.0.try_write(), Err(TryLockError::WouldBlock))
    }
}

struct Fault {
    /// just before this acquisition (1 is the first), or as soon after as the lock is free
    at: usize,
    member: String,
    act: &'static str,
    /// acquisitions made when it took effect
    done: Option<usize>,
}

type Locks = Vec<(String, Arc<dyn Ctl>)>;

#[derive(Default)]
struct Script {
    on: bool,
    log: Vec<String>,
    faults: Vec<Fault>,
    nest: Option<(usize, Box<dyn FnOnce() + Send>)>,
    locks: Locks,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

fn acquire(name: &str) {
    let nest = SCRIPT.with_borrow_mut(|s| {
        if !s.on {
            return None;
        }
        let n = s.log.len() + 1;
        let locks = &s.locks;
        for f in s.faults.iter_mut() {
            if f.done.is_none() && f.at <= n {
                let l = &locks.iter().find(|l| l.0 == f.member).unwrap().1;
                if match f.act {
                    "poison" => l.try_poison(),
                    _ => l.try_shrink(),
                } {
                    f.done = Some(n - 1);
                }
            }
        }
        s.log.push(name.to_string());
        if s.nest.as_ref().map_or(false, |x| x.0 == n) {
            return s.nest.take();
        }
        None
    });
    if let Some((_, f)) = nest {
        std::thread::spawn(f).join().unwrap();
    }
}

/// An `Arc<RwLock<Vec>>` that lets the script act before every acquisition.
#[derive(Debug)]
pub struct Gate<T> {
    name: String,
    lock: Arc<RwLock<Vec<T>>>,
}

impl<T: Debug + Clone + 'static> OzzBuf<T> for Gate<T> {
    type Buf<'t> = <Arc<RwLock<Vec<T>>> as OzzBuf<T>>::Buf<'t>;
    fn buf(&self) -> Result<Self::Buf<'_>, OzzError> {
        acquire(&self.name);
        self.lock.buf()
    }
}

impl<T: Debug + Clone + 'static> OzzMutBuf<T> for Gate<T> {
    type MutBuf<'t> = <Arc<RwLock<Vec<T>>> as OzzMutBuf<T>>::MutBuf<'t>;
    fn mut_buf(&mut self) -> Result<Self::MutBuf<'_>, OzzError> {
        acquire(&self.name);
        self.lock.mut_buf()
    }
}

pub struct GateStyle;
impl Style for GateStyle {
    type In<T: Debug + Clone + 'static> = Gate<T>;
    type Out<T: Debug + Clone + 'static> = Gate<T>;
    type Obj<T: Debug + 'static> = Arc<T>;
    const NAME: &'static str = "gate";
    fn input<T: Debug + Clone + Send + Sync + 'static>(name: &str, v: Vec<T>, poison: bool) -> Gate<T> {
        let lock = ArcStyle::input(name, v, poison);
        SCRIPT.with_borrow_mut(|s| {
            s.locks.retain(|l| l.0 != name);
            s.locks.push((name.into(), Arc::new(Lock(lock.clone()))));
        });
        Gate { name: name.into(), lock }
    }
    fn output<T: Debug + Clone + Send + Sync + 'static>(name: &str, v: Vec<T>, poison: bool) -> Gate<T> {
        Self::input(name, v, poison)
    }
    fn peek<T: Debug + Clone + 'static>(o: &Gate<T>) -> Vec<T> {
        ArcStyle::peek(&o.lock)
    }
    fn obj<T: Debug + 'static>(pool: &mut Vec<(i64, Arc<T>)>, code: i64, mk: &dyn Fn() -> T) -> Arc<T> {
        ArcStyle::obj(pool, code, mk)
    }
    fn free<T: Debug + Clone + 'static>(o: &Gate<T>) -> bool {
        ArcStyle::free(&o.lock)
    }
    fn free_in<T: Debug + Clone + 'static>(o: &Gate<T>) -> bool {
        ArcStyle::free(&o.lock)
    }
}

// ------------------------------------------------------------------------------ styles and poisons

const BUFFERED: [&str; 4] = ["sampling", "blending", "ltm", "skinning"];

fn styles(rec: &mut Rec, rng: &mut Rng, job: &str, cfgs: &[Value]) {
    let hdr = json!({"job": job});
    rec.begin("styles", &hdr);
    let d = Data(rng.next());
    let mut dr = [driver::<RefStyle>(job, d), driver::<VecStyle>(job, d), driver::<RcStyle>(job, d), driver::<ArcStyle>(job, d), driver::<GateStyle>(job, d)];
    let mut it = Intern::new();
    let mut ev = vec![];
    for c in cfgs {
        let mut c = c.clone();
        c["ratio"] = json!(*rng.pick(&[0.0, 0.1, 0.4, 0.7, 1.0, -1.0, 3.0]));
        let r: Vec<Value> = dr.iter_mut().map(|x| attempt(&mut **x, &c, &mut it)).collect();
        c.as_object_mut().unwrap().remove("ratio");
        ev.push(json!({"op": "styles", "c": c, "r": r}));
    }
    rec.end("styles", &hdr, ev);
}

fn members(job: &str) -> &'static [&'static str] {
    match job {
        "sampling" => &["out"],
        "blending" => &["out", "layer", "add"],
        "ltm" => &["inp", "out"],
        _ => &["mats", "its", "idx", "wts", "ip", "inn", "it", "op", "on", "ot"],
    }
}

fn poisons(rec: &mut Rec, rng: &mut Rng, job: &str, cfgs: &[Value]) {
    let hdr = json!({"job": job});
    rec.begin("poisons", &hdr);
    let d = Data(rng.next());
    let mut dr = driver::<ArcStyle>(job, d);
    let mut it = Intern::new();
    let mut ev = vec![];
    for c in cfgs {
        let ms = members(job);
        let mut p: Vec<&str> = ms.iter().filter(|_| rng.chance(1, 2 * ms.len() as u64)).cloned().collect();
        if p.is_empty() {
            p.push(*rng.pick(ms));
        }
        let mut c = c.clone();
        c["poison"] = json!(p);
        let mut e = attempt(&mut *dr, &c, &mut it);
        e["op"] = json!("poisons");
        e["c"] = c;
        ev.push(e);
    }
    rec.end("poisons", &hdr, ev);
}

// ------------------------------------------------------------------------- faults during the run

struct Done {
    res: &'static str,
    before: usize,
    after: usize,
    free: bool,
    log: Vec<String>,
    faults: Vec<Fault>,
}

/// Configure a new job, then run it under a script.
fn scripted(job: &str, d: Data, c: &Value, faults: Vec<Fault>, nest: Option<(usize, Box<dyn FnOnce() + Send>)>, it: &mut Intern) -> Done {
    SCRIPT.set(Script::default());
    let mut dr = driver::<GateStyle>(job, d);
    dr.apply(c);
    let before = it.id(&dr.outs());
    SCRIPT.with_borrow_mut(|s| {
        s.on = true;
        s.faults = faults;
        s.nest = nest;
    });
    let res = guard(|| dr.run());
    let s = SCRIPT.take();
    // what a fault did to an output is not the job's doing
    let after = it.id(&dr.outs());
    Done { res: res_name(&res), before, after, free: dr.free(), log: s.log, faults: s.faults }
}

fn faults(rec: &mut Rec, rng: &mut Rng, job: &str, cfgs: &[Value], known: &[String]) {
    for c in cfgs {
        let hdr = json!({"job": job, "known": known});
        rec.begin("faults", &json!({"job": job, "c": c}));
        let d = Data(rng.next());
        let mut it = Intern::new();
        let clean = scripted(job, d, c, vec![], None, &mut it);
        let n = clean.log.len();
        let names: Vec<String> = {
            let mut v = clean.log.clone();
            v.sort();
            v.dedup();
            v
        };
        let outs = ["out", "op", "on", "ot"];
        let mut ev = vec![json!({"op": "clean", "c": c, "res": clean.res, "before": clean.before, "after": clean.after, "free": clean.free, "log": clean.log})];
        for at in 1..=n {
            for m in &names {
                for act in ["poison", "shrink"] {
                    // a shorter output is another buffer, a shorter palette another error: only poison those
                    if act == "shrink" && (outs.contains(&m.as_str()) || m == "mats" || m == "its") {
                        continue;
                    }
                    let r = scripted(job, d, c, vec![Fault { at, member: m.clone(), act, done: None }], None, &mut it);
                    let f = &r.faults[0];
                    ev.push(json!({"op": "fault", "act": act, "member": m, "out": outs.contains(&m.as_str()),
                        "at": at, "done": f.done.map_or(-1, |x| x as i64), "res": r.res, "before": r.before, "after": r.after, "free": r.free, "log": r.log}));
                }
            }
            // another job of the same kind runs from start to end here, on another thread
            let oc = rng.pick(cfgs).clone();
            let od = Data(rng.next());
            let want = {
                let mut x = driver::<ArcStyle>(job, od);
                let mut it = Intern::new();
                attempt(&mut *x, &oc, &mut it);
                x.outs()
            };
            let (tx, rx) = mpsc::channel();
            let j2 = job.to_string();
            let other: Box<dyn FnOnce() + Send> = Box::new(move || {
                let mut x = driver::<ArcStyle>(&j2, od);
                let mut it = Intern::new();
                attempt(&mut *x, &oc, &mut it);
                tx.send(x.outs()).unwrap();
            });
            let r = scripted(job, d, c, vec![], Some((at, other)), &mut it);
            let got = rx.recv().unwrap_or_default();
            ev.push(json!({"op": "nest", "at": at, "res": r.res, "after": r.after, "free": r.free, "same": got == want}));
        }
        rec.end("faults", &hdr, ev);
    }
}

// ------------------------------------------------------------------------------------- contention

/// One schedule: a job on its own thread, this thread holding, releasing and poisoning locks.
fn schedule(job: &str, c: &Value, i: &str, o: &str, d: Data, steps: &[Value]) -> Vec<Value> {
    let mut it = Intern::new();
    // the result without contention
    let clean = {
        let mut x = driver::<ArcStyle>(job, d);
        attempt(&mut *x, c, &mut it);
        it.id(&x.outs())
    };
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let (reg_tx, reg_rx) = mpsc::channel::<(Locks, Vec<u8>)>();
    let (res_tx, res_rx) = mpsc::channel::<(&'static str, Vec<u8>)>();
    let (job_s, c2) = (job.to_string(), c.clone());
    let th = std::thread::spawn(move || {
        SCRIPT.set(Script::default());
        let mut dr = driver::<GateStyle>(&job_s, d);
        dr.apply(&c2);
        reg_tx.send((SCRIPT.take().locks, dr.outs())).unwrap();
        if go_rx.recv().is_err() {
            return;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dr.run())).map_err(|_| ());
        let _ = res_tx.send((res_name(&r), vec![]));
        // the outputs, once the other thread has released everything
        let _ = go_rx.recv();
        let _ = res_tx.send((if dr.free() { "free" } else { "held" }, dr.outs()));
    });
    let (locks, before) = reg_rx.recv().unwrap();
    let before = it.id(&before);
    let lock = |b: &str| locks.iter().find(|l| l.0 == if b == "i" { i } else { o }).unwrap().1.clone();
    let mut held: [Option<Box<dyn Any>>; 2] = [None, None];
    let mut mode = ["", ""];
    let (mut started, mut done) = (false, false);
    let mut ev = vec![json!({"op": "setup", "clean": clean, "before": before})];
    let mut all: Vec<Value> = steps.to_vec();
    all.push(json!(["rel", "i"]));
    all.push(json!(["rel", "o"]));
    for s in &all {
        let (a, b) = (s[0].as_str().unwrap(), s[1].as_str().unwrap());
        let k = (b == "o") as usize;
        // what the action did: "yes", or "no" when the lock was not available
        let did = match a {
            "start" => {
                go_tx.send(()).unwrap();
                started = true;
                true
            }
            "r" | "w" => {
                held[k] = lock(b).try_hold(a == "w");
                mode[k] = if held[k].is_some() { if a == "w" { "w" } else { "r" } } else { "" };
                held[k].is_some()
            }
            "rel" => {
                held[k] = None;
                mode[k] = "";
                true
            }
            _ => lock(b).try_poison(),
        };
        let mut e = json!({"op": "act", "a": a, "b": b, "did": did});
        let mut obs = "idle";
        if started && !done {
            let conflict = mode[0] == "w" || mode[1] != "";
            let wait = if conflict { Duration::from_millis(15) } else { Duration::from_secs(20) };
            obs = match res_rx.recv_timeout(wait) {
                Ok(r) => {
                    done = true;
                    r.0
                }
                Err(mpsc::RecvTimeoutError::Timeout) => "running",
                Err(_) => "crash",
            };
        } else if done {
            obs = "done";
        }
        e["obs"] = json!(obs);
        ev.push(e);
    }
    if done {
        let _ = go_tx.send(());
        match res_rx.recv_timeout(Duration::from_secs(30)) {
            Ok((f, outs)) => ev.push(json!({"op": "end", "free": f == "free", "after": it.id(&outs)})),
            Err(_) => ev.push(json!({"op": "end", "free": false, "after": 0})),
        }
        let _ = th.join();
    } else if !started {
        drop(go_tx);
        let _ = th.join();
    }
    ev
}

fn valid_cfg(job: &str) -> Value {
    match job {
        "sampling" => json!({"job": job, "anim": 5, "ctx": 5, "out": 3, "poison": [], "ratio": 0.4}),
        "blending" => json!({"job": job, "skel": 5, "ctx": 2, "th": "positive", "out": 3, "poison": [],
            "layers": [{"len": 2, "jw": 0, "w": 1}, {"len": 3, "jw": 2, "w": 1}], "adds": [{"len": 2, "jw": 0, "w": 1}, {"len": 2, "jw": 2, "w": -1}]}),
        "ltm" => json!({"job": job, "skel": 5, "inp": 2, "out": 6, "poison": []}),
        _ => json!({"job": job, "vc": 3, "n": 3, "mats": 2, "its": 2, "idx": 9, "wts": 6, "ip": 3, "inn": 3, "it": 3, "op": 4, "on": 3, "ot": 3, "bad": 0, "poison": []}),
    }
}

// ------------------------------------------------------------------------------------ concurrency

/// Shared by every thread.
struct World {
    anims: Vec<Arc<Animation>>,
    skel: Arc<Skeleton>,
    track: Arc<Track<f32>>,
    pose: OzzArcBuf<SoaTransform>,
    mats: OzzArcBuf<Mat4>,
}

fn work(w: &World, seed: u64, steps: usize) -> Vec<Vec<u8>> {
    let mut rng = Rng::new(seed);
    let d = Data(seed);
    let ns = w.skel.num_soa_joints();
    let nj = w.skel.num_joints();
    let out = ozz_arc_buf(d.xforms("o", ns as i64));
    let out2 = ozz_arc_buf(d.xforms("o2", ns as i64));
    let models = ozz_arc_buf(d.mats("m", nj as i64));
    let verts = ozz_arc_buf(d.vec3("v", 16));
    let mut sj: SamplingJobArc = SamplingJob::default();
    sj.set_context(SamplingContext::new(nj));
    sj.set_output(out.clone());
    let mut bj: BlendingJobArc = BlendingJob::default();
    bj.set_skeleton(w.skel.clone());
    bj.set_output(out2.clone());
    bj.layers_mut().push(BlendingLayer::with_weight(out.clone(), 0.6));
    bj.layers_mut().push(BlendingLayer::with_weight(w.pose.clone(), 0.4));
    bj.additive_layers_mut().push(BlendingLayer::with_weight(w.pose.clone(), 0.25));
    let mut lj: LocalToModelJobArc = LocalToModelJob::default();
    lj.set_skeleton(w.skel.clone());
    lj.set_input(out2.clone());
    lj.set_output(models.clone());
    let mut kj: SkinningJobArc = SkinningJob::default();
    kj.set_vertex_count(16);
    kj.set_influences_count(1);
    kj.set_joint_matrices(w.mats.clone());
    kj.set_joint_indices(ozz_arc_buf((0..16u16).map(|i| i % 3).collect()));
    kj.set_in_positions(ozz_arc_buf(d.vec3("p", 16)));
    kj.set_out_positions(verts.clone());
    let mut tj: TrackSamplingJob<f32, Arc<Track<f32>>> = TrackSamplingJob::default();
    tj.set_track(w.track.clone());
    let mut log = vec![];
    for _ in 0..steps {
        let mut b = vec![];
        if rng.chance(1, 3) {
            sj.set_animation(rng.pick(&w.anims).clone());
        } else if sj.animation().is_none() {
            sj.set_animation(w.anims[0].clone());
        }
        let r = rng.unit() as f32;
        sj.set_ratio(r);
        tj.set_ratio(r);
        let res = [guard(|| sj.run()), guard(|| bj.run()), guard(|| lj.run()), guard(|| kj.run()), guard(|| tj.run())];
        b.extend(res.iter().flat_map(|r| res_name(r).bytes()));
        b.extend(bytes_of(&out.read().unwrap()[..]));
        b.extend(bytes_of(&out2.read().unwrap()[..]));
        b.extend(bytes_of(&models.read().unwrap()[..]));
        b.extend(bytes_of(&verts.read().unwrap()[..]));
        b.extend(tj.result().to_le_bytes());
        log.push(b);
    }
    log
}

fn concurrent(rec: &mut Rec, rng: &mut Rng, threads: usize, steps: usize) {
    let d = Data(rng.next());
    let n = *rng.pick(&[5i64, 9, 13, 30]);
    let ds: Vec<Data> = (0..3).map(|_| Data(rng.next())).collect();
    let w = Arc::new(World {
        anims: ds.iter().map(|d| Arc::new(d.anim(n))).collect(),
        skel: Arc::new(d.skel(n)),
        track: Arc::new(track_of(d, 7)),
        pose: ozz_arc_buf(d.xforms("pose", n)),
        mats: ozz_arc_buf(d.mats("mats", 3)),
    });
    rec.begin("concurrent", &json!({}));
    let mut it = Intern::new();
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    let alone: Vec<Vec<usize>> = seeds.iter().map(|s| work(&w, *s, steps).iter().map(|b| it.id(b)).collect()).collect();
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = seeds
        .iter()
        .map(|s| {
            let (w, s, bar) = (w.clone(), *s, bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                work(&w, s, steps)
            })
        })
        .collect();
    let mut ev = vec![];
    for (t, h) in hs.into_iter().enumerate() {
        let got: Vec<usize> = h.join().map(|v| v.iter().map(|b| it.id(b)).collect()).unwrap_or_default();
        ev.push(json!({"op": "thread", "alone": alone[t], "got": got}));
    }
    rec.end("concurrent", &json!({"threads": threads}), ev);
}

pub fn run_c14(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC14);
    let plan = args.plan.as_ref().unwrap();
    let known: Vec<String> = plan["known"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let mut cfgs: Vec<Value> = plan["configs"].as_array().unwrap().clone();
    for _ in 0..(if args.thorough { 20000 } else { 1500 }) {
        let job = *rng.pick(&BUFFERED);
        cfgs.push(random_cfg(&mut rng, job));
    }
    rng.shuffle(&mut cfgs);
    for job in ["sampling", "blending", "ltm", "skinning", "tracksampling", "tracktriggering"] {
        let mine: Vec<Value> = cfgs.iter().filter(|c| c["job"] == job).cloned().collect();
        for chunk in mine.chunks(60) {
            styles(rec, &mut rng, job, chunk);
            if BUFFERED.contains(&job) {
                poisons(rec, &mut rng, job, chunk);
            }
        }
        if BUFFERED.contains(&job) {
            // valid ones, and the fixed one that uses every buffer
            let mut good: Vec<Value> = vec![valid_cfg(job)];
            let n = if args.thorough { 60 } else { 8 };
            for _ in 0..10000 {
                if good.len() > n {
                    break;
                }
                let c = random_cfg(&mut rng, job);
                let mut it = Intern::new();
                let mut x = driver::<ArcStyle>(job, Data(1));
                if attempt(&mut *x, &c, &mut it)["res"] == "ok" {
                    good.push(c);
                }
            }
            faults(rec, &mut rng, job, &good, &known);
        }
    }
    // schedules, several at a time
    let mut todo: Vec<(String, Value, String, String, Vec<Value>)> = vec![];
    for s in plan["schedules"].as_array().unwrap() {
        let steps = s.as_array().unwrap().clone();
        for job in BUFFERED {
            let c = valid_cfg(job);
            let (ins, outs): (&[&str], &[&str]) = match job {
                "sampling" => (&[], &["out"]),
                "blending" => (&["layer0", "layer1", "add0", "add1"], &["out"]),
                "ltm" => (&["inp"], &["out"]),
                _ => (&["mats", "its", "idx", "wts", "ip", "inn", "it"], &["op", "on", "ot"]),
            };
            let uses_i = steps.iter().any(|x| x[1] == "i");
            if uses_i && ins.is_empty() {
                continue;
            }
            // a layer poisoned between two acquisitions of one run is examined by `faults`
            let start = steps.iter().position(|x| x[0] == "start").unwrap();
            if job == "blending" && steps[start..].iter().any(|x| x[0] == "p" && x[1] == "i") {
                continue;
            }
            let i = if ins.is_empty() { "out" } else { *rng.pick(ins) };
            todo.push((job.into(), c, i.into(), rng.pick(outs).to_string(), steps.clone()));
        }
    }
    let seed = rng.next();
    let results: Vec<_> = std::thread::scope(|sc| {
        let chunk = (todo.len() + 31) / 32;
        let hs: Vec<_> = todo
            .chunks(chunk.max(1))
            .map(|part| {
                sc.spawn(move || {
                    part.iter()
                        .map(|(job, c, i, o, steps)| {
                            beat();
                            schedule(job, c, i, o, Data(seed), steps)
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for ((job, _, i, o, steps), ev) in todo.iter().zip(results) {
        let hdr = json!({"job": job, "i": i, "o": o, "steps": steps});
        rec.end("schedule", &hdr, ev);
    }
    for _ in 0..(if args.thorough { 120 } else { 12 }) {
        concurrent(rec, &mut rng, 8, if args.thorough { 400 } else { 150 });
    }
}
