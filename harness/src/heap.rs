//! C23: the memory of objects.  A global allocator that, while the code under test runs, hands
//! out blocks of its own and logs every one taken and given back; views are reported as places
//! in those blocks.
use crate::build::*;
use crate::num::*;
use crate::persist::{restore, save, Blob};
use crate::rec::*;
use crate::sampling::random_anim;
use glam::{Mat4, Quat, Vec3, Vec3A};
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, RwLock};

// ----------------------------------------------------------------------------------- allocator

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;
const PLAIN: usize = 1 << 28;
const GUARDED: usize = 1 << 33;
const ZONE: usize = 64;
const ZONE_BYTE: u8 = 0xFB;
const MAXLOG: usize = 1 << 16;

#[derive(Clone, Copy)]
struct Ev {
    take: bool,
    ptr: usize,
    size: usize,
    align: usize,
}
static mut LOG: [Ev; MAXLOG] = [Ev { take: false, ptr: 0, size: 0, align: 0 }; MAXLOG];
static LEN: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// 0: blocks between zones; 1: blocks that end at an unmapped page; 2: blocks that start at one
static MODE: AtomicUsize = AtomicUsize::new(0);
static FILL: AtomicUsize = AtomicUsize::new(0);
thread_local! { static ON: Cell<bool> = const { Cell::new(false) } }

pub struct Probe;

fn note(e: Ev) {
    let i = LEN.fetch_add(1, SeqCst);
    if i < MAXLOG {
        unsafe { (*std::ptr::addr_of_mut!(LOG))[i] = e }
    }
}
fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
fn ours(p: usize) -> bool {
    let b = BASE.load(SeqCst);
    b != 0 && p >= b && p < b + PLAIN + GUARDED
}

unsafe impl GlobalAlloc for Probe {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.with(|x| x.get()) {
            return System.alloc(l);
        }
        let base = BASE.load(SeqCst);
        let p = if MODE.load(SeqCst) == 0 {
            // aligned as asked for and not better
            let at = NEXT.fetch_add(up(l.size(), 16) + 4 * l.align() + 2 * ZONE, SeqCst);
            let p = up(base + at + ZONE, 2 * l.align()) + l.align();
            if at + up(l.size(), 16) + 4 * l.align() + 2 * ZONE > PLAIN {
                return std::ptr::null_mut();
            }
            std::ptr::write_bytes((p - ZONE) as *mut u8, ZONE_BYTE, ZONE);
            std::ptr::write_bytes((p + l.size()) as *mut u8, ZONE_BYTE, ZONE);
            p
        } else {
            let body = up(l.size().max(1), PAGE);
            let at = NEXT.fetch_add(body + 2 * PAGE, SeqCst);
            if at + body + 2 * PAGE > GUARDED {
                return std::ptr::null_mut();
            }
            let start = base + PLAIN + at + PAGE;
            mprotect(start as *mut u8, body, 3);
            if MODE.load(SeqCst) == 1 {
                (start + body - l.size()) / l.align() * l.align()
            } else {
                start
            }
        };
        std::ptr::write_bytes(p as *mut u8, FILL.load(SeqCst) as u8, l.size());
        note(Ev { take: true, ptr: p, size: l.size(), align: l.align() });
        p as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let at = p as usize;
        if !ours(at) {
            if ON.with(|x| x.get()) {
                note(Ev { take: false, ptr: at, size: l.size(), align: l.align() });
            }
            return System.dealloc(p, l);
        }
        // never handed out again, and of no use from here on
        let n = LEN.load(SeqCst).min(MAXLOG);
        let log = std::slice::from_raw_parts(std::ptr::addr_of!(LOG) as *const Ev, n);
        if let Some(e) = log.iter().rev().find(|e| e.take && e.ptr == at) {
            if at < BASE.load(SeqCst) + PLAIN {
                std::ptr::write_bytes(p, !(FILL.load(SeqCst) as u8), e.size);
            } else {
                mprotect((at / PAGE * PAGE) as *mut u8, up(at % PAGE + e.size.max(1), PAGE), 0);
            }
        }
        note(Ev { take: false, ptr: at, size: l.size(), align: l.align() });
    }
}

/// A fresh start.
fn arena(mode: usize, fill: u8) {
    unsafe {
        if BASE.load(SeqCst) == 0 {
            let b = mmap(std::ptr::null_mut(), PLAIN + GUARDED, 0, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(b as isize != -1);
            mprotect(b, PLAIN, 3);
            BASE.store(b as usize, SeqCst);
        } else if MODE.load(SeqCst) != 0 {
            let b = (BASE.load(SeqCst) + PLAIN) as *mut u8;
            let used = up(NEXT.load(SeqCst), PAGE).min(GUARDED);
            mprotect(b, used, 0);
            madvise(b, used, 4);
        }
    }
    NEXT.store(0, SeqCst);
    LEN.store(0, SeqCst);
    MODE.store(mode, SeqCst);
    FILL.store(fill as usize, SeqCst);
}

fn on<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|x| x.set(false));
        }
    }
    ON.with(|x| x.set(true));
    let _off = Off;
    f()
}

// --------------------------------------------------------------------------------------- objects

enum Obj {
    Skel(Arc<Skeleton>),
    Anim(Arc<Animation>),
    /// not to be sampled
    Odd(Arc<Animation>),
    Ctx(SamplingContext),
    Tr(Arc<Track<f32>>),
    TrV(Track<Vec3>),
}

struct View {
    name: &'static str,
    ptr: usize,
    len: usize,
    align: usize,
}
fn view<T>(name: &'static str, s: &[T]) -> View {
    View { name, ptr: s.as_ptr() as usize, len: std::mem::size_of_val(s), align: std::mem::align_of::<T>() }
}

fn views(o: &Obj) -> Vec<View> {
    let anim = |a: &Animation| {
        let mut v = vec![
            view("name", a.name().as_bytes()),
            view("timepoints", a.timepoints()),
            view("translations", a.translations()),
            view("rotations", a.rotations()),
            view("scales", a.scales()),
        ];
        for (c, n) in [
            (a.translations_ctrl(), ["t.ratios", "t.prev", "t.entries", "t.desc"]),
            (a.rotations_ctrl(), ["r.ratios", "r.prev", "r.entries", "r.desc"]),
            (a.scales_ctrl(), ["s.ratios", "s.prev", "s.entries", "s.desc"]),
        ] {
            v.push(view(n[0], c.ratios));
            v.push(view(n[1], c.previouses));
            v.push(view(n[2], c.iframe_entries));
            v.push(view(n[3], c.iframe_desc));
        }
        v
    };
    match o {
        Obj::Skel(s) => {
            let mut v = vec![view("rest", s.joint_rest_poses()), view("parents", s.joint_parents())];
            for i in 0..s.num_joints().min(6) {
                if let Some(n) = s.name_by_joint(i as i16) {
                    v.push(view("jointname", n.as_bytes()));
                }
            }
            v
        }
        Obj::Anim(a) | Obj::Odd(a) => anim(a),
        Obj::Ctx(c) => vec![
            view("t.values", c.translations()),
            view("t.entries", c.translation_entries()),
            view("t.outdated", c.translation_outdated()),
            view("r.values", c.rotations()),
            view("r.entries", c.rotation_entries()),
            view("r.outdated", c.rotation_outdated()),
            view("s.values", c.scales()),
            view("s.entries", c.scale_entries()),
            view("s.outdated", c.scale_outdated()),
        ],
        Obj::Tr(t) => vec![view("values", t.values()), view("ratios", t.ratios()), view("steps", t.steps()), view("name", t.name().as_bytes())],
        Obj::TrV(t) => vec![view("values", t.values()), view("ratios", t.ratios()), view("steps", t.steps()), view("name", t.name().as_bytes())],
    }
}

struct Hash(u64);
impl Hash {
    fn new() -> Hash {
        Hash(0xcbf29ce484222325)
    }
    fn add(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn num(&mut self, n: usize) {
        self.add(&n.to_le_bytes());
    }
}

/// What there is to see of an object.
fn digest(o: &Obj, h: &mut Hash) {
    for v in views(o) {
        h.num(v.len);
        h.add(unsafe { std::slice::from_raw_parts(if v.len == 0 { 8 as *const u8 } else { v.ptr as *const u8 }, v.len) });
    }
    if let Obj::Ctx(c) = o {
        h.num(c.max_tracks());
        h.num(c.translation_next());
        h.num(c.rotation_next());
        h.num(c.scale_next());
        h.add(&c.ratio().to_le_bytes());
    }
}

// ------------------------------------------------------------------------------------ operations

/// Everything the operations are fed with, made beforehand.
struct Feed {
    skel: Vec<Vec<u8>>,
    anim: Vec<Vec<u8>>,
    odd: Vec<Vec<u8>>,
    tr: Vec<Vec<u8>>,
    trv: Vec<Vec<u8>>,
    known: Arc<Animation>,
    ratios: Vec<f32>,
    ctx: Vec<usize>,
    /// saved objects, to be restored from a part
    saved: Vec<(&'static str, String, Vec<u8>)>,
}

fn odd_anim(rng: &mut Rng) -> RawAnim {
    let chan = |rng: &mut Rng, most: usize| {
        let n = rng.below(most);
        RawChan {
            ratios: (0..n).map(|_| 0).collect(),
            prev: (0..n).map(|_| rng.below(9) as u16).collect(),
            if_entries: (0..rng.below(12)).map(|_| rng.below(256) as u8).collect(),
            if_desc: (0..rng.below(4)).map(|_| rng.below(100) as u32).collect(),
            interval: 1.0,
            keys: (0..n).map(|_| [1, 2, rng.below(65536) as u16]).collect(),
        }
    };
    let most = *rng.pick(&[1usize, 2, 6, 40]);
    let tp = rng.below(5);
    RawAnim {
        n: rng.below(9) as u32,
        duration: 1.0,
        name: "n".repeat(rng.below(4)),
        timepoints: (0..tp).map(|i| i as f32 / 4.0).collect(),
        chans: [chan(rng, most), chan(rng, most), chan(rng, most)],
    }
}

fn nothing() -> RawAnim {
    RawAnim { n: 0, duration: 1.0, name: String::new(), timepoints: vec![], chans: Default::default() }
}

fn feed(rng: &mut Rng) -> Feed {
    let mut f = Feed {
        skel: vec![],
        anim: vec![],
        odd: vec![nothing().archive(false)],
        tr: vec![],
        trv: vec![],
        known: {
            let n = rng.range(1, 12) as usize;
            Arc::new(random_anim(rng, n, 3).animation())
        },
        ratios: (0..4).map(|_| rng.unit() as f32).collect(),
        ctx: vec![],
        saved: vec![],
    };
    for k in 0..4 {
        let be = rng.chance(1, 2);
        let n = if k == 0 && rng.chance(1, 4) { 0 } else { *rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 13, 30, 67]) };
        let parents = random_parents(rng, n, true);
        f.skel.push(SkelSpec::simple(&parents).archive(be));
        let n = *rng.pick(&[1usize, 2, 3, 4, 5, 6, 8, 9, 11, 17, 33]);
        let mut a = random_anim(rng, n, 3).raw();
        a.name = "name".repeat(rng.below(3));
        f.anim.push(a.archive(be));
        f.odd.push(odd_anim(rng).archive(be));
        let n = rng.range(1, 19) as usize;
        let mut t = TrackSpec {
            tag: "ozz-float_track",
            name: "t".repeat(rng.below(5)),
            ratios: (0..n).map(|i| i as f32 / 32.0).collect(),
            values: (0..n).map(|_| vec![rng.range(-4, 4) as f32]).collect(),
            steps: (0..n).map(|_| rng.chance(1, 2)).collect(),
        };
        f.tr.push(t.archive(be));
        t.tag = "ozz-float3_track";
        t.values = (0..n).map(|_| vec![rng.range(-4, 4) as f32, 1.0, 2.0]).collect();
        f.trv.push(t.archive(be));
        f.ctx.push(*rng.pick(&[0usize, 1, 3, 4, 5, 8, 9, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 257]));
        for kind in ["skeleton", "animation", "context", "track", "trackv"] {
            let both = |t: Blob, b: Blob| match (t, b) {
                (Blob::Text(t), Blob::Binary(b)) => (t, b),
                _ => unreachable!(),
            };
            let (t, b) = match make(kind, &f, k).unwrap() {
                Obj::Skel(s) => both(save(&*s, "text"), save(&*s, "cbor")),
                Obj::Anim(s) | Obj::Odd(s) => both(save(&*s, "text"), save(&*s, "cbor")),
                Obj::Tr(s) => both(save(&*s, "text"), save(&*s, "cbor")),
                Obj::TrV(s) => both(save(&s, "text"), save(&s, "cbor")),
                Obj::Ctx(c) => both(save(&c, "text"), save(&c, "cbor")),
            };
            f.saved.push((kind, t, b));
        }
    }
    f
}

fn arch(b: &[u8]) -> Result<Archive<std::io::Cursor<Vec<u8>>>, OzzError> {
    Archive::from_vec(b.to_vec())
}

fn load(kind: &str, b: &[u8]) -> Result<Obj, OzzError> {
    let mut a = arch(b)?;
    Ok(match kind {
        "skeleton" => Obj::Skel(Arc::new(Skeleton::from_archive(&mut a)?)),
        "animation" => Obj::Anim(Arc::new(Animation::from_archive(&mut a)?)),
        "odd" => Obj::Odd(Arc::new(Animation::from_archive(&mut a)?)),
        "track" => Obj::Tr(Arc::new(Track::from_archive(&mut a)?)),
        _ => Obj::TrV(Track::from_archive(&mut a)?),
    })
}

fn make(kind: &str, f: &Feed, k: usize) -> Result<Obj, OzzError> {
    match kind {
        "context" if k % 2 == 0 => Ok(Obj::Ctx(SamplingContext::new(f.ctx[k % 4]))),
        "context" => Ok(Obj::Ctx(SamplingContext::from_animation(&f.known))),
        _ => load(kind, bytes(kind, f, k)),
    }
}

fn bytes<'a>(kind: &str, f: &'a Feed, k: usize) -> &'a [u8] {
    match kind {
        "skeleton" => &f.skel[k % f.skel.len()],
        "animation" => &f.anim[k % f.anim.len()],
        "odd" => &f.odd[k % f.odd.len()],
        "track" => &f.tr[k % f.tr.len()],
        _ => &f.trv[k % f.trv.len()],
    }
}

/// Reading that fails: part of an archive, or another one's.
fn fail(kind: &str, f: &Feed, k: usize, part: usize, meta: bool) -> Result<(), OzzError> {
    if k % 2 == 1 || kind == "context" {
        let (_, t, b) = f.saved.iter().filter(|x| x.0 == kind).nth(k / 2 % 3).unwrap();
        let gone = |_: String| OzzError::Unexcepted;
        let blob = if k % 3 == 0 { Blob::Binary(b[..part % b.len()].to_vec()) } else { Blob::Text(t[..part % t.len()].to_string()) };
        let via = if k % 3 == 0 { "cbor" } else { ["text", "reader"][part % 2] };
        return match kind {
            "skeleton" => restore::<Skeleton>(&blob, via).map(|_| ()).map_err(gone),
            "animation" => restore::<Animation>(&blob, via).map(|_| ()).map_err(gone),
            "track" => restore::<Track<f32>>(&blob, via).map(|_| ()).map_err(gone),
            "trackv" => restore::<Track<Vec3>>(&blob, via).map(|_| ()).map_err(gone),
            _ => restore::<SamplingContext>(&blob, via).map(|_| ()).map_err(gone),
        };
    }
    let b = bytes(kind, f, k);
    let cut = &b[..part % b.len()];
    if meta && kind == "animation" {
        return Animation::read_meta(&mut arch(b)?).map(|_| ());
    }
    if meta && kind == "skeleton" {
        return Skeleton::read_meta(&mut arch(b)?, part % 2 == 0).map(|_| ());
    }
    if meta {
        return load(kind, &f.skel[0]).map(|_| ());
    }
    load(kind, cut).map(|_| ())
}

fn copy(o: &Obj, via: &'static str) -> Obj {
    match o {
        Obj::Skel(s) => Obj::Skel(Arc::new(restore(&save(&**s, via), via).unwrap())),
        Obj::Anim(s) => Obj::Anim(Arc::new(restore(&save(&**s, via), via).unwrap())),
        Obj::Odd(s) => Obj::Odd(Arc::new(restore(&save(&**s, via), via).unwrap())),
        Obj::Tr(s) => Obj::Tr(Arc::new(restore(&save(&**s, via), via).unwrap())),
        Obj::TrV(s) => Obj::TrV(restore(&save(s, via), via).unwrap()),
        Obj::Ctx(c) => Obj::Ctx(match via {
            "clone" => c.clone(),
            "cloneid" => c.clone_without_animation_id(),
            _ => restore(&save(c, via), via).unwrap(),
        }),
    }
}

fn use_obj(o: &mut Obj, f: &Feed, h: &mut Hash) {
    match o {
        Obj::Anim(a) => {
            let out = Arc::new(RwLock::new(vec![SoaTransform::default(); a.num_soa_tracks()]));
            let mut job: SamplingJobArc = SamplingJob::default();
            job.set_animation(a.clone());
            job.set_context(SamplingContext::new(a.num_tracks() + 5));
            job.set_output(out.clone());
            for r in &f.ratios {
                job.set_ratio(*r);
                job.run().unwrap();
                h.add(bytes_of(&out.read().unwrap()[..]));
            }
            let mut ctx = job.take_context().unwrap();
            ctx.clear();
            job.set_context(ctx);
            job.run().unwrap();
            h.add(bytes_of(&out.read().unwrap()[..]));
        }
        Obj::Odd(a) => h.num(a.num_soa_tracks()),
        Obj::Ctx(c) => {
            let a = &f.known;
            let mut out = vec![SoaTransform::default(); a.num_soa_tracks()];
            for r in &f.ratios {
                let mut job: SamplingJobRef = SamplingJob::default();
                job.set_animation(a);
                job.set_context(c);
                job.set_ratio(*r);
                job.set_output(&mut out);
                let ok = job.run().is_ok();
                h.num(ok as usize);
                h.add(bytes_of(&out));
            }
        }
        Obj::Skel(s) => {
            let n = s.num_soa_joints();
            let pose = Arc::new(RwLock::new(s.joint_rest_poses().to_vec()));
            let out = Arc::new(RwLock::new(vec![SoaTransform::default(); n]));
            let mut blend: BlendingJobArc = BlendingJob::default();
            blend.set_skeleton(s.clone());
            blend.set_output(out.clone());
            blend.layers_mut().push(BlendingLayer::new(pose.clone()));
            blend.layers_mut().push(BlendingLayer::with_weight(pose.clone(), 0.5));
            h.num(blend.run().is_ok() as usize);
            h.add(bytes_of(&out.read().unwrap()[..]));
            let mats = Arc::new(RwLock::new(vec![Mat4::IDENTITY; s.num_aligned_joints()]));
            let mut job: LocalToModelJobArc = LocalToModelJob::default();
            job.set_skeleton(s.clone());
            job.set_input(pose.clone());
            job.set_output(mats.clone());
            h.num(job.run().is_ok() as usize);
            h.add(bytes_of(&mats.read().unwrap()[..s.num_joints()]));
            let mut up = 0;
            s.iter_depth_first(-1, |i, p| up += i as usize + (p + 1) as usize);
            h.num(up);
            if s.num_joints() > 0 {
                let m = mats.read().unwrap().clone();
                let v = [Vec3::ONE; 3];
                let (idx, mut o3) = ([0u16; 3], [Vec3::ZERO; 3]);
                let mut skin: SkinningJobRef = SkinningJob::default();
                skin.set_vertex_count(3);
                skin.set_influences_count(1);
                skin.set_joint_matrices(&m);
                skin.set_joint_indices(&idx);
                skin.set_in_positions(&v);
                skin.set_out_positions(&mut o3);
                h.num(skin.run().is_ok() as usize);
                drop(skin);
                h.add(bytes_of(&o3));
            }
            let mut aim = IKAimJob::default();
            aim.set_target(Vec3A::new(1.0, 2.0, 3.0));
            aim.set_joint(Mat4::IDENTITY);
            let _ = aim.run();
            h.add(&aim.joint_correction().x.to_le_bytes());
        }
        Obj::Tr(t) => {
            for r in &f.ratios {
                let mut job: TrackSamplingJobArc<f32> = TrackSamplingJob::default();
                job.set_track(t.clone());
                job.set_ratio(*r);
                job.run().unwrap();
                h.add(&job.result().to_le_bytes());
            }
            let mut job: TrackTriggeringJobArc = TrackTriggeringJob::default();
            job.set_track(t.clone());
            job.set_from(-1.5);
            job.set_to(2.25);
            let edges: Vec<Edge> = job.run().unwrap().collect();
            for e in &edges {
                h.add(format!("{e:?}").as_bytes());
            }
        }
        Obj::TrV(t) => {
            let mut job: TrackSamplingJobRef<Vec3> = TrackSamplingJob::default();
            job.set_track(t);
            job.set_ratio(f.ratios[0]);
            job.run().unwrap();
            h.add(bytes_of(&[job.result()]));
        }
    }
    let _ = Quat::IDENTITY;
}

// -------------------------------------------------------------------------------------- recording

/// Numbers for blocks, in the order they were taken.
struct Ledger {
    seen: usize,
    blocks: Vec<(usize, usize)>,
}

impl Ledger {
    fn id(&self, p: usize) -> usize {
        self.blocks.iter().rposition(|b| b.0 == p).map_or(0, |i| i + 1)
    }
    /// What was logged since the last time.
    fn log(&mut self) -> Vec<Value> {
        let n = LEN.load(SeqCst);
        assert!(n <= MAXLOG);
        let mut out = vec![];
        for i in self.seen..n {
            let e = unsafe { (*std::ptr::addr_of!(LOG))[i] };
            if e.take {
                self.blocks.push((e.ptr, e.size));
                out.push(json!([1, self.blocks.len(), e.size, e.align]));
            } else {
                out.push(json!([0, self.id(e.ptr), e.size, e.align]));
            }
        }
        self.seen = n;
        out
    }
    fn views(&self, o: &Obj) -> Value {
        let mut out = vec![];
        for v in views(o) {
            if v.len == 0 {
                // nothing to see, at an address that may be used
                out.push(json!([v.name, 0, 0, 0, v.align, v.ptr != 0 && v.ptr % v.align == 0]));
                continue;
            }
            let b = self.blocks.iter().rposition(|b| v.ptr >= b.0 && v.ptr < b.0 + b.1);
            let (id, off) = b.map_or((0, 0), |i| (i + 1, v.ptr - self.blocks[i].0));
            out.push(json!([v.name, id, off, v.len, v.align, v.ptr % v.align == 0]));
        }
        Value::Array(out)
    }
    /// Have the zones around the blocks been written to?
    fn zones(&self) -> bool {
        if MODE.load(SeqCst) != 0 {
            return true;
        }
        self.blocks.iter().all(|(p, n)| {
            ours(*p) == false
                || unsafe {
                    let z = |at: usize| std::slice::from_raw_parts(at as *const u8, ZONE).iter().all(|x| *x == ZONE_BYTE);
                    z(p - ZONE) && z(p + n)
                }
        })
    }
}

fn step<T: Send>(thread: bool, f: impl FnOnce() -> T + Send) -> Result<T, ()> {
    guard(|| {
        if thread {
            std::thread::scope(|s| s.spawn(|| on(f)).join().unwrap())
        } else {
            on(f)
        }
    })
}

fn life(walk: &[Vec<String>], f: &Feed, choices: &[usize], mode: usize, fill: u8, ev: &mut Vec<Value>) -> bool {
    arena(mode, fill);
    let mut led = Ledger { seen: 0, blocks: vec![] };
    let mut slots: Vec<Option<Obj>> = (0..4).map(|_| None).collect();
    ev.push(json!({"op": "pass", "mode": mode, "fill": fill}));
    let mut walk: Vec<Vec<String>> = walk.to_vec();
    for s in 1..4 {
        walk.push(vec!["end".into(), s.to_string()]);
    }
    for (n, w) in walk.iter().enumerate() {
        let c = choices[n % choices.len()];
        let at = |i: usize| w[i].parse::<usize>().unwrap();
        let thread = c % 5 == 0;
        if matches!(ev.last().unwrap()["res"].as_str(), Some("panic" | "error")) {
            // judged already; leave the rest
            slots.into_iter().for_each(std::mem::forget);
            return false;
        }
        let mut h = Hash::new();
        match w[0].as_str() {
            "make" => {
                let (s, kind) = (at(1), w[2].as_str());
                let kind = if kind == "animation" && c % 3 == 1 { "odd" } else if kind == "track" && c % 2 == 1 { "trackv" } else { kind };
                let r = step(thread, || make(kind, f, c / 15));
                let res = match r {
                    Ok(Ok(o)) => {
                        digest(&o, &mut h);
                        slots[s] = Some(o);
                        "ok"
                    }
                    Ok(Err(_)) => "error",
                    Err(_) => "panic",
                };
                let log = led.log();
                let v = slots[s].as_ref().map_or(json!([]), |o| led.views(o));
                ev.push(json!({"op": "make", "slot": s, "res": res, "log": log, "views": v, "dig": format!("{:x}", h.0)}));
            }
            "copy" => {
                let (from, s) = (at(1), at(2));
                let src = slots[from].as_ref().unwrap();
                let via = if matches!(src, Obj::Ctx(_)) {
                    ["clone", "cloneid", "rkyv", "rkyvvec", "text", "clone"][c / 5 % 6]
                } else {
                    ["rkyv", "rkyvtuple", "rkyv", "text", "cbor", "bincode"][c / 5 % 6]
                };
                let r = step(thread, || copy(src, via));
                let res = match r {
                    Ok(o) => {
                        digest(&o, &mut h);
                        slots[s] = Some(o);
                        "ok"
                    }
                    Err(_) => "panic",
                };
                let log = led.log();
                let v = slots[s].as_ref().map_or(json!([]), |o| led.views(o));
                ev.push(json!({"op": "make", "slot": s, "res": res, "log": log, "views": v, "dig": format!("{:x}", h.0)}));
            }
            "use" => {
                let o = slots[at(1)].as_mut().unwrap();
                let r = step(thread, || {
                    let mut h = Hash::new();
                    use_obj(o, f, &mut h);
                    h
                });
                let res = if r.is_ok() { "ok" } else { "panic" };
                if let Ok(x) = r {
                    h = x;
                }
                digest(o, &mut h);
                let log = led.log();
                let v = led.views(o);
                ev.push(json!({"op": "use", "slot": at(1), "res": res, "log": log, "views": v, "dig": format!("{:x}", h.0)}));
            }
            "fail" => {
                let kind = w[1].as_str();
                let kind = if kind == "track" && c % 2 == 1 { "trackv" } else { kind };
                let r = step(thread, || fail(kind, f, c / 15, c, c % 7 == 0).is_ok());
                let res = if r.is_ok() { "ok" } else { "panic" };
                let log = led.log();
                ev.push(json!({"op": "fail", "res": res, "log": log, "dig": format!("{r:?}")}));
            }
            _ => {
                // (at the end, whatever is left)
                let s = at(1);
                if let Some(o) = slots[s].take() {
                    let r = step(thread, || drop(o));
                    let res = if r.is_ok() { "ok" } else { "panic" };
                    let log = led.log();
                    ev.push(json!({"op": "drop", "slot": s, "res": res, "log": log, "dig": ""}));
                }
            }
        }
    }
    ev.push(json!({"op": "done", "zones": led.zones()}));
    true
}

pub fn run_c23(rec: &mut Rec, a: &Args) {
    let mut rng = Rng::new(a.seed ^ 0xC23);
    let plan = a.plan.as_ref().expect("plan");
    let walks: Vec<Vec<Vec<String>>> = plan["walks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|w| w.as_array().unwrap().iter().map(|s| s.as_str().unwrap().split(':').map(|x| x.to_string()).collect()).collect())
        .collect();
    let rounds = if a.thorough { 24 } else { 6 };
    for round in 0..rounds {
        for w in &walks {
            let choices: Vec<usize> = (0..w.len() + 3).map(|_| rng.below(1 << 20)).collect();
            let cfg = json!({"round": round, "walk": w.iter().map(|x| x.join(":")).collect::<Vec<_>>(), "seed": a.seed});
            rec.begin("life", &cfg);
            let f = feed(&mut rng);
            let mut ev = vec![];
            for (mode, fill) in [(0, 0u8), (0, 0xA5), (1, 0xFF), (2, 0x3F)] {
                if !life(w, &f, &choices, mode, fill, &mut ev) {
                    break;
                }
            }
            rec.end("life", &cfg, ev);
        }
    }
}
