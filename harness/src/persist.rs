//! C13: saving and restoring objects and contexts.
use crate::archive::*;
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use crate::sampling::{random_anim, sample_into};
use glam::{Mat4, Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::math::{SoaQuat, SoaVec3};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;
use rkyv::ser::serializers::AllocSerializer;
use rkyv::Deserialize as _;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub const VIAS: [&str; 7] = ["cbor", "text", "value", "reader", "rkyv", "rkyvtuple", "rkyvvec"];
/// (a format without names and counts, contexts do not offer themselves to it)
const OBJECT_VIAS: [&str; 8] = ["bincode", "cbor", "text", "value", "reader", "rkyv", "rkyvtuple", "rkyvvec"];

/// Saved bytes, in one of the ways to save.
pub enum Blob {
    Text(String),
    Value(Value),
    Binary(Vec<u8>),
    Rkyv(&'static str, rkyv::AlignedVec),
}

pub trait Keep: Serialize + DeserializeOwned + rkyv::Archive + rkyv::Serialize<AllocSerializer<1024>> + Sized {
    /// checked access, where the type offers it
    fn checked(_: &[u8]) -> bool {
        true
    }
}
type Sz = AllocSerializer<1024>;
impl Keep for Animation {}
impl Keep for Skeleton {}
impl Keep for Track<f32> {}
impl Keep for Track<Vec2> {}
impl Keep for Track<Vec3> {}
impl Keep for Track<Vec4> {}
impl Keep for Track<Quat> {}
impl Keep for SamplingContext {
    fn checked(b: &[u8]) -> bool {
        rkyv::check_archived_root::<SamplingContext>(b).is_ok()
    }
}
impl Keep for SoaTransform {
    fn checked(b: &[u8]) -> bool {
        rkyv::check_archived_root::<SoaTransform>(b).is_ok()
    }
}
impl Keep for SoaVec3 {
    fn checked(b: &[u8]) -> bool {
        rkyv::check_archived_root::<SoaVec3>(b).is_ok()
    }
}
impl Keep for SoaQuat {
    fn checked(b: &[u8]) -> bool {
        rkyv::check_archived_root::<SoaQuat>(b).is_ok()
    }
}

/// Wrapper that lets a borrowed value be serialised inside a container.
pub struct ByRef<'a, T>(pub &'a T);
impl<T: rkyv::Archive> rkyv::Archive for ByRef<'_, T> {
    type Archived = T::Archived;
    type Resolver = T::Resolver;
    unsafe fn resolve(&self, pos: usize, r: T::Resolver, out: *mut T::Archived) {
        self.0.resolve(pos, r, out)
    }
}
impl<T: rkyv::Serialize<Sz>> rkyv::Serialize<Sz> for ByRef<'_, T> {
    fn serialize(&self, s: &mut Sz) -> Result<T::Resolver, <Sz as rkyv::Fallible>::Error> {
        self.0.serialize(s)
    }
}

pub fn save<T: Keep>(x: &T, via: &'static str) -> Blob {
    match via {
        "text" | "reader" => Blob::Text(serde_json::to_string(x).unwrap()),
        "cbor" => {
            let mut b = vec![];
            // two of them, the second one is read
            ciborium::into_writer(&(x, x), &mut b).unwrap();
            Blob::Binary(b)
        }
        "bincode" => Blob::Binary(bincode::serialize(&(x, x)).unwrap()),
        "value" => Blob::Value(serde_json::to_value(x).unwrap()),
        "rkyv" => Blob::Rkyv(via, rkyv::to_bytes::<_, 1024>(x).unwrap()),
        // something odd in front of it
        "rkyvtuple" => Blob::Rkyv(via, rkyv::to_bytes::<_, 1024>(&(vec![1u8, 2, 3], ByRef(x), 7u8)).unwrap()),
        _ => Blob::Rkyv(via, rkyv::to_bytes::<_, 1024>(&vec![ByRef(x), ByRef(x), ByRef(x)]).unwrap()),
    }
}

pub fn restore<T: Keep>(b: &Blob, via: &str) -> Result<T, String>
where
    T::Archived: rkyv::Deserialize<T, rkyv::Infallible>,
{
    let inf = &mut rkyv::Infallible;
    match b {
        Blob::Text(s) if via == "reader" => serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string()),
        Blob::Text(s) => serde_json::from_str(s).map_err(|e| e.to_string()),
        Blob::Value(v) => serde_json::from_value(v.clone()).map_err(|e| e.to_string()),
        Blob::Binary(b) if via == "cbor" => ciborium::from_reader::<(T, T), _>(&b[..]).map(|x| x.1).map_err(|e| e.to_string()),
        Blob::Binary(b) => bincode::deserialize::<(T, T)>(b).map(|x| x.1).map_err(|e| e.to_string()),
        Blob::Rkyv("rkyv", b) => {
            if !T::checked(b) {
                return Err("check".into());
            }
            Ok(unsafe { rkyv::archived_root::<T>(b) }.deserialize(inf).unwrap())
        }
        Blob::Rkyv("rkyvtuple", b) => {
            Ok(unsafe { rkyv::archived_root::<(Vec<u8>, ByRef<T>, u8)>(b) }.1.deserialize(inf).unwrap())
        }
        Blob::Rkyv(_, b) => Ok(unsafe { rkyv::archived_root::<Vec<ByRef<T>>>(b) }[2].deserialize(inf).unwrap()),
    }
}

// ------------------------------------------------------------------------------------- objects

fn behave_anim(a: &Animation) -> Vec<u8> {
    let mut o = vec![];
    let mut ctx = SamplingContext::new(a.num_tracks());
    for r in [0.0, 0.3, 0.31, 1.0, 0.1] {
        let mut out = vec![SoaTransform::default(); a.num_soa_tracks()];
        sample_into(a, &mut ctx, r, &mut out).unwrap().unwrap();
        o.extend_from_slice(bytes_of(&out));
    }
    o
}

fn behave_skel(s: &Skeleton) -> Vec<u8> {
    let mut o = vec![];
    if s.num_joints() > 0 {
        let mut out = vec![Mat4::IDENTITY; s.num_joints()];
        let poses = s.joint_rest_poses().to_vec();
        let mut job: LocalToModelJobRef = LocalToModelJob::default();
        job.set_skeleton(s);
        job.set_input(&poses);
        job.set_output(&mut out);
        job.run().unwrap();
        drop(job);
        for m in out {
            o.extend_from_slice(bytes_of(&m.to_cols_array().map(|x| if x.is_nan() { 0x7fc00000 } else { x.to_bits() })));
        }
        s.iter_depth_first(-1, |a, b| o.extend_from_slice(bytes_of(&[a, b])));
        s.iter_depth_first_reverse(|a, b| o.extend_from_slice(bytes_of(&[a, b])));
    }
    for j in 0..s.num_joints() as i16 {
        let n = s.name_by_joint(j).unwrap();
        o.extend_from_slice(bytes_of(&[s.joint_by_name(n).unwrap(), s.is_leaf(j) as i16, s.joint_parent(j)]));
    }
    o
}

fn behave_track<V: TrackValue>(t: &Track<V>) -> Vec<u8>
where
    V: Default + Clone,
{
    let mut o = vec![];
    if t.key_count() > 0 {
        for r in [0.0, 0.25, 0.5, 1.0] {
            let mut job: TrackSamplingJobRef<V> = TrackSamplingJob::default();
            job.set_track(t);
            job.set_ratio(r);
            if job.run().is_ok() {
                o.extend_from_slice(bytes_of(&[job.result()]));
            }
        }
    }
    o
}

/// Save and restore `x`, again and again; the last copy is looked at once everything else is gone.
fn chain<T: Keep>(
    rec: &mut Rec,
    rng: &mut Rng,
    ty: &str,
    finite: bool,
    x: T,
    look: fn(&T) -> Value,
    behave: fn(&T) -> Vec<u8>,
) where
    T::Archived: rkyv::Deserialize<T, rkyv::Infallible>,
{
    let pool: &[&'static str] = if finite { &OBJECT_VIAS } else { &OBJECT_VIAS[5..] };
    let vias: Vec<&'static str> = (0..3).map(|_| *rng.pick(pool)).collect();
    let cfg = json!({"as": ty, "vias": vias});
    rec.begin("object", &cfg);
    let mut it = Intern::new();
    let obs = |x: &T, it: &mut Intern| guard(|| json!({"obj": look(x), "beh": it.id(&behave(x))}));
    let first = obs(&x, &mut it);
    let mut ev = vec![json!({"op": "made", "as": ty, "res": if first.is_ok() { "ok" } else { "panic" }, "see": first.unwrap_or(json!(0))})];
    let mut cur = x;
    for via in vias {
        match guard(|| restore::<T>(&save(&cur, via), via)) {
            Ok(Ok(y)) => {
                let before = obs(&cur, &mut it);
                drop(std::mem::replace(&mut cur, y));
                // reuse the freed memory
                let junk: Vec<Vec<u8>> = (0..8).map(|k| vec![0xA5u8; 40 << k]).collect();
                let after = obs(&cur, &mut it);
                drop(junk);
                let ok = before.is_ok() && after.is_ok();
                ev.push(json!({"op": "again", "res": if ok { "ok" } else { "panic" }, "via": via,
                    "orig": before.unwrap_or(json!(0)), "see": after.unwrap_or(json!(0))}));
            }
            Ok(Err(e)) => {
                ev.push(json!({"op": "again", "res": e, "via": via}));
                break;
            }
            Err(_) => {
                ev.push(json!({"op": "again", "res": "panic", "via": via}));
                break;
            }
        }
    }
    rec.end("object", &cfg, ev);
}

pub fn finite_track(rng: &mut Rng, ty: &str) -> TrackSpec {
    let mut t = random_track(rng, ty);
    let n = t.ratios.len();
    for (i, r) in t.ratios.iter_mut().enumerate() {
        *r = i as f32 / n.max(2) as f32;
    }
    for v in t.values.iter_mut() {
        for x in v.iter_mut() {
            *x = (rng.unit() * 200.0 - 100.0) as f32;
        }
    }
    t
}

fn tracks_of<V: TrackValue + Default + Clone>(rec: &mut Rec, rng: &mut Rng, ty: &str, wild: bool)
where
    Track<V>: Keep,
    <Track<V> as rkyv::Archive>::Archived: rkyv::Deserialize<Track<V>, rkyv::Infallible>,
{
    let s = if wild { random_track(rng, ty) } else { finite_track(rng, ty) };
    let t: Track<V> = s.load();
    chain(rec, rng, ty, !wild, t, |x| track_json(x), if wild { |_| vec![] } else { |x| behave_track(x) });
}

fn objects(rec: &mut Rec, rng: &mut Rng, k: usize) {
    for i in 0..24 * k {
        let wild = i % 3 == 2;
        let a = random_raw(rng, !wild).animation();
        chain(rec, rng, "animation", !wild, a, anim_json, if wild { |_| vec![] } else { behave_anim });
        let mut s = random_skel(rng);
        if !wild {
            for r in s.rest.iter_mut() {
                for x in r.iter_mut() {
                    *x = (rng.unit() * 20.0 - 10.0) as f32;
                }
            }
        }
        chain(rec, rng, "skeleton", !wild, s.skeleton(), skel_json, behave_skel);
        match i % 5 {
            0 => tracks_of::<f32>(rec, rng, "float", wild),
            1 => tracks_of::<Vec2>(rec, rng, "float2", wild),
            2 => tracks_of::<Vec3>(rec, rng, "float3", wild),
            3 => tracks_of::<Vec4>(rec, rng, "float4", wild),
            _ => tracks_of::<Quat>(rec, rng, "quat", wild),
        }
        let mut f = || if wild { some_f32(rng) } else { (rng.unit() * 20.0 - 10.0) as f32 };
        let v: [[f32; 4]; 10] = std::array::from_fn(|_| std::array::from_fn(|_| f()));
        let t = SoaTransform {
            translation: SoaVec3::new(v[0], v[1], v[2]),
            rotation: SoaQuat::new(v[3], v[4], v[5], v[6]),
            scale: SoaVec3::new(v[7], v[8], v[9]),
        };
        match i % 3 {
            0 => chain(rec, rng, "soatransform", !wild, t, |x| words(&[*x]), |_| vec![]),
            1 => chain(rec, rng, "soavec3", !wild, t.translation, |x| words(&[*x]), |_| vec![]),
            _ => chain(rec, rng, "soaquat", !wild, t.rotation, |x| words(&[*x]), |_| vec![]),
        }
    }
}

// ------------------------------------------------------------------------------------ contexts

/// Everything a context holds, but for the identity of its animation.
fn ctx_bytes(c: &SamplingContext) -> Vec<u8> {
    let mut o = vec![];
    for x in [c.max_tracks(), c.max_soa_tracks(), c.max_outdated(), c.translation_next(), c.rotation_next(), c.scale_next()] {
        o.extend_from_slice(&(x as u64).to_le_bytes());
    }
    o.extend_from_slice(&c.ratio().to_bits().to_le_bytes());
    o.extend_from_slice(bytes_of(c.translations()));
    o.extend_from_slice(bytes_of(c.translation_entries()));
    o.extend_from_slice(c.translation_outdated());
    o.extend_from_slice(bytes_of(c.rotations()));
    o.extend_from_slice(bytes_of(c.rotation_entries()));
    o.extend_from_slice(c.rotation_outdated());
    o.extend_from_slice(bytes_of(c.scales()));
    o.extend_from_slice(bytes_of(c.scale_entries()));
    o.extend_from_slice(c.scale_outdated());
    o
}

#[derive(Debug, Clone)]
enum Op {
    New(usize, usize),
    Sample(usize, usize, i64),
    /// save slot as blob
    Save(usize, usize, &'static str),
    /// restore blob into slot
    Restore(usize, usize),
    Clone(usize, usize),
    CloneNoId(usize, usize),
    Clear(usize),
    Drop(usize),
}

const SLOTS: usize = 5;
const BLOBS: usize = 3;

fn contexts(rec: &mut Rec, kind: &str, specs: &[AnimSpec], ops: &[Op], den: i64) {
    let big = specs.iter().any(|s| s.td >= 1024);
    let cfg = json!({"slots": SLOTS, "blobs": BLOBS});
    rec.begin(kind, &json!({"specs": if big { "big".to_string() } else { format!("{specs:?}") }, "ops": format!("{ops:?}")}));
    let anims: Vec<Animation> = specs.iter().map(|s| s.animation()).collect();
    let who = |c: &SamplingContext| {
        anims.iter().position(|a| a as *const _ as u64 == c.animation_id()).map_or(if c.animation_id() == 0 { 0 } else { -1 }, |k| k as i64 + 1)
    };
    let mut it = Intern::new();
    let mut slots: Vec<Option<SamplingContext>> = (0..SLOTS).map(|_| None).collect();
    let mut blobs: Vec<Option<(Blob, &'static str)>> = (0..BLOBS).map(|_| None).collect();
    let mut ev: Vec<Value> = vec![];
    for op in ops {
        let mut e = match op {
            Op::New(s, cap) => {
                let r = guard(|| SamplingContext::new(*cap));
                slots[*s] = r.ok();
                json!({"op": "new", "s": s + 1, "res": if slots[*s].is_some() { "ok" } else { "panic" }})
            }
            Op::Sample(s, a, r) => {
                let Some(c) = slots[*s].as_mut() else { continue };
                let mut out = vec![SoaTransform::default(); anims[*a].num_soa_tracks()];
                let res = sample_into(&anims[*a], c, (*r as f64 / den as f64) as f32, &mut out);
                json!({"op": "sample", "s": s + 1, "a": a + 1, "r": r, "res": res_name(&res), "out": it.id(bytes_of(&out))})
            }
            Op::Save(s, b, via) => {
                let Some(c) = slots[*s].as_ref() else { continue };
                let r = guard(|| save(c, via));
                let ok = r.is_ok();
                blobs[*b] = r.ok().map(|x| (x, *via));
                json!({"op": "save", "s": s + 1, "b": b + 1, "via": via, "res": if ok { "ok" } else { "panic" }})
            }
            Op::Restore(b, s) => {
                let Some((blob, via)) = blobs[*b].as_ref() else { continue };
                let r = guard(|| restore::<SamplingContext>(blob, via));
                let name = match &r {
                    Ok(Ok(_)) => "ok".to_string(),
                    Ok(Err(e)) => e.clone(),
                    Err(_) => "panic".to_string(),
                };
                slots[*s] = r.ok().and_then(|x| x.ok());
                json!({"op": "restore", "s": s + 1, "b": b + 1, "via": via, "res": name})
            }
            Op::Clone(s, t) | Op::CloneNoId(s, t) => {
                let Some(c) = slots[*s].as_ref() else { continue };
                let id = matches!(op, Op::Clone(..));
                let r = guard(|| if id { c.clone() } else { c.clone_without_animation_id() });
                let ok = r.is_ok();
                slots[*t] = r.ok();
                json!({"op": if id { "clone" } else { "cloneid" }, "s": s + 1, "t": t + 1, "res": if ok { "ok" } else { "panic" }})
            }
            Op::Clear(s) => {
                let Some(c) = slots[*s].as_mut() else { continue };
                let r = guard(|| c.clear());
                json!({"op": "clear", "s": s + 1, "res": if r.is_ok() { "ok" } else { "panic" }})
            }
            Op::Drop(s) => {
                if slots[*s].is_none() {
                    continue;
                }
                slots[*s] = None;
                json!({"op": "drop", "s": s + 1, "res": "ok"})
            }
        };
        // what every context holds now
        e["see"] = Value::Array(
            slots
                .iter()
                .map(|c| match c {
                    Some(c) => json!([who(c), it.id(&ctx_bytes(c))]),
                    None => json!([0, 0]),
                })
                .collect(),
        );
        // and which compare equal
        let mut eq = vec![];
        for i in 0..SLOTS {
            for j in i + 1..SLOTS {
                if let (Some(a), Some(b)) = (&slots[i], &slots[j]) {
                    eq.push(json!([i + 1, j + 1, if a == b { 1 } else { 0 }]));
                }
            }
        }
        e["eq"] = Value::Array(eq);
        let dead = e["res"] == "panic";
        ev.push(e);
        if dead {
            break;
        }
    }
    rec.end(kind, &cfg, ev);
}

pub fn run_c13(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0x1313);
    let k = if args.thorough { 12 } else { 1 };
    objects(rec, &mut rng, k);
    // more keys than 16 bits count: only its identity is recorded
    for _ in 0..2 {
        let a = crate::sampling::big_anim(&mut rng, 2).animation();
        chain(rec, &mut rng, "big", true, a, |_| json!(0), |x| {
            let mut o = serde_json::to_vec(x).unwrap();
            o.extend(behave_anim(x));
            o
        });
    }
    // walks of the model: two slots, one blob, two animations, three ratios
    if let Some(p) = &args.plan {
        for sc in p["scenarios"].as_array().unwrap() {
            let specs = [random_anim(&mut rng, 3, 3), random_anim(&mut rng, 6, 2)];
            let mut ops = vec![];
            for st in sc.as_array().unwrap() {
                let g = |i: usize| st[i].as_i64().unwrap() as usize;
                ops.push(match st[0].as_str().unwrap() {
                    "new" => Op::New(g(1) - 1, *rng.pick(&[6usize, 8, 9])),
                    "sample" => Op::Sample(g(1) - 1, g(2) - 1, g(3) as i64 * 5),
                    "save" => Op::Save(g(1) - 1, 0, VIAS[g(2) % VIAS.len()]),
                    "restore" => Op::Restore(0, g(1) - 1),
                    "clone" => Op::Clone(g(1) - 1, 2 - g(1)),
                    _ => Op::Drop(g(1) - 1),
                });
            }
            // (ratios which decimals of any number do not reach)
            let den = *rng.pick(&[10, 11]);
            contexts(rec, "walk", &specs, &ops, den);
        }
    }
    // contexts whose cursors are past 16 bits
    let specs = [crate::sampling::big_anim(&mut rng, 2)];
    let n = specs[0].n;
    let mut ops = vec![];
    for (i, via) in VIAS.iter().enumerate() {
        ops.extend([Op::New(0, n), Op::Sample(0, 0, 61 + i as i64 % 4), Op::Save(0, 0, via), Op::Restore(0, 1), Op::Sample(1, 0, 64), Op::Sample(0, 0, 64)]);
    }
    ops.extend([Op::Clone(0, 2), Op::Sample(2, 0, 64), Op::Sample(2, 0, 63)]);
    contexts(rec, "big", &specs, &ops, 64);
    for i in 0..60 * k {
        let na = rng.range(1, 3) as usize;
        let specs: Vec<AnimSpec> = (0..na)
            .map(|_| {
                let n = *rng.pick(&[1usize, 3, 4, 5, 9, 33, 67]);
                random_anim(&mut rng, if i % 4 == 0 { n } else { n.min(9) }, 4)
            })
            .collect();
        let maxn = specs.iter().map(|s| s.n).max().unwrap();
        let mut ops = vec![];
        for s in 0..2 {
            ops.push(Op::New(s, maxn + rng.below(6)));
        }
        let mut r = 0i64;
        for _ in 0..rng.range(15, 40) {
            let s = rng.below(SLOTS);
            ops.push(match rng.below(12) {
                0 => Op::New(s, maxn + rng.below(40)),
                1..=5 => {
                    r = match rng.below(3) {
                        0 => *rng.pick(&[rng.clone().range(0, 64), 64, 0]),
                        1 => (r + rng.range(0, 9)) % 65,
                        _ => r,
                    };
                    Op::Sample(s, rng.below(na), r)
                }
                6 => Op::Save(s, rng.below(BLOBS), *rng.pick(&VIAS)),
                7 | 8 => Op::Restore(rng.below(BLOBS), s),
                9 => Op::Clone(s, rng.below(SLOTS)),
                10 if rng.chance(1, 2) => Op::CloneNoId(s, (s + 1) % SLOTS),
                10 => Op::Clear(s),
                _ => Op::Drop(s),
            });
        }
        contexts(rec, "random", &specs, &ops, if i % 2 == 0 { 64 } else { 67 });
    }
}
