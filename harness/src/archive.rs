//! C12: loading archives.
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use crate::sampling::{random_anim, real_animations, sample_into};
use crate::skel::some_names;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::Read;
use std::rc::Rc;

pub fn word(b: u32) -> Value {
    json!([b >> 16, b & 0xffff])
}

pub fn words<T>(s: &[T]) -> Value {
    Value::Array(
        bytes_of(s)
            .chunks_exact(4)
            .map(|c| word(u32::from_ne_bytes([c[0], c[1], c[2], c[3]])))
            .collect(),
    )
}

fn keys<T: serde_json_ser::Ser>(k: &[T]) -> Value {
    Value::Array(k.iter().map(|x| x.json()).collect())
}

mod serde_json_ser {
    use super::*;
    pub trait Ser {
        fn json(&self) -> Value;
    }
    impl Ser for animation::Float3Key {
        fn json(&self) -> Value {
            serde_json::to_value(self).unwrap()
        }
    }
    impl Ser for animation::QuaternionKey {
        fn json(&self) -> Value {
            serde_json::to_value(self).unwrap()
        }
    }
}

pub fn anim_json(a: &Animation) -> Value {
    let chan = |c: &animation::KeyframesCtrl, k: Value| {
        json!({"ratios": c.ratios, "prev": c.previouses, "entries": c.iframe_entries,
               "desc": Value::Array(c.iframe_desc.iter().map(|x| word(*x)).collect()),
               "interval": word(c.iframe_interval.to_bits()), "keys": k})
    };
    json!({"duration": word(a.duration().to_bits()), "tracks": a.num_tracks(), "name": a.name().as_bytes(),
           "timepoints": words(a.timepoints()),
           "t": chan(&a.translations_ctrl(), keys(a.translations())),
           "r": chan(&a.rotations_ctrl(), keys(a.rotations())),
           "s": chan(&a.scales_ctrl(), keys(a.scales()))})
}

pub fn skel_json(s: &Skeleton) -> Value {
    let names: Vec<Value> = (0..s.num_joints())
        .map(|j| match s.name_by_joint(j as i16) {
            Some(n) => json!(n.as_bytes()),
            None => json!([-1]),
        })
        .collect();
    json!({"names": names, "parents": s.joint_parents(), "poses": words(s.joint_rest_poses())})
}

pub fn track_json<V: TrackValue>(t: &Track<V>) -> Value {
    json!({"keys": t.key_count(), "ratios": words(t.ratios()), "values": words(t.values()),
           "steps": t.steps(), "name": t.name().as_bytes()})
}

/// A reader that hands out at most `chunk` bytes at a time, sometimes interrupts, and fails at `fail`.
pub struct Odd {
    pub b: Vec<u8>,
    pub at: Rc<Cell<usize>>,
    pub chunk: usize,
    pub fail: usize,
    pub n: usize,
}

impl Read for Odd {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % 7 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let at = self.at.get();
        if at >= self.fail {
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        let k = out.len().min(self.chunk).min(self.b.len() - at).min(self.fail - at);
        out[..k].copy_from_slice(&self.b[at..at + k]);
        self.at.set(at + k);
        Ok(k)
    }
}

fn load_as(a: &mut Archive<impl Read>, ty: &str) -> Result<Value, OzzError> {
    Ok(match ty {
        "animation" => anim_json(&Animation::from_archive(a)?),
        "skeleton" => skel_json(&Skeleton::from_archive(a)?),
        "float" => track_json(&Track::<f32>::from_archive(a)?),
        "float2" => track_json(&Track::<Vec2>::from_archive(a)?),
        "float3" => track_json(&Track::<Vec3>::from_archive(a)?),
        "float4" => track_json(&Track::<Vec4>::from_archive(a)?),
        _ => track_json(&Track::<Quat>::from_archive(a)?),
    })
}

fn path_as(p: &str, ty: &str) -> Result<Value, OzzError> {
    Ok(match ty {
        "animation" => anim_json(&Animation::from_path(p)?),
        "skeleton" => skel_json(&Skeleton::from_path(p)?),
        "float" => track_json(&Track::<f32>::from_path(p)?),
        "float2" => track_json(&Track::<Vec2>::from_path(p)?),
        "float3" => track_json(&Track::<Vec3>::from_path(p)?),
        "float4" => track_json(&Track::<Vec4>::from_path(p)?),
        _ => track_json(&Track::<Quat>::from_path(p)?),
    })
}

const TYPES: [&str; 7] = ["animation", "skeleton", "float", "float2", "float3", "float4", "quat"];
const SRCS: [&str; 5] = ["vec", "slice", "file", "path", "odd"];

fn loaded(op: &str, ty: &str, src: &str, r: Result<Result<Value, OzzError>, ()>, used: i64) -> Value {
    json!({"op": op, "as": ty, "src": src, "res": res_name(&r), "used": used,
           "obj": match r { Ok(Ok(v)) => v, _ => json!({}) }})
}

/// One load of the first object of an archive.
fn load_one(bytes: &[u8], ty: &str, src: &str) -> Value {
    let tmp = "c12.ozz";
    if src == "file" || src == "path" {
        std::fs::write(tmp, bytes).unwrap();
    }
    let at = Rc::new(Cell::new(0));
    let r = guard(|| match src {
        "vec" => load_as(&mut Archive::from_vec(bytes.to_vec())?, ty),
        "slice" => load_as(&mut Archive::from_slice(bytes)?, ty),
        "file" => load_as(&mut Archive::from_file(std::fs::File::open(tmp).unwrap())?, ty),
        "path" => path_as(tmp, ty),
        _ => {
            let o = Odd { b: bytes.to_vec(), at: at.clone(), chunk: 1 + bytes.len() % 3, fail: usize::MAX, n: 0 };
            load_as(&mut Archive::new(o)?, ty)
        }
    });
    let used = if src == "odd" { at.get() as i64 } else { -1 };
    loaded("load", ty, src, r, used)
}

fn meta_event(bytes: &[u8], ty: &str, joints: bool) -> Value {
    let r = guard(|| {
        let mut a = Archive::from_slice(bytes)?;
        if ty == "animation" {
            let m = Animation::read_meta(&mut a)?;
            Ok(json!({"version": m.version, "duration": word(m.duration.to_bits()), "tracks": m.num_tracks,
                "name": m.name.as_bytes(), "timepoints": m.timepoints_count,
                "n": [m.translations_count, m.rotations_count, m.scales_count],
                "ne": [m.t_iframe_entries_count, m.r_iframe_entries_count, m.s_iframe_entries_count],
                "nd": [m.t_iframe_desc_count, m.r_iframe_desc_count, m.s_iframe_desc_count]}))
        } else {
            let m = Skeleton::read_meta(&mut a, joints)?;
            let names: Vec<Value> = if joints {
                (0..m.num_joints as i16)
                    .map(|j| m.joint_names.get_by_right(&j).map(|s| json!(s.as_bytes())).unwrap_or(json!([-1])))
                    .collect()
            } else {
                vec![]
            };
            Ok(json!({"version": m.version, "n": m.num_joints, "names": names, "parents": m.joint_parents}))
        }
    });
    json!({"op": "meta", "as": ty, "joints": joints, "res": res_name(&r),
           "obj": match r { Ok(Ok(v)) => v, _ => json!({}) }})
}

/// Everything about one archive holding a single object of type `ty`.
fn one_file(rec: &mut Rec, rng: &mut Rng, kind: &str, ty: &str, bytes: &[u8], prefixes: usize) {
    let cfg = json!({"bytes": bytes});
    rec.begin(kind, &cfg);
    let mut ev = vec![];
    let src = *rng.pick(&SRCS);
    ev.push(load_one(bytes, ty, src));
    ev.push(load_one(bytes, ty, "odd"));
    if ty == "animation" || ty == "skeleton" {
        for j in [false, true] {
            ev.push(meta_event(bytes, ty, j));
        }
    }
    // (an archive with another type's tag is not an archive of that type: its content is not)
    for _ in 0..if kind == "head" { 0 } else { 2 } {
        ev.push(load_one(bytes, *rng.pick(&TYPES), *rng.pick(&SRCS)));
    }
    // proper prefixes: all of them when there are few enough, else both ends and a random sample
    if prefixes > 0 {
        let n = bytes.len();
        let ks: Vec<usize> = if n <= prefixes {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = (0..prefixes / 3).chain(n - prefixes / 3..n).collect();
            v.extend((0..prefixes / 3).map(|_| rng.below(n)));
            v.sort();
            v.dedup();
            v
        };
        let how = *rng.pick(&["slice", "fail"]);
        let res: Vec<&str> = ks
            .iter()
            .map(|k| {
                let r = guard(|| {
                    if how == "slice" {
                        load_as(&mut Archive::from_slice(&bytes[..*k])?, ty)
                    } else {
                        let o = Odd { b: bytes.to_vec(), at: Default::default(), chunk: 5, fail: *k, n: 0 };
                        load_as(&mut Archive::new(o)?, ty)
                    }
                });
                res_name(&r)
            })
            .collect();
        ev.push(json!({"op": "prefixes", "as": ty, "how": how, "at": ks, "res": res}));
    }
    rec.end(kind, &cfg, ev);
}

/// Several objects one after the other in one archive, read with one reader.
fn many(rec: &mut Rec, rng: &mut Rng, kind: &str, bytes: &[u8], types: &[&str]) {
    let cfg = json!({"bytes": bytes});
    rec.begin(kind, &cfg);
    let mut ev = vec![];
    let at = Rc::new(Cell::new(0));
    let chunk = rng.range(1, 9) as usize;
    let o = Odd { b: bytes.to_vec(), at: at.clone(), chunk, fail: usize::MAX, n: 0 };
    match guard(|| Archive::new(o)) {
        Ok(Ok(mut a)) => {
            for ty in types {
                let r = guard(|| load_as(&mut a, ty));
                let stop = !matches!(r, Ok(Ok(_)));
                ev.push(loaded("next", ty, "odd", r, at.get() as i64));
                if stop {
                    break;
                }
            }
        }
        r => ev.push(loaded("next", types[0], "odd", r.map(|x| x.map(|_| json!({}))), 0)),
    }
    rec.end(kind, &cfg, ev);
}

pub fn some_f32(rng: &mut Rng) -> f32 {
    match rng.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::INFINITY,
        3 => f32::NEG_INFINITY,
        4 => f32::from_bits(0x7fc0_0000 | rng.below(1 << 20) as u32),
        5 => f32::from_bits(0xffc0_0000 | rng.below(1 << 20) as u32),
        6 => f32::from_bits(rng.below(1 << 22) as u32 + 1),
        7 => f32::MAX,
        8 => 1.0,
        _ => f32::from_bits((rng.next() as u32 & 0x807f_ffff) | ((rng.range(100, 150) as u32) << 23)),
    }
}

pub fn some_name(rng: &mut Rng) -> String {
    (*rng.pick(&["", "a", "run", "ozz-animation", "wälk-日本", "a name with spaces", "🦴"])).to_string()
}

pub fn random_raw(rng: &mut Rng, meaningful: bool) -> RawAnim {
    let n = *rng.pick(&[1usize, 2, 3, 4, 5, 8, 9]);
    let mut s = random_anim(rng, n, 3);
    if rng.chance(1, 4) {
        // around the limit of the narrow time index: 254 .. 258 time points
        let want = rng.range(254, 258);
        s.td = 512;
        for c in s.chans.iter_mut() {
            for t in c.tracks.iter_mut() {
                t.truncate(2);
                t[0].time = 0;
                t[1].time = 512;
            }
        }
        s.filler = (1..want - 1).collect();
    }
    s.name = some_name(rng);
    let mut r = s.raw();
    if !meaningful {
        // content the loader must carry over untouched, whatever it means
        r.duration = some_f32(rng);
        for t in r.timepoints.iter_mut() {
            *t = some_f32(rng);
        }
        let wide = r.timepoints.len() > 255;
        for c in r.chans.iter_mut() {
            c.interval = some_f32(rng);
            for x in c.ratios.iter_mut() {
                *x = if wide { rng.next() as u16 } else { rng.next() as u16 & 255 };
            }
            for x in c.prev.iter_mut() {
                *x = rng.next() as u16;
            }
            for x in c.if_entries.iter_mut() {
                *x = rng.next() as u8;
            }
            for x in c.if_desc.iter_mut() {
                *x = rng.next() as u32;
            }
            for k in c.keys.iter_mut() {
                *k = [rng.next() as u16, rng.next() as u16, rng.next() as u16];
            }
        }
    }
    r
}

pub fn random_skel(rng: &mut Rng) -> SkelSpec {
    let n = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 17]);
    let mut s = SkelSpec::simple(&random_parents(rng, n, true));
    s.names = some_names(rng, n);
    for r in s.rest.iter_mut() {
        for x in r.iter_mut() {
            *x = some_f32(rng);
        }
    }
    s
}

pub fn track_tag(ty: &str) -> &'static str {
    match ty {
        "float" => "ozz-float_track",
        "float2" => "ozz-float2_track",
        "float3" => "ozz-float3_track",
        "float4" => "ozz-float4_track",
        _ => "ozz-quat_track",
    }
}

pub fn random_track(rng: &mut Rng, ty: &str) -> TrackSpec {
    let dim = match ty {
        "float" => 1,
        "float2" => 2,
        "float3" => 3,
        _ => 4,
    };
    let n = *rng.pick(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17]);
    TrackSpec {
        tag: track_tag(ty),
        name: some_name(rng),
        ratios: (0..n).map(|_| some_f32(rng)).collect(),
        values: (0..n).map(|_| (0..dim).map(|_| some_f32(rng)).collect()).collect(),
        steps: (0..n).map(|_| rng.chance(1, 2)).collect(),
    }
}

fn random_archive(rng: &mut Rng, ty: &str, be: bool, tag: Option<&str>, version: Option<u32>) -> Vec<u8> {
    match ty {
        "animation" => random_raw(rng, false).archive_with(be, tag.unwrap_or("ozz-animation"), version.unwrap_or(7)),
        "skeleton" => random_skel(rng).archive_with(be, tag.unwrap_or("ozz-skeleton"), version.unwrap_or(2)),
        _ => random_track(rng, ty).archive_with(be, tag.unwrap_or(track_tag(ty)), version.unwrap_or(1)),
    }
}

/// The same animation written in both byte orders gives the same samples.
fn both_orders(rec: &mut Rec, rng: &mut Rng, r: RawAnim) {
    let cfg = json!({"bytes": [], "n": r.n});
    rec.begin("orders", &cfg);
    let mut it = Intern::new();
    let mut ev = vec![];
    let ratios: Vec<f32> = (0..6).map(|_| rng.range(0, 64) as f32 / 64.0).collect();
    for be in [false, true] {
        let res = guard(|| -> Result<Vec<usize>, OzzError> {
            let mut a = Archive::from_vec(r.archive(be))?;
            let an = Animation::from_archive(&mut a)?;
            let mut ctx = SamplingContext::from_animation(&an);
            let mut ids = vec![];
            for q in &ratios {
                let mut out = vec![SoaTransform::default(); an.num_soa_tracks()];
                sample_into(&an, &mut ctx, *q, &mut out).map_err(|_| OzzError::InvalidJob)??;
                ids.push(it.id(bytes_of(&out)));
            }
            Ok(ids)
        });
        ev.push(json!({"op": "sample", "be": be, "res": res_name(&res), "ids": res.unwrap_or(Ok(vec![])).unwrap_or_default()}));
    }
    rec.end("orders", &cfg, ev);
}

pub fn run_c12(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0x1212);
    if let Some(p) = &args.plan {
        for f in p["files"].as_array().unwrap() {
            let bytes: Vec<u8> = f["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let ty = f["as"].as_str().unwrap().to_string();
            one_file(rec, &mut rng, "plan", &ty, &bytes, 4000);
        }
    }
    let k = if args.thorough { 12 } else { 1 };
    for i in 0..28 * k {
        let ty = TYPES[i % 7];
        for be in [false, true] {
            let mut r2 = Rng::new(rng.next());
            let b = random_archive(&mut r2, ty, be, None, None);
            one_file(rec, &mut rng, "random", ty, &b, if i < 14 || args.thorough { 1500 } else { 90 });
        }
    }
    // long names: more bytes than 8, 12 or 16 bits count
    for i in 0..if args.thorough { 28 } else { 10 } {
        let be = rng.chance(1, 2);
        let ty = if i < 3 { ["animation", "skeleton", "quat"][i] } else { TYPES[i % 7] };
        let long = |n: usize| "abcdefghij日".chars().cycle().take(n).collect::<String>();
        let size = match i {
            0 => 60000,
            1 | 2 => 4200,
            _ => *rng.pick(&[255usize, 256, 260, 300, 700]),
        };
        let b = match ty {
            "animation" => {
                let mut r = random_raw(&mut rng, false);
                r.name = long(size);
                r.archive_with(be, "ozz-animation", 7)
            }
            "skeleton" => {
                let mut s = random_skel(&mut rng);
                while s.names.is_empty() {
                    s = random_skel(&mut rng);
                }
                let k = rng.below(s.names.len());
                s.names[k] = long(size);
                s.archive_with(be, "ozz-skeleton", 2)
            }
            _ => {
                let mut t = random_track(&mut rng, ty);
                t.name = long(size);
                t.archive_with(be, track_tag(ty), 1)
            }
        };
        one_file(rec, &mut rng, "long", ty, &b, if size > 1000 { 12 } else { 90 });
    }
    // other tags and versions
    for i in 0..70 * k {
        let ty = TYPES[i % 7];
        let be = rng.chance(1, 2);
        let own = match ty {
            "animation" => ("ozz-animation", 7),
            "skeleton" => ("ozz-skeleton", 2),
            _ => (track_tag(ty), 1u32),
        };
        let tag = match rng.below(5) {
            0 => Some((*rng.pick(&["ozz-animation", "ozz-skeleton", "ozz-float_track", "ozz-quat_track", "ozz-float3_track"])).to_string()),
            1 => Some(own.0[..own.0.len() - 1].to_string()),
            2 => Some(format!("{}2", own.0)),
            3 => Some((*rng.pick(&["", "ozz", "OZZ-ANIMATION", "ozz-raw_animation", "ozz-Skeleton"])).to_string()),
            _ => None,
        };
        let version = match rng.below(7) {
            0 => Some(0),
            1 => Some(own.1 + 1),
            2 => Some(own.1 - 1),
            3 => Some(own.1.swap_bytes()),
            4 => Some(own.1 | (1 << rng.range(8, 31))),
            5 => Some(*rng.pick(&[1u32, 2, 6, 7, 8, 255, 256, 0x0700, u32::MAX])),
            _ => None,
        };
        let b = random_archive(&mut rng, ty, be, tag.as_deref(), version);
        one_file(rec, &mut rng, "head", ty, &b, 0);
    }
    // several objects
    for _ in 0..12 * k {
        let be = rng.chance(1, 2);
        let mut bytes = vec![if be { 0 } else { 1 }];
        let mut types = vec![];
        for _ in 0..rng.range(2, 4) {
            let ty = *rng.pick(&TYPES);
            bytes.extend_from_slice(&random_archive(&mut rng, ty, be, None, None)[1..]);
            types.push(if rng.chance(1, 10) { *rng.pick(&TYPES) } else { ty });
        }
        types.push(*rng.pick(&TYPES)); // one past the end
        many(rec, &mut rng, "many", &bytes, &types);
    }
    for _ in 0..12 * k {
        let r = random_raw(&mut rng, true);
        both_orders(rec, &mut rng, r);
    }
    let r = crate::sampling::big_anim(&mut rng, 2).raw();
    both_orders(rec, &mut rng, r);
    // recorded files of the repository
    let real = real_animations();
    let take = if args.thorough { real.len() } else { 2 };
    for p in real.iter().take(take) {
        let b = std::fs::read(p).unwrap();
        one_file(rec, &mut rng, "real", "animation", &b, 300);
    }
    for p in ["playback/skeleton.ozz", "two_bone_ik/skeleton.ozz"] {
        let b = std::fs::read(format!("/repo/resource/{p}")).unwrap();
        one_file(rec, &mut rng, "real", "skeleton", &b, 1000);
    }
    for p in ["motion/motion.ozz", "motion_blend/motion1.ozz", "motion_blend/motion2.ozz"] {
        let b = std::fs::read(format!("/repo/resource/{p}")).unwrap();
        many(rec, &mut rng, "real", &b, &["float3", "quat", "float"]);
    }
}
