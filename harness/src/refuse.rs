//! C24: serialized objects that were changed: what is accepted, and what is made of it.
use crate::build::*;
use crate::num::*;
use crate::persist::{finite_track, ByRef};
use crate::rec::*;
use crate::sampling::{random_anim, sample_into};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::math::{SoaQuat, SoaVec3};
use ozz_animation_rs::*;
use rkyv::Deserialize as _;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::mem::{align_of, size_of};
use std::ptr::addr_of;

type Change = (String, String, String);

fn names(kind: &str) -> &'static [&'static str] {
    match kind {
        "context" => &[
            "translations", "rotations", "scales", "translation_entries", "rotation_entries", "scale_entries",
            "translation_outdated", "rotation_outdated", "scale_outdated",
        ],
        "skeleton" => &["joint_parents", "joint_rest_poses"],
        "animation" => &[
            "translations", "t_ratios", "t_previouses", "rotations", "r_ratios", "r_previouses", "scales", "s_ratios", "s_previouses",
        ],
        _ => &["ratios", "values", "steps"],
    }
}

fn shape(kind: &str, n: usize) -> Vec<usize> {
    match kind {
        "context" => {
            let s = n.div_ceil(4);
            [s, s * 4, s.div_ceil(8)].iter().flat_map(|x| [*x; 3]).collect()
        }
        "skeleton" => vec![n, n.div_ceil(4)],
        "animation" => vec![n; 9],
        _ => vec![n, n, n.div_ceil(8)],
    }
}

fn by(x: usize, b: &str, big: usize) -> usize {
    match b {
        "1" => x + 1,
        "8" => x + 8,
        "4" => x + 4,
        "-1" => x.saturating_sub(1),
        "-4" => x.saturating_sub(4),
        "0" => 0,
        _ => big,
    }
}

fn count_of(kind: &str) -> Option<&'static str> {
    match kind {
        "context" => Some("max_tracks"),
        "track" => Some("key_count"),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------- text

fn resize(v: &mut Value, whole: &Value, name: &str, len: usize) {
    let fill = whole[name][0].clone();
    v[name].as_array_mut().unwrap().resize(len, fill);
}

/// Without the count (rounded up to whole SIMD tracks) and what follows from it.
fn said(mut v: Value) -> Value {
    if let Some(m) = v.as_object_mut() {
        m.retain(|k, _| !matches!(k.as_str(), "size" | "max_tracks" | "max_soa_tracks" | "max_outdated"));
    }
    v
}

fn read_back<T: Serialize + DeserializeOwned>(v: &Value, via: &str) -> (&'static str, bool) {
    let r = guard(|| -> Result<T, String> {
        match via {
            "value" => serde_json::from_value(v.clone()).map_err(|e| e.to_string()),
            "text" => serde_json::from_str(&v.to_string()).map_err(|e| e.to_string()),
            _ => {
                let mut b = vec![];
                ciborium::into_writer(v, &mut b).unwrap();
                ciborium::from_reader(&b[..]).map_err(|e| e.to_string())
            }
        }
    });
    match r {
        Err(()) => ("panic", false),
        Ok(Err(_)) => ("err", false),
        Ok(Ok(x)) => ("ok", guard(|| said(serde_json::to_value(&x).unwrap()) == said(v.clone())).unwrap_or(false)),
    }
}

/// A value with one of its parts gone or something else, in all ways.
fn inner(v: &Value, bad: &mut Vec<Value>) {
    bad.extend([Value::Null, json!("z"), json!({}), json!([])]);
    match v {
        Value::Object(m) => {
            for k in m.keys() {
                let mut x = m.clone();
                x.remove(k);
                bad.push(Value::Object(x));
                let mut parts = vec![];
                inner(&m[k], &mut parts);
                bad.extend(parts.into_iter().map(|p| {
                    let mut x = m.clone();
                    x[k] = p;
                    Value::Object(x)
                }));
            }
        }
        Value::Array(a) => {
            bad.push(json!(a[1..]));
            for k in 0..a.len() {
                let mut parts = vec![];
                inner(&a[k], &mut parts);
                bad.extend(parts.into_iter().map(|p| {
                    let mut x = a.clone();
                    x[k] = p;
                    Value::Array(x)
                }));
            }
        }
        _ => {}
    }
}

/// All the changes of the plan, and more of them at once, on one object in text.
fn texts<T: Serialize + DeserializeOwned>(rec: &mut Rec, rng: &mut Rng, kind: &str, ty: &str, whole: &T, plan: &[Vec<Change>]) {
    let whole = serde_json::to_value(whole).unwrap();
    let cfg = json!({"kind": kind, "type": ty});
    rec.begin("text", &cfg);
    let mut ev = vec![];
    let mut none = vec![vec![]];
    none.extend_from_slice(plan);
    for changes in &none {
        let mut v = whole.clone();
        for (what, name, b) in changes {
            match what.as_str() {
                "len" => {
                    let len = by(v[name].as_array().unwrap().len(), b, 0);
                    resize(&mut v, &whole, name, len);
                }
                "count" => {
                    let c = count_of(kind).unwrap();
                    v[c] = json!(by(v[c].as_u64().unwrap() as usize, b, *rng.pick(&[100_000, 65_536 + 8, u32::MAX as usize])));
                }
                _ => {
                    let n = count_of(kind).map_or_else(|| v[names(kind)[0]].as_array().unwrap().len(), |c| v[c].as_u64().unwrap() as usize);
                    // a document that said far too much is cut down to what memory holds
                    let n = by(n.min(200), b, 0);
                    for (name, len) in names(kind).iter().zip(shape(kind, n)) {
                        resize(&mut v, &whole, name, len);
                    }
                    if let Some(c) = count_of(kind) {
                        v[c] = json!(n);
                    }
                }
            }
        }
        let via = *rng.pick(&["value", "text", "cbor"]);
        let (res, same) = read_back::<T>(&v, via);
        let lens: Vec<usize> = names(kind).iter().map(|x| v[x].as_array().unwrap().len()).collect();
        let count = count_of(kind).map_or(0, |c| v[c].as_u64().unwrap().min(1 << 30));
        ev.push(json!({"op": "text", "kind": kind, "via": via, "count": count, "lens": lens, "res": res, "same": same}));
    }
    // parts that are missing or something else
    let derived = ["size", "max_soa_tracks", "max_outdated"];
    let keys: Vec<String> = whole.as_object().unwrap().keys().filter(|k| !derived.contains(&k.as_str())).cloned().collect();
    for k in keys {
        for what in ["gone", "null", "text", "deep"] {
            let mut v = whole.clone();
            match what {
                "gone" => drop(v.as_object_mut().unwrap().remove(&k)),
                "null" => v[&k] = Value::Null,
                "text" => v[&k] = json!({"x": "y"}),
                _ => v[&k] = json!([[[], {}], "z"]),
            }
            let via = *rng.pick(&["value", "text", "cbor"]);
            let (res, _) = read_back::<T>(&v, via);
            ev.push(json!({"op": "part", "kind": kind, "via": via, "what": what, "part": k, "res": res}));
        }
    }
    // and parts of their elements
    for (k, e) in whole.as_object().unwrap().iter().filter(|(k, _)| !derived.contains(&k.as_str())) {
        let Some(first) = e.as_array().and_then(|a| a.first()) else { continue };
        let mut bad = vec![];
        inner(first, &mut bad);
        for x in bad {
            let mut v = whole.clone();
            let at = rng.below(e.as_array().unwrap().len());
            v[k][at] = x;
            let via = *rng.pick(&["value", "text", "cbor"]);
            let (res, _) = read_back::<T>(&v, via);
            ev.push(json!({"op": "part", "kind": kind, "via": via, "what": "inner", "part": k, "res": res}));
        }
    }
    for v in [json!(null), json!([]), json!({}), json!(7), json!("x"), json!([[1], {"ratios": []}])] {
        let (res, _) = read_back::<T>(&v, "text");
        ev.push(json!({"op": "part", "kind": kind, "via": "text", "what": "other", "part": "", "res": res}));
    }
    rec.end("text", &cfg, ev);
}

// --------------------------------------------------------------------------------------- bytes

/// Where the numbers of an archived context are: for each array the place of its pointer and of its length.
struct Map {
    root: usize,
    count: usize,
    arrs: Vec<(usize, usize, usize, usize)>,
}

fn map_of(b: &[u8]) -> Map {
    let a = unsafe { rkyv::archived_root::<SamplingContext>(b) };
    let base = b.as_ptr() as usize;
    let mut arrs = vec![];
    let mut add = |field: usize, data: usize, len: usize, size: usize, align: usize| {
        let w = |o: usize| i32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as i64;
        let o = field - base;
        let (p, l) = if w(o + 4) == len as i64 && field as i64 + w(o) == data as i64 { (o, o + 4) } else { (o + 4, o) };
        assert!(w(l) == len as i64 && (base + p) as i64 + w(p) == data as i64, "unknown layout of a vector");
        arrs.push((p, l, size, align));
    };
    macro_rules! add {
        ($($f:ident: $t:ty),*) => {$(
            add(addr_of!(a.$f) as usize, a.$f.as_ptr() as usize, a.$f.len(), size_of::<$t>(), align_of::<$t>());
        )*};
    }
    add!(
        translations: sampling_job::InterpSoaFloat3, rotations: sampling_job::InterpSoaQuaternion, scales: sampling_job::InterpSoaFloat3,
        translation_entries: u32, rotation_entries: u32, scale_entries: u32,
        translation_outdated: u8, rotation_outdated: u8, scale_outdated: u8
    );
    Map { root: a as *const _ as usize - base, count: addr_of!(a.max_tracks) as usize - base, arrs }
}

fn word(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

fn set(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}

const FAR: i64 = 1 << 30;

/// What is made of these bytes.
fn judge(b: &[u8], m: &Map, whole: bool) -> Value {
    let place = |k: usize| m.arrs[k].0 as i64 + word(b, m.arrs[k].0) as i32 as i64;
    let arrs: Vec<(i64, i64, usize, usize)> =
        m.arrs.iter().enumerate().map(|(k, a)| (place(k), word(b, a.1) as i64, a.2, a.3)).collect();
    let inside = arrs.iter().all(|a| a.0 >= 0 && a.0 + a.1 * a.2 as i64 <= m.root as i64 && a.0 % a.3 as i64 == 0);
    let (mut res, mut same) = match guard(|| rkyv::check_archived_root::<SamplingContext>(b).is_ok()) {
        Err(()) => ("panic", false),
        Ok(false) => ("err", false),
        Ok(true) => ("ok", false),
    };
    if res == "ok" && inside {
        let part = |k: usize| &b[arrs[k].0 as usize..][..arrs[k].1 as usize * arrs[k].2];
        match guard(|| -> SamplingContext { unsafe { rkyv::archived_root::<SamplingContext>(b) }.deserialize(&mut rkyv::Infallible).unwrap() }) {
            Err(()) => res = "panic",
            Ok(c) => {
                let got: [&[u8]; 9] = [
                    bytes_of(c.translations()), bytes_of(c.rotations()), bytes_of(c.scales()),
                    bytes_of(c.translation_entries()), bytes_of(c.rotation_entries()), bytes_of(c.scale_entries()),
                    c.translation_outdated(), c.rotation_outdated(), c.scale_outdated(),
                ];
                same = (0..9).all(|k| got[k] == part(k));
            }
        }
    }
    let arrs: Vec<Value> = arrs.iter().map(|a| json!([a.0.clamp(-FAR, FAR), a.1.min(FAR), a.2, a.3])).collect();
    json!({"op": "bytes", "root": m.root, "count": word(b, m.count).min(FAR as u32), "arrs": arrs, "whole": whole, "res": res, "same": same})
}

fn bytes(rec: &mut Rec, rng: &mut Rng, ctx: &SamplingContext, plan: &[Vec<Change>], wild: usize) {
    let pristine = rkyv::to_bytes::<_, 1024>(ctx).unwrap();
    let m = map_of(&pristine);
    let cfg = json!({"tracks": ctx.max_tracks()});
    rec.begin("bytes", &cfg);
    let mut ev = vec![judge(&pristine, &m, true)];
    let mut b = pristine.clone();
    for changes in plan {
        b.copy_from_slice(&pristine);
        for (what, name, x) in changes {
            let k = names("context").iter().position(|n| n == name).unwrap_or(0);
            let (p, l, size, align) = m.arrs[k];
            let place = p as i64 + word(&b, p) as i32 as i64;
            match what.as_str() {
                "len" => {
                    let room = ((m.root as i64 - place).max(0) as usize / size).min(1 << 28);
                    let big = *rng.pick(&[u32::MAX as usize, 1 << 28, room + 1, (1usize << 32) / size + 1]);
                    let v = by(word(&b, l) as usize, x, big.min(u32::MAX as usize));
                    set(&mut b, l, v as u32);
                }
                "count" => {
                    let v = by(word(&b, m.count) as usize, x, *rng.pick(&[u32::MAX as usize, 1 << 20, 100_000]));
                    set(&mut b, m.count, v as u32);
                }
                "at" => {
                    let next = m.arrs[(k + 1) % 9].0;
                    let to = match x.as_str() {
                        "zero" => 0,
                        "minus" => -(align as i64),
                        "next" => next as i64 + word(&b, next) as i32 as i64,
                        "end" => m.root as i64,
                        "past" => m.root as i64 + 16,
                        "odd" => place + 1,
                        _ => place - align as i64,
                    };
                    set(&mut b, p, (to - p as i64) as i32 as u32);
                }
                _ => {
                    let n = by(word(&b, m.count) as usize, x, 0);
                    set(&mut b, m.count, n as u32);
                    for (k, len) in shape("context", n).into_iter().enumerate() {
                        set(&mut b, m.arrs[k].1, len as u32);
                    }
                }
            }
        }
        ev.push(judge(&b, &m, b[..] == pristine[..]));
    }
    // any bits of the root at all
    for _ in 0..wild {
        b.copy_from_slice(&pristine);
        for _ in 0..rng.range(1, 3) {
            let o = if rng.chance(1, 8) { m.count } else { let a = *rng.pick(&m.arrs); if rng.chance(1, 2) { a.0 } else { a.1 } };
            let v = match rng.below(3) {
                0 => word(&b, o) ^ (1 << rng.below(32)),
                1 => rng.below(1 << 31) as u32 * 2 + 1,
                _ => word(&b, o).wrapping_add(rng.range(-64, 64) as u32),
            };
            set(&mut b, o, v);
        }
        ev.push(judge(&b, &m, b[..] == pristine[..]));
    }
    rec.end("bytes", &cfg, ev);
}

/// At other addresses, and cut short at the front.
fn places(rec: &mut Rec, rng: &mut Rng, ctx: &SamplingContext) {
    let whole = rkyv::to_bytes::<_, 1024>(ctx).unwrap();
    let cfg = json!({"tracks": ctx.max_tracks()});
    rec.begin("places", &cfg);
    let mut ev = vec![];
    let t = SoaTransform::IDENTITY;
    let f3 = sampling_job::InterpSoaFloat3::default();
    let q = sampling_job::InterpSoaQuaternion::default();
    let list: [(&str, &[u8], fn(&[u8]) -> bool); 6] = [
        ("context", &whole, |b| rkyv::check_archived_root::<SamplingContext>(b).is_ok()),
        ("soatransform", &rkyv::to_bytes::<_, 256>(&t).unwrap(), |b| rkyv::check_archived_root::<SoaTransform>(b).is_ok()),
        ("soavec3", &rkyv::to_bytes::<_, 256>(&t.scale).unwrap(), |b| rkyv::check_archived_root::<SoaVec3>(b).is_ok()),
        ("soaquat", &rkyv::to_bytes::<_, 256>(&t.rotation).unwrap(), |b| rkyv::check_archived_root::<SoaQuat>(b).is_ok()),
        ("interpsoafloat3", &rkyv::to_bytes::<_, 256>(&f3).unwrap(), |b| rkyv::check_archived_root::<sampling_job::InterpSoaFloat3>(b).is_ok()),
        ("interpsoaquaternion", &rkyv::to_bytes::<_, 256>(&q).unwrap(), |b| {
            rkyv::check_archived_root::<sampling_job::InterpSoaQuaternion>(b).is_ok()
        }),
    ];
    let res = |r: Result<bool, ()>| match r {
        Err(()) => "panic",
        Ok(true) => "ok",
        Ok(false) => "err",
    };
    for (ty, b, check) in list {
        let mut room = rkyv::AlignedVec::with_capacity(b.len() + 64);
        for by in 0..33usize {
            room.clear();
            room.extend_from_slice(&vec![0xAA; by]);
            room.extend_from_slice(b);
            ev.push(json!({"op": "shift", "type": ty, "by": by, "res": res(guard(|| check(&room[by..])))}));
        }
        let mut cuts: Vec<usize> = (0..8).map(|k| (k + 1) * 16).collect();
        cuts.extend((0..8).map(|_| 1 + rng.below(b.len())));
        cuts.extend([b.len() - 1, b.len()]);
        for by in cuts.into_iter().filter(|x| *x <= b.len()) {
            room.clear();
            room.extend_from_slice(&b[by..]);
            ev.push(json!({"op": "cut", "type": ty, "by": by, "res": res(guard(|| check(&room[..])))}));
        }
    }
    // inside of something else
    let n = rkyv::to_bytes::<_, 1024>(&(vec![1u8, 2, 3], ByRef(ctx), 7u8)).unwrap();
    let v = rkyv::to_bytes::<_, 1024>(&vec![ByRef(ctx), ByRef(ctx), ByRef(ctx)]).unwrap();
    for (ty, r) in [
        ("tuple", guard(|| rkyv::check_archived_root::<(Vec<u8>, ByRef<SamplingContext>, u8)>(&n).is_ok())),
        ("vector", guard(|| rkyv::check_archived_root::<Vec<ByRef<SamplingContext>>>(&v).is_ok())),
    ] {
        ev.push(json!({"op": "shift", "type": ty, "by": 0, "res": res(r)}));
    }
    rec.end("places", &cfg, ev);
}

fn some_context(rng: &mut Rng, n: usize) -> SamplingContext {
    let a = random_anim(rng, n, 2).animation();
    let mut c = SamplingContext::new(n);
    let mut out = vec![SoaTransform::default(); a.num_soa_tracks()];
    for _ in 0..3 {
        let _ = sample_into(&a, &mut c, rng.below(9) as f32 / 8.0, &mut out);
    }
    c
}

pub fn run_c24(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0x2424);
    let empty = vec![];
    let plan = args.plan.as_ref().and_then(|p| p["docs"].as_array()).unwrap_or(&empty);
    let of = |form: &str, kind: &str| -> Vec<Vec<Change>> {
        plan.iter().filter(|d| d[0] == form && d[1] == kind).map(|d| serde_json::from_value(d[2].clone()).unwrap()).collect()
    };
    let sizes: &[usize] = if args.thorough { &[1, 3, 4, 5, 8, 31, 33, 64, 130] } else { &[5, 37] };
    for &n in sizes {
        let c = some_context(&mut rng, n);
        texts(rec, &mut rng, "context", "context", &c, &of("text", "context"));
        bytes(rec, &mut rng, &c, &of("bytes", "context"), if args.thorough { 3000 } else { 400 });
        places(rec, &mut rng, &c);
        let mut s = SkelSpec::simple(&random_parents(&mut rng, n, true));
        for r in s.rest.iter_mut() {
            r[0] = rng.unit() as f32;
        }
        let s = s.skeleton();
        texts(rec, &mut rng, "skeleton", "skeleton", &s, &of("text", "skeleton"));
        let a = random_anim(&mut rng, n, 3).animation();
        texts(rec, &mut rng, "animation", "animation", &a, &of("text", "animation"));
        let p = of("text", "track");
        macro_rules! track {
            ($($ty:literal: $t:ty),*) => {$({
                let mut t = finite_track(&mut rng, $ty);
                while t.ratios.is_empty() {
                    t = finite_track(&mut rng, $ty);
                }
                texts(rec, &mut rng, "track", $ty, &t.load::<$t>(), &p);
            })*};
        }
        track!("float": f32, "float2": Vec2, "float3": Vec3, "float4": Vec4, "quat": Quat);
    }
}
