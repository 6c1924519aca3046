//! C01 (history independence) and C02 (bracketing keys) recorders.
use crate::build::*;
use crate::num::*;
use crate::rec::*;
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;

pub const VU: f64 = 256.0;
pub const RU: f64 = 4096.0;

pub fn quat_about(axis: usize, deg: f64) -> [f64; 4] {
    let h = deg.to_radians() / 2.0;
    let mut q = [0.0, 0.0, 0.0, h.cos()];
    q[axis] = h.sin();
    q
}

fn qmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
        a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}

/// Key values for given key times: distinct enough that a wrong key shows.
fn keys_for(rng: &mut Rng, chan: usize, times: &[i64]) -> Vec<Key> {
    let mut v = vec![];
    let mut q = quat_about(rng.below(3), rng.range(-170, 170) as f64);
    for t in times {
        let raw = match chan {
            0 => [
                f16_of(rng.range(-240, 240) as f32 / 4.0),
                f16_of(rng.range(-240, 240) as f32 / 4.0),
                f16_of(rng.range(-240, 240) as f32 / 4.0),
            ],
            1 => {
                // consecutive keys stay in the same hemisphere (the offline tool guarantees it)
                let step = quat_about(rng.below(3), rng.range(-100, 100) as f64);
                q = qmul(q, step);
                quat_encode(q)
            }
            _ => [
                f16_of(rng.range(1, 64) as f32 / 8.0),
                f16_of(rng.range(-64, 64) as f32 / 8.0),
                f16_of(rng.range(1, 64) as f32 / 8.0),
            ],
        };
        v.push(Key { time: *t, raw });
        if chan == 1 {
            // what was actually stored decides the hemisphere of the next one
            q = quat_decode(raw);
            if v.len() > 1 {
                let p = quat_decode(v[v.len() - 2].raw);
                let d = p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3];
                if d < 0.0 {
                    q = [-q[0], -q[1], -q[2], -q[3]];
                    let l = v.len() - 1;
                    v[l].raw = quat_encode(q);
                    q = quat_decode(v[l].raw);
                }
            }
        }
    }
    v
}

pub fn anim_of_times(rng: &mut Rng, td: i64, times: &[Vec<Vec<i64>>; 3], nif: [usize; 3]) -> AnimSpec {
    let n = times[0].len();
    let mut chans: [Chan; 3] = Default::default();
    for c in 0..3 {
        for t in 0..n {
            chans[c].tracks.push(keys_for(rng, c, &times[c][t]));
        }
        chans[c].nif = nif[c];
    }
    AnimSpec { n, td, duration: 1.0, name: String::new(), chans, filler: vec![] }
}

/// A random well-formed animation.
pub fn random_anim(rng: &mut Rng, n: usize, max_inner: usize) -> AnimSpec {
    let td = *rng.pick(&[4i64, 8, 16, 60, 64, 240, 512]);
    let mut times: [Vec<Vec<i64>>; 3] = Default::default();
    for c in 0..3 {
        let dense = rng.chance(1, 3);
        for _ in 0..n {
            let mut t = vec![0, td];
            let k = if dense { max_inner } else { rng.below(max_inner + 1) };
            if rng.chance(3, 4) {
                for _ in 0..k {
                    t.push(rng.range(1, td - 1));
                }
            }
            t.sort();
            t.dedup();
            times[c].push(t);
        }
    }
    let nif = [rng.below(5), rng.below(5), rng.below(5)];
    let mut a = anim_of_times(rng, td, &times, nif);
    for c in 0..3 {
        a.chans[c].wide = rng.chance(1, 4);
    }
    if td == 512 && rng.chance(1, 2) {
        a.filler = (0..=512).step_by(rng.range(1, 2) as usize).collect();
    }
    a.duration = rng.range(1, 40) as f32 / 4.0;
    a
}

/// Keys as close as 1/32768 of the clip.
pub fn fine_anim(rng: &mut Rng, n: usize) -> AnimSpec {
    let td = 32768;
    let hot: Vec<i64> = (0..3).map(|_| rng.range(20, td - 20)).collect();
    let mut times: [Vec<Vec<i64>>; 3] = Default::default();
    for c in 0..3 {
        for _ in 0..n {
            let mut t = vec![0, td];
            for h in &hot {
                for _ in 0..rng.below(4) {
                    t.push(h + rng.range(-3, 3));
                }
            }
            t.push(*rng.pick(&[1, td - 1, td / 2]));
            t.sort();
            t.dedup();
            times[c].push(t);
        }
    }
    let nif = [rng.below(3), rng.below(3), rng.below(40)];
    anim_of_times(rng, td, &times, nif)
}

fn plan_anim(rng: &mut Rng, p: &Value) -> AnimSpec {
    let td = p["td"].as_i64().unwrap();
    let tracks: Vec<Vec<i64>> = p["times"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| t.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect())
        .collect();
    let n = tracks.len();
    // every channel gets the same set of tracks, rotated
    let mut times: [Vec<Vec<i64>>; 3] = Default::default();
    for c in 0..3 {
        for t in 0..n {
            times[c].push(tracks[(t + c) % n].clone());
        }
    }
    let nif = p["nif"].as_u64().unwrap() as usize;
    anim_of_times(rng, td, &times, [nif; 3])
}

// ------------------------------------------------------------------------------------------ C02

fn keys_json(spec: &AnimSpec, picks: &[usize]) -> Value {
    let mut all = vec![];
    for c in 0..3 {
        let mut ch = vec![];
        for &t in picks {
            let ks: Vec<Value> = spec.chans[c].tracks[t]
                .iter()
                .map(|k| {
                    let mut row = vec![json!(k.time * 2)];
                    if c == 1 {
                        for x in quat_decode(k.raw) {
                            row.push(json!(qd(x, RU)));
                        }
                    } else {
                        for x in k.raw {
                            row.push(json!(qd(half_to_f64(x), VU)));
                        }
                    }
                    Value::Array(row)
                })
                .collect();
            ch.push(Value::Array(ks));
        }
        all.push(Value::Array(ch));
    }
    json!({"td": spec.td * 2, "n": picks.len(), "t": all[0], "r": all[1], "s": all[2]})
}

fn out_json(picks: &[usize], out: &[SoaTransform], unit: f64) -> Value {
    let mut v = vec![];
    let vu = VU / unit;
    for &j in picks {
        let s = &out[j / 4];
        let l = j % 4;
        let t = s.translation.vec3(l);
        let r = s.rotation.quat(l);
        let c = s.scale.vec3(l);
        v.push(json!([
            q(t.x, vu),
            q(t.y, vu),
            q(t.z, vu),
            q(r.x, RU),
            q(r.y, RU),
            q(r.z, RU),
            q(r.w, RU),
            q(c.x, vu),
            q(c.y, vu),
            q(c.z, vu)
        ]));
    }
    Value::Array(v)
}

pub fn sample_into(
    anim: &Animation,
    ctx: &mut SamplingContext,
    ratio: f32,
    out: &mut [SoaTransform],
) -> Result<Result<(), OzzError>, ()> {
    guard(|| {
        let mut job: SamplingJobRef = SamplingJob::default();
        job.set_animation(anim);
        job.set_context(ctx);
        job.set_ratio(ratio);
        job.set_output(out);
        job.run()
    })
}

const INF_R: i64 = 1_500_000_000;

fn ratio_of(r: i64, td2: i64) -> f32 {
    if r == NAN_Q {
        f32::NAN
    } else if r.abs() == INF_R {
        r.signum() as f32 * f32::INFINITY
    } else {
        (r as f64 / td2 as f64) as f32
    }
}

/// The values of the translation and scale keys are multiplied by 2^vexp.
fn record_c02(rec: &mut Rec, kind: &str, spec: &AnimSpec, walk: &[i64], cap: usize, long_lived: bool, vexp: i32) {
    record_c02_on(rec, kind, spec, &(0..spec.n).collect::<Vec<_>>(), walk, cap, long_lived, vexp)
}

/// Only the tracks in `picks` are recorded.
fn record_c02_on(rec: &mut Rec, kind: &str, spec: &AnimSpec, picks: &[usize], walk: &[i64], cap: usize, long_lived: bool, vexp: i32) {
    let cfg = keys_json(spec, picks);
    let mut scaled = spec.clone();
    for c in [0, 2] {
        for k in scaled.chans[c].tracks.iter_mut().flatten() {
            k.raw = k.raw.map(|h| if h & 0x7fff == 0 { h } else { (h as i32 + (vexp << 10)) as u16 });
        }
    }
    let spec = &scaled;
    let unit = 2f64.powi(vexp);
    rec.begin(kind, &json!({"spec": if spec.n * spec.td as usize > 50000 { format!("{} tracks, {:?}", spec.n, picks) } else { format!("{spec:?}") }, "walk": walk}));
    let anim = spec.animation();
    let soa = anim.num_soa_tracks();
    let mut out = vec![SoaTransform::IDENTITY; soa];
    let mut ev = vec![];
    let mut ctx = SamplingContext::new(cap);
    // one job object for the whole walk, or one per sample
    let mut job = SamplingJob::<&Animation, Vec<SoaTransform>, SamplingContext>::default();
    if long_lived {
        job.set_animation(&anim);
        job.set_context(SamplingContext::new(cap));
        job.set_output(out.clone());
    }
    for r in walk {
        let ratio = ratio_of(*r, spec.td * 2);
        let res;
        let o;
        if long_lived {
            job.set_ratio(ratio);
            let x = guard(|| job.run());
            res = res_name(&x);
            o = out_json(picks, job.output().unwrap(), unit);
        } else {
            let x = sample_into(&anim, &mut ctx, ratio, &mut out);
            res = res_name(&x);
            o = out_json(picks, &out, unit);
        }
        ev.push(json!({"op": "sample", "r": r, "res": res, "out": o}));
        if res == "panic" {
            break;
        }
    }
    rec.end(kind, &cfg, ev);
}

pub fn run_c02(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC02);
    if let Some(plan) = &args.plan {
        for sc in plan["scenarios"].as_array().unwrap() {
            let spec = plan_anim(&mut rng, &sc["anims"][0]);
            let walk: Vec<i64> = sc["walk"]
                .as_array()
                .unwrap()
                .iter()
                .filter(|s| s[0] != 0)
                .map(|s| s[1].as_i64().unwrap() * 2)
                .collect();
            record_c02(rec, "tour", &spec, &walk, spec.n, false, 0);
        }
    }
    let count = if args.thorough { 1200 } else { 130 };
    for i in 0..count {
        let n = match i % 8 {
            0..=4 => rng.range(1, 9) as usize,
            5 | 6 => rng.range(9, 40) as usize,
            _ => rng.range(33, 90) as usize,
        };
        let spec = random_anim(&mut rng, n, if n > 20 { 4 } else { 9 });
        let td2 = spec.td * 2;
        let steps = if n > 30 { 8 } else { 24 };
        let mut walk = vec![];
        let mut cur = 0i64;
        for _ in 0..steps {
            cur = match rng.below(8) {
                0 => rng.range(0, td2),
                1 => (cur - rng.range(0, td2 / 8 + 1)).max(-3),
                2 => 0,
                3 => td2,
                4 => *rng.pick(&[-1, -td2, td2 + 1, td2 * 5, NAN_Q, INF_R, -INF_R]),
                _ => (cur + rng.range(0, td2 / 8 + 1)).min(td2 + 3),
            };
            walk.push(cur);
            if cur.abs() >= INF_R {
                cur = td2;
            }
        }
        let cap = if rng.chance(1, 2) { n } else { n + rng.below(60) };
        let vexp = *rng.pick(&[0, 0, -8, -11, 5, 10]);
        record_c02(rec, "random", &spec, &walk, cap, i % 2 == 1, vexp);
    }
    for i in 0..if args.thorough { 60 } else { 10 } {
        let n = rng.range(1, 9) as usize;
        let spec = fine_anim(&mut rng, n);
        let times: Vec<i64> = spec.chans.iter().flat_map(|c| c.tracks.iter().flatten().map(|k| k.time * 2)).collect();
        let mut walk = vec![];
        for _ in 0..24 {
            walk.push((*rng.pick(&times) + rng.range(-3, 3)).clamp(0, spec.td * 2));
        }
        if i % 3 == 0 {
            walk.sort();
        }
        record_c02(rec, "fine", &spec, &walk, n, i % 2 == 1, 0);
    }
    for n in [127usize, 128, 257, 512, 1023, 1024] {
        let spec = random_anim(&mut rng, n, 2);
        let td2 = spec.td * 2;
        let walk = vec![td2 / 3, td2 / 2, rng.range(0, td2), td2 / 4];
        record_c02(rec, "large", &spec, &walk, n, true, 0);
    }
    // more keys in a channel than 16 bits can count
    for i in 0..if args.thorough { 6 } else { 2 } {
        let spec = big_anim(&mut rng, if i % 2 == 0 { 300 } else { 0 });
        let td2 = spec.td * 2;
        let mut picks: Vec<usize> = (0..spec.n).collect();
        rng.shuffle(&mut picks);
        picks.truncate(5);
        let walk = vec![[td2 * 5 / 8, td2 * 15 / 16][i / 2 % 2], td2, td2 / 2, rng.range(0, td2), td2 - 1, td2 * 3 / 4, 1];
        record_c02_on(rec, "big", &spec, &picks, &walk, spec.n, i % 2 == 1, 0);
    }
    real_c02(rec, args, &mut rng);
}

/// About 70000 keys per channel.
pub fn big_anim(rng: &mut Rng, nif: usize) -> AnimSpec {
    let (n, td) = (rng.range(146, 162) as usize, 1024i64);
    let mut times: [Vec<Vec<i64>>; 3] = Default::default();
    for c in 0..3 {
        for _ in 0..n {
            let mut t: Vec<i64> = (0..=td).filter(|_| rng.chance(1, 2)).collect();
            t.extend([0, td]);
            t.sort();
            t.dedup();
            times[c].push(t);
        }
    }
    anim_of_times(rng, td, &times, [nif; 3])
}

/// Recorded clips: some tracks of every resource animation, keys decoded independently from the
/// archive's own arrays, times quantised finely (interpolation is continuous, so is the relation).
fn real_c02(rec: &mut Rec, args: &Args, rng: &mut Rng) {
    const TU: f64 = 8192.0;
    for path in real_animations() {
        let Ok(anim) = Animation::from_path(&path) else { continue };
        let n = anim.num_tracks();
        let aligned = anim.num_aligned_tracks();
        let tp = anim.timepoints().to_vec();
        let chans = [anim.translations_ctrl(), anim.rotations_ctrl(), anim.scales_ctrl()];
        let t_raw: Vec<[u16; 3]> = unsafe { raw3(anim.translations()) };
        let r_raw: Vec<[u16; 3]> = unsafe { raw3(anim.rotations()) };
        let s_raw: Vec<[u16; 3]> = unsafe { raw3(anim.scales()) };
        let raws = [t_raw, r_raw, s_raw];
        // per track key chains
        let mut track_keys: Vec<Vec<Vec<usize>>> = vec![];
        for c in 0..3 {
            let mut owner = vec![usize::MAX; raws[c].len()];
            let mut tr = vec![vec![]; aligned];
            for k in 0..raws[c].len() {
                let t = if k < aligned { k } else { owner[k - chans[c].previouses[k] as usize] };
                owner[k] = t;
                tr[t].push(k);
            }
            track_keys.push(tr);
        }
        let rounds = if args.thorough { 12 } else { 2 };
        for _ in 0..rounds {
            let mut picks: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut picks);
            picks.truncate(3);
            // prefer animated tracks
            for c in 0..3 {
                if let Some(t) = (0..n).max_by_key(|t| (track_keys[c][*t].len() > 2) as usize * (1 + rng.below(1000))) {
                    picks.push(t);
                }
            }
            let mut cols = vec![];
            for c in 0..3 {
                let mut ch = vec![];
                for t in &picks {
                    let ks: Vec<Value> = track_keys[c][*t]
                        .iter()
                        .map(|k| {
                            let mut row = vec![json!(qd(tp[chans[c].ratios[*k] as usize] as f64, TU))];
                            if c == 1 {
                                for x in quat_decode(raws[c][*k]) {
                                    row.push(json!(qd(x, RU)));
                                }
                            } else {
                                for x in raws[c][*k] {
                                    row.push(json!(qd(half_to_f64(x), VU)));
                                }
                            }
                            Value::Array(row)
                        })
                        .collect();
                    ch.push(Value::Array(ks));
                }
                cols.push(Value::Array(ch));
            }
            let cfg = json!({"td": TU as i64, "n": picks.len(), "t": cols[0], "r": cols[1], "s": cols[2]});
            rec.begin("real", &json!({"path": path, "tracks": picks}));
            let mut ctx = SamplingContext::new(n);
            let mut out = vec![SoaTransform::IDENTITY; anim.num_soa_tracks()];
            let mut ev = vec![];
            let mut cur = 0i64;
            for _ in 0..20 {
                cur = match rng.below(4) {
                    0 => rng.range(0, TU as i64),
                    1 => (cur - rng.range(0, 600)).max(0),
                    _ => (cur + rng.range(0, 600)).min(TU as i64),
                };
                let res = sample_into(&anim, &mut ctx, cur as f32 / TU as f32, &mut out);
                let o = out_json(&picks, &out, 1.0);
                ev.push(json!({"op": "sample", "r": cur, "res": res_name(&res), "out": o}));
            }
            rec.end("real", &cfg, ev);
        }
    }
}

unsafe fn raw3<T>(s: &[T]) -> Vec<[u16; 3]> {
    assert_eq!(std::mem::size_of::<T>(), 6);
    std::slice::from_raw_parts(s.as_ptr() as *const [u16; 3], s.len()).to_vec()
}

pub fn real_animations() -> Vec<String> {
    let mut v = vec![];
    for d in std::fs::read_dir("/repo/resource").unwrap() {
        let p = d.unwrap().path();
        if p.is_dir() {
            for f in std::fs::read_dir(p).unwrap() {
                let f = f.unwrap().path().to_string_lossy().to_string();
                if f.contains("animation") && f.ends_with(".ozz") {
                    v.push(f);
                }
            }
        }
    }
    v.sort();
    v
}

// ------------------------------------------------------------------------------------------ C01

const TAIL: usize = 2;

fn sentinel() -> SoaTransform {
    let mut s = SoaTransform::IDENTITY;
    for l in 0..4 {
        s.translation.set_vec3(l, glam::Vec3::new(-7777.0, 5.5, l as f32));
    }
    s
}

struct Fresh {
    memo: HashMap<(usize, u32), Result<Vec<u8>, &'static str>>,
}

impl Fresh {
    /// What a brand-new context of exactly the needed size produces.
    fn get(&mut self, a: usize, anim: &Animation, ratio: f32) -> Result<Vec<u8>, &'static str> {
        self.memo
            .entry((a, ratio.to_bits()))
            .or_insert_with(|| {
                let mut ctx = SamplingContext::new(anim.num_tracks());
                let mut out = vec![sentinel(); anim.num_soa_tracks()];
                let r = sample_into(anim, &mut ctx, ratio, &mut out);
                match res_name(&r) {
                    "ok" => Ok(bytes_of(&out).to_vec()),
                    e => Err(e),
                }
            })
            .clone()
    }
}

struct Ctxs {
    ctxs: Vec<SamplingContext>,
}

fn ratio_key(r: f32) -> i64 {
    (r.clamp(0.0, 1.0) + 0.0).to_bits() as i64
}

/// ops: ("new",cap) ("from",anim) ("sample",ctx,anim,r) ("clear",ctx) ("clone",ctx) ("cloneid",ctx)
/// ("serde",ctx) ("rkyv",ctx)
#[derive(Debug, Clone)]
enum Op {
    New(usize),
    From(usize),
    Sample(usize, usize, f32),
    Clear(usize),
    Clone(usize),
    CloneNoId(usize),
    Serde(usize),
    Rkyv(usize),
}

fn rkyv_ctx(c: &SamplingContext) -> SamplingContext {
    use rkyv::ser::Serializer;
    use rkyv::Deserialize;
    let mut s = rkyv::ser::serializers::AllocSerializer::<4096>::default();
    s.serialize_value(c).unwrap();
    let buf = s.into_serializer().into_inner();
    let a = unsafe { rkyv::archived_root::<SamplingContext>(&buf) };
    a.deserialize(&mut rkyv::Infallible).unwrap()
}

fn serde_ctx(c: &SamplingContext) -> SamplingContext {
    serde_json::from_str(&serde_json::to_string(c).unwrap()).unwrap()
}

fn record_c01(rec: &mut Rec, kind: &str, specs: &[AnimSpec], ops: &[Op]) {
    rec.begin(kind, &json!({"specs": format!("{specs:?}"), "ops": format!("{ops:?}")}));
    let anims: Vec<Animation> = specs.iter().map(|s| s.animation()).collect();
    record_c01_on(rec, kind, &anims.iter().collect::<Vec<_>>(), ops);
}

fn record_c01_on(rec: &mut Rec, kind: &str, anims: &[&Animation], ops: &[Op]) {
    let soas: Vec<usize> = anims.iter().map(|a| a.num_soa_tracks()).collect();
    let cfg = json!({"soa": soas});
    let mut fresh = Fresh { memo: HashMap::new() };
    let mut intern = Intern::new();
    let sent = bytes_of(&[sentinel(); TAIL]).to_vec();
    let tail0 = intern.id(&sent);
    let mut st = Ctxs { ctxs: vec![] };
    let mut ev = vec![];
    for op in ops {
        let mut dead = false;
        let e = match op {
            Op::New(cap) => {
                let r = guard(|| SamplingContext::new(*cap));
                let ok = r.is_ok();
                let soa = r.as_ref().map(|c| c.max_soa_tracks()).unwrap_or(0);
                if let Ok(c) = r {
                    st.ctxs.push(c);
                }
                dead = !ok;
                json!({"op": "new", "cap": cap, "soa": soa, "res": if ok {"ok"} else {"panic"}})
            }
            Op::From(a) => {
                let r = guard(|| SamplingContext::from_animation(anims[*a]));
                let ok = r.is_ok();
                let soa = r.as_ref().map(|c| c.max_soa_tracks()).unwrap_or(0);
                if let Ok(c) = r {
                    st.ctxs.push(c);
                }
                dead = !ok;
                json!({"op": "new", "cap": anims[*a].num_tracks(), "soa": soa, "res": if ok {"ok"} else {"panic"}})
            }
            Op::Sample(c, a, r) => {
                let ratio = *r;
                let f = fresh.get(*a, anims[*a], ratio.clamp(0.0, 1.0));
                let soa = soas[*a];
                let mut out = vec![sentinel(); soa + TAIL];
                let res = sample_into(anims[*a], &mut st.ctxs[*c], ratio, &mut out);
                let name = res_name(&res);
                dead = name == "panic";
                json!({"op": "sample", "c": c + 1, "a": a + 1, "r": ratio_key(ratio), "res": name,
                    "d": intern.id(bytes_of(&out[..soa])),
                    "fresh": match f { Ok(b) => intern.id(&b) as i64, Err(_) => -1 },
                    "untouched": intern.id(bytes_of(&vec![sentinel(); soa])),
                    "tail": intern.id(bytes_of(&out[soa..])), "tail0": tail0})
            }
            Op::Clear(c) => {
                let r = guard(|| st.ctxs[*c].clear());
                dead = r.is_err();
                json!({"op": "clear", "c": c + 1, "res": if r.is_ok() {"ok"} else {"panic"}})
            }
            Op::Clone(c) | Op::CloneNoId(c) | Op::Serde(c) | Op::Rkyv(c) => {
                let src = &st.ctxs[*c];
                let r = guard(|| match op {
                    Op::Clone(_) => src.clone(),
                    Op::CloneNoId(_) => src.clone_without_animation_id(),
                    Op::Serde(_) => serde_ctx(src),
                    _ => rkyv_ctx(src),
                });
                dead = r.is_err();
                let how = match op {
                    Op::Clone(_) => "clone",
                    Op::CloneNoId(_) => "cloneid",
                    Op::Serde(_) => "serde",
                    _ => "rkyv",
                };
                let mut eq = false;
                let mut soa = 0;
                let ok = r.is_ok();
                if let Ok(n) = r {
                    eq = n == st.ctxs[*c] || matches!(op, Op::CloneNoId(_));
                    soa = n.max_soa_tracks();
                    st.ctxs.push(n);
                }
                json!({"op": "copy", "how": how, "c": c + 1, "eq": eq, "soa": soa, "res": if ok {"ok"} else {"panic"}})
            }
        };
        ev.push(e);
        if dead {
            // a context that panicked half-way is not used further
            break;
        }
    }
    rec.end(kind, &cfg, ev);
}

pub fn run_c01(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0xC01);
    if let Some(plan) = &args.plan {
        for sc in plan["scenarios"].as_array().unwrap() {
            let specs: Vec<AnimSpec> = sc["anims"].as_array().unwrap().iter().map(|a| plan_anim(&mut rng, a)).collect();
            let den = specs[0].td;
            let cap = specs.iter().map(|s| s.n).max().unwrap() + [0, 0, 5, 40][rng.below(4)];
            let mut ops = vec![Op::New(cap)];
            for s in sc["walk"].as_array().unwrap() {
                let a = s[0].as_u64().unwrap() as usize;
                if a == 0 {
                    ops.push(Op::Clear(0));
                } else {
                    ops.push(Op::Sample(0, a - 1, (s[1].as_i64().unwrap() as f64 / den as f64) as f32));
                }
            }
            record_c01(rec, "tour", &specs, &ops);
        }
    }
    let count = if args.thorough { 3000 } else { 250 };
    for i in 0..count {
        let na = rng.range(1, 4) as usize;
        let mut specs = vec![];
        for _ in 0..na {
            let n = match rng.below(8) {
                0..=4 => rng.range(1, 12) as usize,
                5 | 6 => rng.range(13, 45) as usize,
                _ => rng.range(33, 110) as usize,
            };
            specs.push(random_anim(&mut rng, n, if n > 20 { 4 } else { 10 }));
        }
        let maxn = specs.iter().map(|s| s.n).max().unwrap();
        // equal track counts in a quarter of the runs (switch without size change)
        if i % 12 == 5 {
            specs[0] = fine_anim(&mut rng, specs[0].n.min(9));
        }
        if i % 4 == 0 {
            let n = specs[0].n;
            specs = (0..na).map(|_| random_anim(&mut rng, n, 6)).collect();
        }
        let ops = random_ops(&mut rng, &specs.iter().map(|s| s.n).collect::<Vec<_>>(), maxn, 240, if args.thorough { 60 } else { 45 });
        record_c01(rec, "random", &specs, &ops);
    }
    // more keys than 16 bits count
    for i in 0..(if args.thorough { 4 } else { 1 }) {
        let specs = [big_anim(&mut rng, if i % 2 == 0 { 290 } else { 3 }), big_anim(&mut rng, 0)];
        let maxn = specs.iter().map(|s| s.n).max().unwrap();
        let ops = random_ops(&mut rng, &[specs[0].n, specs[1].n], maxn, 1024, 16);
        rec.begin("big", &json!({"ops": format!("{ops:?}")}));
        let anims = [specs[0].animation(), specs[1].animation()];
        record_c01_on(rec, "big", &[&anims[0], &anims[1]], &ops);
    }
    // recorded clips
    let anims: Vec<Animation> = real_animations().iter().filter_map(|p| Animation::from_path(p).ok()).collect();
    let rounds = if args.thorough { 60 } else { 8 };
    for _ in 0..rounds {
        let mut idx: Vec<usize> = (0..anims.len()).collect();
        rng.shuffle(&mut idx);
        idx.truncate(3);
        let sel: Vec<&Animation> = idx.iter().map(|i| &anims[*i]).collect();
        let sizes: Vec<usize> = sel.iter().map(|a| a.num_tracks()).collect();
        if sel.is_empty() {
            break;
        }
        let maxn = *sizes.iter().max().unwrap();
        let ops = random_ops(&mut rng, &sizes, maxn, 1000, 60);
        rec.begin("real", &json!({"anims": idx, "ops": format!("{ops:?}")}));
        record_c01_on(rec, "real", &sel, &ops);
    }
    let _ = Rc::new(0);
}

fn random_ops(rng: &mut Rng, sizes: &[usize], maxn: usize, den: i64, len: usize) -> Vec<Op> {
    let mut ops = vec![];
    let mut caps: Vec<usize> = vec![];
    let cap = match rng.below(4) {
        0 => maxn + rng.below(80),
        1 => rng.range(1, maxn as i64) as usize,
        _ => maxn,
    };
    ops.push(Op::New(cap));
    caps.push(cap);
    let mut cur = 0i64;
    for _ in 0..len {
        let c = rng.below(caps.len());
        match rng.below(20) {
            0 if caps.len() < 5 => {
                let cap = if rng.chance(1, 2) { maxn } else { maxn + rng.below(40) };
                ops.push(Op::New(cap));
                caps.push(cap);
            }
            1 if caps.len() < 5 => {
                let a = rng.below(sizes.len());
                ops.push(Op::From(a));
                caps.push(sizes[a]);
            }
            2 => ops.push(Op::Clear(c)),
            3 | 4 if caps.len() < 5 => {
                let cap = caps[c];
                ops.push(match rng.below(4) {
                    0 => Op::Clone(c),
                    1 => Op::CloneNoId(c),
                    2 => Op::Serde(c),
                    _ => Op::Rkyv(c),
                });
                caps.push(cap);
            }
            _ => {
                cur = match rng.below(7) {
                    0 => rng.range(0, den),
                    1 => 0,
                    2 => den,
                    3 => (cur - rng.range(1, den / 6)).max(-5),
                    4 => (cur - rng.range(1, den / 40 + 1)).max(-5),
                    _ => (cur + rng.range(1, den / 10)).min(den + 5),
                };
                // mostly stick to one animation per context, sometimes switch
                let a = if rng.chance(3, 4) { c % sizes.len() } else { rng.below(sizes.len()) };
                let at = (cur as f64 / den as f64) as f32;
                if rng.chance(1, 8) {
                    // creep over it in steps of one unit in the last place
                    let mut b = at.clamp(0.0, 1.0);
                    let back = rng.chance(1, 2);
                    let step = |x: f32| if back { x.next_up() } else { x.next_down() };
                    for _ in 0..2 {
                        b = step(b);
                    }
                    for _ in 0..5 {
                        ops.push(Op::Sample(c, a, b));
                        b = if back { b.next_down() } else { b.next_up() };
                    }
                } else {
                    ops.push(Op::Sample(c, a, at));
                }
            }
        }
    }
    ops
}
