//! Builders: what the offline tool (ozz's exporter) writes.  They produce .ozz archives in either
//! byte order, which are then loaded through the library's own public loader.
use crate::num::Rng;
use ozz_animation_rs::*;

#[derive(Clone)]
pub struct W {
    pub b: Vec<u8>,
    pub be: bool,
}

impl W {
    pub fn new(be: bool) -> W {
        // first byte: endianness of the file, 0 big, 1 little
        W { b: vec![if be { 0 } else { 1 }], be }
    }
    pub fn str(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
        self.b.push(0);
    }
    pub fn raw(&mut self, s: &[u8]) {
        self.b.extend_from_slice(s);
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x);
    }
    pub fn i16(&mut self, v: i16) {
        self.u16(v as u16)
    }
    pub fn u32(&mut self, v: u32) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x);
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits())
    }
}

// ---------------------------------------------------------------------------------- half floats

/// Exact half encoding of values that have one.
pub fn f16_of(v: f32) -> u16 {
    if v == 0.0 {
        return if v.is_sign_negative() { 0x8000 } else { 0 };
    }
    let n = v.to_bits();
    let sign = ((n >> 16) & 0x8000) as u16;
    let e = ((n >> 23) & 0xff) as i32 - 127 + 15;
    assert!(e > 0 && e < 31, "not a normal half: {v}");
    assert!(n & 0x1fff == 0, "not exactly a half: {v}");
    sign | ((e as u16) << 10) | ((n >> 13) & 0x3ff) as u16
}

/// Independent half decoding, in f64.
pub fn half_to_f64(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    if e == 31 {
        return if m == 0.0 { s * f64::INFINITY } else { f64::NAN };
    }
    if e == 0 {
        s * m * 2f64.powi(-24)
    } else {
        s * (1024.0 + m) * 2f64.powi(e - 25)
    }
}

// ---------------------------------------------------------------------------- packed quaternions

pub fn quat_pack(largest: u16, sign: u16, v: [u16; 3]) -> [u16; 3] {
    let (a, b, c) = (v[0] as u64, v[1] as u64, v[2] as u64);
    let all: u64 = (largest as u64 & 3) | ((sign as u64 & 1) << 2) | (a << 3) | (b << 18) | (c << 33);
    [(all & 0xffff) as u16, ((all >> 16) & 0xffff) as u16, ((all >> 32) & 0xffff) as u16]
}

pub fn quat_encode(q: [f64; 4]) -> [u16; 3] {
    let mut l = 0;
    for i in 1..4 {
        if q[i].abs() > q[l].abs() + 1e-12 {
            l = i;
        }
    }
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    let mut v = [0u16; 3];
    let mut k = 0;
    for i in 0..4 {
        if i != l {
            let c = q[i] / n;
            let x = ((c + std::f64::consts::SQRT_2 / 2.0) * (32767.0 / std::f64::consts::SQRT_2)).round();
            v[k] = x.clamp(0.0, 32767.0) as u16;
            k += 1;
        }
    }
    quat_pack(l as u16, (q[l] < 0.0) as u16, v)
}

/// Independent decoding, in f64.
pub fn quat_decode(k: [u16; 3]) -> [f64; 4] {
    let all = (k[0] as u64) | ((k[1] as u64) << 16) | ((k[2] as u64) << 32);
    let l = (all & 3) as usize;
    let sign = (all >> 2) & 1;
    let v = [(all >> 3) & 0x7fff, (all >> 18) & 0x7fff, (all >> 33) & 0x7fff];
    let mut out = [0f64; 4];
    let mut n = 0;
    let mut s2 = 0.0;
    for i in 0..4 {
        if i != l {
            out[i] = v[n] as f64 * std::f64::consts::SQRT_2 / 32767.0 - std::f64::consts::SQRT_2 / 2.0;
            s2 += out[i] * out[i];
            n += 1;
        }
    }
    let w = (1.0 - s2).max(0.0).sqrt();
    out[l] = if sign == 1 { -w } else { w };
    out
}

// ------------------------------------------------------------------------------------ animations

#[derive(Clone, Debug)]
pub struct Key {
    /// numerator of the key's time, over AnimSpec::td
    pub time: i64,
    pub raw: [u16; 3],
}

#[derive(Clone, Debug, Default)]
pub struct Chan {
    pub wide: bool,
    pub tracks: Vec<Vec<Key>>,
    /// number of seek frames
    pub nif: usize,
}

#[derive(Clone, Debug)]
pub struct AnimSpec {
    pub n: usize,
    pub td: i64,
    pub duration: f32,
    pub name: String,
    pub chans: [Chan; 3],
    /// extra (unused) time points, to force the wide time index
    pub filler: Vec<i64>,
}

#[derive(Clone, Debug, Default)]
pub struct RawChan {
    pub ratios: Vec<u16>,
    pub prev: Vec<u16>,
    pub if_entries: Vec<u8>,
    pub if_desc: Vec<u32>,
    pub interval: f32,
    pub keys: Vec<[u16; 3]>,
}

#[derive(Clone, Debug)]
pub struct RawAnim {
    pub n: u32,
    pub duration: f32,
    pub name: String,
    pub timepoints: Vec<f32>,
    pub chans: [RawChan; 3],
}

/// Group varints. `wide`: some values take more bytes than they need, which decoders accept.
fn gv4(out: &mut Vec<u8>, v: &[u32], wide: bool) {
    for c in v.chunks(4) {
        let mut prefix = 0u8;
        let mut body = vec![];
        for (i, x) in c.iter().enumerate() {
            let len = if *x < 1 << 8 {
                1
            } else if *x < 1 << 16 {
                2
            } else if *x < 1 << 24 {
                3
            } else {
                4
            };
            let len = if wide { 4.min(len + (*x as usize + i) % 4) } else { len };
            prefix |= (len as u8 - 1) << (2 * i);
            body.extend_from_slice(&x.to_le_bytes()[..len]);
        }
        out.push(prefix);
        out.extend_from_slice(&body);
    }
}

fn build_chan(c: &Chan, n: usize, td: i64, tps: &[i64], rest: [u16; 3]) -> RawChan {
    let aligned = (n + 3) / 4 * 4;
    let mut tracks = c.tracks.clone();
    while tracks.len() < aligned {
        tracks.push(vec![Key { time: 0, raw: rest }, Key { time: td, raw: rest }]);
    }
    // (needed-at time, track, ordinal)
    let mut order: Vec<(i64, usize, usize)> = vec![];
    for (t, ks) in tracks.iter().enumerate() {
        for o in 0..ks.len() {
            order.push((if o == 0 { -1 } else { ks[o - 1].time }, t, o));
        }
    }
    order.sort();
    let mut at = vec![vec![0usize; 0]; aligned];
    for (k, (_, t, o)) in order.iter().enumerate() {
        assert_eq!(at[*t].len(), *o);
        at[*t].push(k);
    }
    let mut r = RawChan { interval: 1.0, ..Default::default() };
    for (k, (_, t, o)) in order.iter().enumerate() {
        let key = &tracks[*t][*o];
        r.ratios.push(tps.binary_search(&key.time).unwrap() as u16);
        r.prev.push(if *o == 0 { 0 } else { (k - at[*t][*o - 1]) as u16 });
        r.keys.push(key.raw);
    }
    if c.nif > 0 {
        r.interval = 1.0 / c.nif as f32;
        for i in 1..=c.nif {
            let when = i as f64 * td as f64 / c.nif as f64;
            let last = order.iter().filter(|(need, _, _)| (*need as f64) <= when).count();
            let mut ent = vec![0u32; aligned];
            for (k, (_, t, _)) in order.iter().enumerate().take(last) {
                ent[*t] = k as u32;
            }
            r.if_desc.push(r.if_entries.len() as u32);
            r.if_desc.push(last as u32 - 1);
            gv4(&mut r.if_entries, &ent, c.wide);
        }
    }
    r
}

pub const ZERO3: [u16; 3] = [0, 0, 0];
pub const ONE3: [u16; 3] = [0x3C00, 0x3C00, 0x3C00];

impl AnimSpec {
    pub fn raw(&self) -> RawAnim {
        let mut tps: Vec<i64> = self.filler.clone();
        for c in &self.chans {
            for t in &c.tracks {
                for k in t {
                    tps.push(k.time);
                }
            }
        }
        tps.push(0);
        tps.push(self.td);
        tps.sort();
        tps.dedup();
        let qi = quat_encode([0.0, 0.0, 0.0, 1.0]);
        RawAnim {
            n: self.n as u32,
            duration: self.duration,
            name: self.name.clone(),
            timepoints: tps.iter().map(|t| *t as f32 / self.td as f32).collect(),
            chans: [
                build_chan(&self.chans[0], self.n, self.td, &tps, ZERO3),
                build_chan(&self.chans[1], self.n, self.td, &tps, qi),
                build_chan(&self.chans[2], self.n, self.td, &tps, ONE3),
            ],
        }
    }
    pub fn animation(&self) -> Animation {
        self.raw().animation()
    }
}

impl RawAnim {
    pub fn archive(&self, be: bool) -> Vec<u8> {
        self.archive_with(be, "ozz-animation", 7)
    }
    pub fn archive_with(&self, be: bool, tag: &str, version: u32) -> Vec<u8> {
        let mut w = W::new(be);
        w.str(tag);
        w.u32(version);
        w.f32(self.duration);
        w.u32(self.n);
        w.u32(self.name.len() as u32);
        w.u32(self.timepoints.len() as u32);
        w.u32(self.chans[0].keys.len() as u32);
        w.u32(self.chans[1].keys.len() as u32);
        w.u32(self.chans[2].keys.len() as u32);
        for c in &self.chans {
            w.u32(c.if_entries.len() as u32);
            w.u32(c.if_desc.len() as u32);
        }
        w.raw(self.name.as_bytes());
        for t in &self.timepoints {
            w.f32(*t);
        }
        let small = self.timepoints.len() <= 255;
        for c in &self.chans {
            for r in &c.ratios {
                if small {
                    w.u8(*r as u8)
                } else {
                    w.u16(*r)
                }
            }
            for p in &c.prev {
                w.u16(*p);
            }
            w.raw(&c.if_entries);
            for d in &c.if_desc {
                w.u32(*d);
            }
            w.f32(c.interval);
            for k in &c.keys {
                for x in k {
                    w.u16(*x);
                }
            }
        }
        w.b
    }
    pub fn animation(&self) -> Animation {
        let mut a = Archive::from_vec(self.archive(false)).unwrap();
        Animation::from_archive(&mut a).unwrap()
    }
}

pub fn load_animation(bytes: &[u8]) -> Result<Animation, OzzError> {
    let mut a = Archive::from_vec(bytes.to_vec())?;
    Animation::from_archive(&mut a)
}

// -------------------------------------------------------------------------------------- skeletons

#[derive(Clone, Debug)]
pub struct SkelSpec {
    pub parents: Vec<i16>,
    pub names: Vec<String>,
    /// per joint: translation 3, rotation 4, scale 3
    pub rest: Vec<[f32; 10]>,
}

impl SkelSpec {
    pub fn simple(parents: &[i16]) -> SkelSpec {
        SkelSpec {
            parents: parents.to_vec(),
            names: (0..parents.len()).map(|i| format!("j{i}")).collect(),
            rest: vec![[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0]; parents.len()],
        }
    }
    pub fn archive(&self, be: bool) -> Vec<u8> {
        self.archive_with(be, "ozz-skeleton", 2)
    }
    pub fn archive_with(&self, be: bool, tag: &str, version: u32) -> Vec<u8> {
        let mut w = W::new(be);
        w.str(tag);
        w.u32(version);
        let n = self.parents.len();
        w.u32(n as u32);
        if n == 0 {
            return w.b;
        }
        w.u32(self.names.iter().map(|s| s.len() as u32 + 1).sum());
        for s in &self.names {
            w.str(s);
        }
        for p in &self.parents {
            w.i16(*p);
        }
        for soa in 0..(n + 3) / 4 {
            for comp in 0..10 {
                for lane in 0..4 {
                    let j = soa * 4 + lane;
                    let v = if j < n {
                        self.rest[j][comp]
                    } else if comp >= 6 {
                        1.0
                    } else {
                        0.0
                    };
                    w.f32(v);
                }
            }
        }
        w.b
    }
    pub fn skeleton(&self) -> Skeleton {
        let mut a = Archive::from_vec(self.archive(false)).unwrap();
        Skeleton::from_archive(&mut a).unwrap()
    }
}

/// A random forest in depth-first order.
pub fn random_parents(rng: &mut Rng, n: usize, roots: bool) -> Vec<i16> {
    let mut p: Vec<i16> = vec![];
    for i in 0..n {
        if i == 0 {
            p.push(-1);
            continue;
        }
        // candidates: the previous joint and its ancestors (depth-first order), or a new root
        let mut cand = vec![];
        let mut j = i as i16 - 1;
        while j >= 0 {
            cand.push(j);
            j = p[j as usize];
        }
        if roots && rng.chance(1, 6) {
            p.push(-1);
        } else if rng.chance(1, 2) {
            p.push(cand[0]);
        } else {
            p.push(*rng.pick(&cand));
        }
    }
    p
}

// ----------------------------------------------------------------------------------------- tracks

#[derive(Clone, Debug)]
pub struct TrackSpec {
    pub tag: &'static str,
    pub name: String,
    pub ratios: Vec<f32>,
    /// flattened values
    pub values: Vec<Vec<f32>>,
    pub steps: Vec<bool>,
}

impl TrackSpec {
    pub fn archive(&self, be: bool) -> Vec<u8> {
        self.archive_with(be, self.tag, 1)
    }
    pub fn archive_with(&self, be: bool, tag: &str, version: u32) -> Vec<u8> {
        let mut w = W::new(be);
        w.str(tag);
        w.u32(version);
        w.u32(self.ratios.len() as u32);
        w.u32(self.name.len() as u32);
        for r in &self.ratios {
            w.f32(*r);
        }
        for v in &self.values {
            for x in v {
                w.f32(*x);
            }
        }
        for c in self.steps.chunks(8) {
            let mut b = 0u8;
            for (i, s) in c.iter().enumerate() {
                if *s {
                    b |= 1 << i;
                }
            }
            w.u8(b);
        }
        w.raw(self.name.as_bytes());
        w.b
    }
    pub fn load<V: track::TrackValue>(&self) -> Track<V> {
        let mut a = Archive::from_vec(self.archive(false)).unwrap();
        Track::from_archive(&mut a).unwrap()
    }
}
