//! C22: the typed cursor of an archive.
use crate::archive::Odd;
use crate::num::Rng;
use crate::rec::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;
use serde_json::{json, Value};
use std::io::{ErrorKind, Read};

/// Most significant byte first groups.
trait Bytes {
    fn groups(&self) -> Vec<Vec<u8>>;
}
macro_rules! prim {
    ($($t:ty),*) => { $(impl Bytes for $t { fn groups(&self) -> Vec<Vec<u8>> { vec![self.to_be_bytes().to_vec()] } })* };
}
prim!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
impl Bytes for bool {
    fn groups(&self) -> Vec<Vec<u8>> {
        // what is in memory, a valid bool or not
        vec![vec![unsafe { *(self as *const bool as *const u8) }]]
    }
}
macro_rules! floats {
    ($($t:ty),*) => { $(impl Bytes for $t { fn groups(&self) -> Vec<Vec<u8>> { self.to_array().iter().map(|x| x.to_be_bytes().to_vec()).collect() } })* };
}
floats!(Vec2, Vec3, Vec4, Quat);
impl Bytes for String {
    fn groups(&self) -> Vec<Vec<u8>> {
        vec![self.as_bytes().to_vec()]
    }
}

fn typed<R: Read, T: ArchiveRead<T> + Bytes + Default + Clone>(a: &mut Archive<R>, how: &str, n: usize) -> Result<Vec<Vec<u8>>, OzzError> {
    Ok(match how {
        "one" => a.read::<T>()?.groups(),
        "direct" => T::read(a)?.groups(),
        "vec" => {
            let v = a.read_vec::<T>(n)?;
            v.iter().flat_map(|x| x.groups()).collect()
        }
        _ => {
            let mut v = vec![T::default(); n];
            a.read_slice::<T>(&mut v)?;
            v.iter().flat_map(|x| x.groups()).collect()
        }
    })
}

fn read<R: Read>(a: &mut Archive<R>, t: &str, how: &str, n: usize) -> Result<Vec<Vec<u8>>, OzzError> {
    match t {
        "bool" => typed::<R, bool>(a, how, n),
        "u8" => typed::<R, u8>(a, how, n),
        "i8" => typed::<R, i8>(a, how, n),
        "u16" => typed::<R, u16>(a, how, n),
        "i16" => typed::<R, i16>(a, how, n),
        "u32" => typed::<R, u32>(a, how, n),
        "i32" => typed::<R, i32>(a, how, n),
        "u64" => typed::<R, u64>(a, how, n),
        "i64" => typed::<R, i64>(a, how, n),
        "f32" => typed::<R, f32>(a, how, n),
        "f64" => typed::<R, f64>(a, how, n),
        "vec2" => typed::<R, Vec2>(a, how, n),
        "vec3" => typed::<R, Vec3>(a, how, n),
        "vec4" => typed::<R, Vec4>(a, how, n),
        "quat" => typed::<R, Quat>(a, how, n),
        "string" => typed::<R, String>(a, how, n),
        "tag" => Ok(a.read_tag()?.groups()),
        "version" => Ok(a.read_version()?.groups()),
        "tagver" => {
            let (t, v) = a.read_tag_version()?;
            let mut g = t.groups();
            g.extend(v.groups());
            Ok(g)
        }
        t => panic!("type {t}"),
    }
}

const TYPES: [&str; 19] = [
    "bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "vec2", "vec3", "vec4", "quat", "string", "tag", "version", "tagver",
];
const VIAS: [&str; 6] = ["slice", "vec", "reader", "odd", "file", "path"];

#[derive(Clone)]
struct Op {
    t: String,
    how: &'static str,
    n: usize,
}

fn run<R: Read>(a: Result<Archive<R>, OzzError>, ops: &[Op]) -> (Value, Vec<Value>) {
    let err = |e: &OzzError| match e {
        OzzError::IO(ErrorKind::UnexpectedEof) => ("end", 0),
        OzzError::IO(ErrorKind::ConnectionReset) => ("fail", 0),
        OzzError::Utf8(k) => ("utf8", *k),
        _ => ("other", 0),
    };
    let mut a = match a {
        Ok(a) => a,
        Err(e) => return (json!({"res": err(&e).0, "swap": false}), vec![]),
    };
    let mut out = vec![];
    for o in ops {
        match guard(|| read(&mut a, &o.t, o.how, o.n)) {
            Err(_) => {
                out.push(json!({"res": "panic", "val": [], "at": 0}));
                break;
            }
            Ok(Ok(v)) => out.push(json!({"res": "ok", "val": v, "at": 0})),
            Ok(Err(e)) => {
                let (res, at) = err(&e);
                out.push(json!({"res": res, "val": [], "at": at}));
                if res != "utf8" {
                    break;
                }
            }
        }
    }
    (json!({"res": "ok", "swap": a.endian_swap()}), out)
}

/// `fail`: 0 or the (1-based) byte at which the source fails.
fn event(bytes: &[u8], ops: &[Op], via: &str, chunk: usize, fail: usize) -> Value {
    let odd = || Odd { b: bytes.to_vec(), at: Default::default(), chunk, fail: if fail == 0 { usize::MAX } else { fail - 1 }, n: chunk };
    let tmp = "c22.bin";
    if via == "file" || via == "path" {
        std::fs::write(tmp, bytes).unwrap();
    }
    let r = guard(|| match via {
        "slice" => run(Archive::from_slice(bytes), ops),
        "vec" => run(Archive::from_vec(bytes.to_vec()), ops),
        "reader" => run(Archive::new(bytes), ops),
        "file" => run(Archive::from_file(std::fs::File::open(tmp).unwrap()), ops),
        "path" => run(Archive::from_path(tmp), ops),
        _ => run(Archive::new(odd()), ops),
    });
    let (new, out) = r.unwrap_or((json!({"res": "panic", "swap": false}), vec![]));
    let ops: Vec<Value> = ops.iter().map(|o| json!([o.t, o.n])).collect();
    json!({"op": "run", "via": via, "fail": if via == "odd" { fail } else { 0 }, "ops": ops, "res": "ok", "new": new, "out": out})
}

/// `reps` times the same `unit` bytes (a string of them for `text`) and a mark behind: the values read,
/// folded as (values of one unit, how many times), and the mark.
fn bulk(rng: &mut Rng, t: &str, how: Option<&'static str>, units: usize, reps: usize, cut: bool) -> Value {
    let text = t == "string";
    let z = match t {
        "bool" | "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u64" | "i64" | "f64" | "vec2" => 8,
        "vec3" => 12,
        "vec4" | "quat" => 16,
        _ => 4,
    };
    let unit: Vec<u8> = if text { "aé日z".as_bytes().to_vec() } else { (0..units * z).map(|_| rng.next() as u8).collect() };
    let mark: [u8; 4] = (rng.next() as u32).to_ne_bytes();
    let order = rng.below(2) as u8;
    let mut bytes = vec![order];
    for _ in 0..reps {
        bytes.extend_from_slice(&unit);
    }
    if text {
        bytes.push(0);
    }
    if cut {
        bytes.pop();
    } else {
        bytes.extend_from_slice(&mark);
    }
    let n = if text { 1 } else { units * reps };
    let how = how.unwrap_or(if text { *rng.pick(&["one", "direct"]) } else { *rng.pick(&["vec", "slice"]) });
    let via = *rng.pick(&["slice", "vec", "odd", "file"]);
    let ops = [Op { t: t.into(), how, n }, Op { t: "u32".into(), how: "one", n: 1 }];
    if via == "file" {
        std::fs::write("c22.bin", &bytes).unwrap();
    }
    let chunk = rng.range(1, 999) as usize;
    let r = guard(|| match via {
        "slice" => run(Archive::from_slice(&bytes), &ops),
        "vec" => run(Archive::from_vec(bytes.clone()), &ops),
        "file" => run(Archive::from_file(std::fs::File::open("c22.bin").unwrap()), &ops),
        _ => run(Archive::new(Odd { b: bytes.clone(), at: Default::default(), chunk, fail: usize::MAX, n: 0 }), &ops),
    });
    let (_, mut out) = r.unwrap_or((json!({"res": "panic", "swap": false}), vec![json!({"res": "panic", "val": [], "at": 0})]));
    // fold the values
    let mut folds = 0;
    if out[0]["res"] == "ok" {
        let v = out[0]["val"].as_array().unwrap();
        let v: Vec<Value> = if text { v[0].as_array().unwrap().clone() } else { v.clone() };
        let k = v.len() / reps.max(1);
        if k > 0 && v.len() % k == 0 && v.chunks(k).all(|c| *c == v[..k]) {
            folds = v.len() / k;
            out[0]["val"] = if text { json!([v[..k].to_vec()]) } else { json!(v[..k].to_vec()) };
        } else {
            out[0]["val"] = json!([]);
        }
    }
    json!({"op": "bulk", "via": via, "t": t, "n": if text { 1 } else { units }, "reps": reps, "order": order, "unit": unit, "mark": mark, "cut": cut,
        "folds": folds, "out": out, "res": "ok"})
}

pub fn run_c22(rec: &mut Rec, args: &Args) {
    let mut rng = Rng::new(args.seed ^ 0x2222);
    let native = if cfg!(target_endian = "big") { "big" } else { "little" };
    let how = |rng: &mut Rng, t: &str, n: usize| -> &'static str {
        if n != 1 || matches!(t, "tag" | "version" | "tagver") {
            *rng.pick(&["vec", "slice"])
        } else {
            *rng.pick(&["one", "direct", "vec", "slice"])
        }
    };
    if let Some(p) = &args.plan {
        let seqs = p["ops"].as_array().unwrap();
        for s in p["streams"].as_array().unwrap() {
            let bytes: Vec<u8> = s.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let cfg = json!({"bytes": bytes, "native": native});
            rec.begin("model", &cfg);
            let mut ev = vec![];
            for q in seqs {
                let ops: Vec<Op> = q
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|o| {
                        let (t, n) = (o[0].as_str().unwrap().to_string(), o[1].as_u64().unwrap() as usize);
                        let h = how(&mut rng, &t, n);
                        Op { t, how: h, n }
                    })
                    .collect();
                let via = *rng.pick(&VIAS[..4]);
                let fail = if rng.chance(1, 3) { 2 + rng.below(bytes.len()) } else { 0 };
                let chunk = 1 + rng.below(4);
                ev.push(event(&bytes, &ops, via, chunk, if fail > bytes.len() { 0 } else { fail }));
            }
            rec.end("model", &cfg, ev);
        }
    }
    let count = if args.thorough { 6000 } else { 700 };
    for _ in 0..count {
        // values and text, both well-formed and not, cut off somewhere
        let mut bytes: Vec<u8> = vec![*rng.pick(&[0u8, 1, 1, 0, 2, 255])];
        let mut ops: Vec<Op> = vec![];
        for _ in 0..rng.range(1, 8) {
            let t = *rng.pick(&TYPES);
            let one = matches!(t, "tag" | "version" | "tagver");
            let n = if one { 1 } else { *rng.pick(&[1usize, 1, 1, 0, 2, 3, 5]) };
            ops.push(Op { t: t.into(), how: how(&mut rng, t, n), n });
            for _ in 0..n {
                if matches!(t, "string" | "tag" | "tagver") {
                    for _ in 0..rng.below(4) {
                        let piece: &[u8] = *rng.pick(&[
                            &b"a"[..], b"ozz-skeleton", "é".as_bytes(), "日".as_bytes(), "🦴".as_bytes(), "\u{7ff}\u{800}\u{ffff}".as_bytes(),
                            "\u{d7ff}\u{e000}".as_bytes(), "\u{10ffff}".as_bytes(), b"\x7f\x01",
                        ]);
                        bytes.extend_from_slice(piece);
                    }
                    if rng.chance(1, 4) {
                        let bad: &[u8] = *rng.pick(&[
                            &b"\x80"[..], b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xef\xbf", b"\xf0\x8f\xbf\xbf",
                            b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xe6\x97", b"\xf0\x9f\xa6", b"\xf1\x80A",
                        ]);
                        bytes.extend_from_slice(bad);
                        if rng.chance(1, 2) {
                            bytes.extend_from_slice(b"tail");
                        }
                    }
                    bytes.push(0);
                    if t == "tagver" {
                        bytes.extend_from_slice(&(rng.next() as u32).to_ne_bytes());
                    }
                } else {
                    let z = match t {
                        "bool" | "u8" | "i8" => 1,
                        "u16" | "i16" => 2,
                        "u64" | "i64" | "f64" | "vec2" => 8,
                        "vec3" => 12,
                        "vec4" | "quat" => 16,
                        _ => 4,
                    };
                    for _ in 0..z {
                        bytes.push(if rng.chance(1, 5) { *rng.pick(&[0u8, 1, 127, 128, 255]) } else { rng.next() as u8 });
                    }
                }
            }
        }
        if rng.chance(1, 4) {
            let k = rng.below(bytes.len() + 1);
            bytes.truncate(k);
        } else if rng.chance(1, 3) {
            bytes.push(rng.next() as u8);
        }
        let cfg = json!({"bytes": bytes, "native": native});
        rec.begin("random", &cfg);
        let mut ev = vec![];
        for via in VIAS {
            let fail = if via == "odd" && rng.chance(1, 2) { 1 + rng.below(bytes.len() + 1) } else { 0 };
            let chunk = 1 + rng.below(9);
            ev.push(event(&bytes, &ops, via, chunk, if fail > bytes.len() { 0 } else { fail }));
        }
        // the same reads starting as other types
        for o in ops.iter_mut() {
            if rng.chance(1, 3) {
                let t = *rng.pick(&TYPES);
                let n = if matches!(t, "tag" | "version" | "tagver") { 1 } else { o.n };
                *o = Op { t: t.into(), how: how(&mut rng, t, n), n };
            }
        }
        let chunk = 1 + rng.below(9);
        ev.push(event(&bytes, &ops, *rng.pick(&VIAS), chunk, 0));
        rec.end("random", &cfg, ev);
    }
    // more values, longer text than any counter of 8, 12, 16 or 20 bits
    for i in 0..(if args.thorough { 120 } else { 30 }) {
        let cfg = json!({"bytes": [], "native": native});
        rec.begin("bulk", &cfg);
        let t = if i % 3 == 0 { "string" } else { *rng.pick(&TYPES[..15]) };
        let reps = match (t, i) {
            ("string", _) => *rng.pick(&[37usize, 43, 586, 9363, 10000, 150000]),
            ("u8", _) => *rng.pick(&[22000, 350000]),
            _ => *rng.pick(&[86, 1400, 22000, 22000]),
        };
        let (t, how, reps) = match i {
            1 => ("u8", Some("vec"), 350000),
            2 => ("i8", Some("slice"), 350000),
            _ => (t, None, reps),
        };
        let cut = i > 2 && rng.chance(1, 5);
        let e = bulk(&mut rng, t, how, 3, reps, cut);
        rec.end("bulk", &cfg, vec![e]);
    }
}
