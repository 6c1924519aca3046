#![feature(portable_simd)]
#![allow(dead_code)]
mod archive;
mod blend;
mod build;
mod heap;
mod ik;
mod jobs;
mod keys;
mod locks;
mod num;
mod params;
mod persist;
mod reader;
mod refuse;
mod rec;
mod sampling;
mod skel;
mod skin;
mod soa;
mod trig;
mod tracks;

use rec::{Args, Rec};

#[global_allocator]
static HEAP: heap::Probe = heap::Probe;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let suite = a[1].clone();
    let args = Args {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        plan: get("--plan").map(|p| serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap()),
    };
    let out = get("--out").unwrap();
    let mut rec = Rec::new(&out);
    match suite.as_str() {
        "C01" => sampling::run_c01(&mut rec, &args),
        "C02" => sampling::run_c02(&mut rec, &args),
        "C03" => tracks::run_c03(&mut rec, &args),
        "C04" => tracks::run_c04(&mut rec, &args),
        "C05" => skel::run_c05(&mut rec, &args),
        "C06" => skel::run_c06(&mut rec, &args),
        "C07" => blend::run_c07(&mut rec, &args),
        "C08" => blend::run_c08(&mut rec, &args),
        "C09" => blend::run_c09(&mut rec, &args),
        "C10" => skin::run_c10(&mut rec, &args),
        "C11" => jobs::run_c11(&mut rec, &args),
        "C12" => archive::run_c12(&mut rec, &args),
        "C13" => persist::run_c13(&mut rec, &args),
        "C14" => locks::run_c14(&mut rec, &args),
        "C16" => keys::run_c16(&mut rec, &args),
        "C17" => ik::run_c17(&mut rec, &args),
        "C18" => ik::run_c18(&mut rec, &args),
        "C19" => params::run_c19(&mut rec, &args),
        "C20" => soa::run_c20(&mut rec, &args),
        "C23" => heap::run_c23(&mut rec, &args),
        "C24" => refuse::run_c24(&mut rec, &args),
        "C22" => reader::run_c22(&mut rec, &args),
        "C21" => trig::run_c21(&mut rec, &args),
        s => panic!("unknown suite {s}"),
    }
    rec.finish();
}
