use std::io::{BufRead, Write};

/// ozzd < LIST: a line "seed steps code" per scenario; answers "kind:digest" per step.
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let a: Vec<u64> = l.unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let Ok(v) = std::panic::catch_unwind(|| ozzd::scenario(a[0], a[1] as usize, a[2] as u32)) else {
            writeln!(out, "panic").unwrap();
            continue;
        };
        let l: Vec<String> = v.iter().map(|(k, d)| format!("{}:{:016x}", ozzd::KINDS[*k as usize], d)).collect();
        writeln!(out, "{}", l.join(" ")).unwrap();
    }
}
