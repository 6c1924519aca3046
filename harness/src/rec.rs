//! Scenario recorder: one JSON line per scenario, {"id","kind","cfg","ev"}; panics of the code
//! under test are data ("panic" results); crashes and hangs are completed by the runner from the
//! side file that names the scenario in flight.
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static BEAT: AtomicU64 = AtomicU64::new(0);
pub static HANG_SECS: u64 = 30;

pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

pub struct Rec {
    out: BufWriter<File>,
    cur_path: String,
    n: usize,
    pub events: usize,
}

impl Rec {
    pub fn new(path: &str) -> Rec {
        std::panic::set_hook(Box::new(|i| if std::env::var("PANICS").is_ok() { eprintln!("{i}") }));
        std::thread::spawn(|| {
            let mut last = BEAT.load(Ordering::Relaxed);
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let now = BEAT.load(Ordering::Relaxed);
                if now != last {
                    last = now;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(HANG_SECS) {
                    eprintln!("HANG");
                    std::process::exit(97);
                }
            }
        });
        Rec {
            out: BufWriter::new(File::create(path).unwrap()),
            cur_path: format!("{path}.cur"),
            n: 0,
            events: 0,
        }
    }

    /// Announce a scenario before it runs (what the runner reports if the process dies in it).
    pub fn begin(&mut self, kind: &str, cfg: &Value) {
        beat();
        self.out.flush().unwrap();
        std::fs::write(
            &self.cur_path,
            json!({"id": self.n + 1, "kind": kind, "cfg": cfg, "ev": [{"op": "crash"}]}).to_string(),
        )
        .unwrap();
    }

    pub fn end(&mut self, kind: &str, cfg: &Value, ev: Vec<Value>) {
        self.n += 1;
        self.events += ev.len();
        let line = json!({"id": self.n, "kind": kind, "cfg": cfg, "ev": ev});
        serde_json::to_writer(&mut self.out, &line).unwrap();
        self.out.write_all(b"\n").unwrap();
        beat();
    }

    pub fn finish(mut self) {
        self.out.flush().unwrap();
        let _ = std::fs::remove_file(&self.cur_path);
        println!("scenarios={} events={}", self.n, self.events);
    }
}

/// Run code under test; a panic becomes Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    beat();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub fn res_name<T>(r: &Result<Result<T, ozz_animation_rs::OzzError>, ()>) -> &'static str {
    use ozz_animation_rs::OzzError::*;
    // the predicates tell the same kind
    if let Ok(Err(e)) = r {
        let said = [e.is_lock_poison(), e.is_invalid_job(), e.is_io(), e.is_utf8(), e.is_invalid_tag(), e.is_invalid_version(), e.is_unexcepted()];
        let is = [
            matches!(e, LockPoison),
            matches!(e, InvalidJob),
            matches!(e, IO(_)),
            matches!(e, Utf8(_)),
            matches!(e, InvalidTag),
            matches!(e, InvalidVersion),
            matches!(e, Unexcepted),
        ];
        if said != is {
            return "mixed";
        }
    }
    match r {
        Err(_) => "panic",
        Ok(Ok(_)) => "ok",
        Ok(Err(LockPoison)) => "poison",
        Ok(Err(InvalidJob)) => "invalid",
        Ok(Err(InvalidIndex)) => "index",
        Ok(Err(IO(_))) => "io",
        Ok(Err(Utf8(_))) => "utf8",
        Ok(Err(InvalidTag)) => "tag",
        Ok(Err(InvalidVersion)) => "version",
        Ok(Err(Unexcepted)) => "unexcepted",
    }
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub plan: Option<Value>,
}
