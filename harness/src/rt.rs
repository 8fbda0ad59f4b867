//! Runtime of the harness: panics as data, hang detection, mismatch records.
use crate::j::{canon, J};
use serde_json::json;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn panicked() -> J {
    json!({"k": "panic"})
}

/// Runs code under test; a panic is an observation.
pub fn guard(f: impl FnOnce() -> J) -> J {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| {
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        json!({"k": "panic", "msg": msg})
    })
}

pub fn try_<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    })
}

pub struct Ctx {
    pub part: String,
    pub checks: u64,
    pub mismatches: u64,
    /// values seen lately, for streams of several
    pub recent: Vec<serde_yaml::Value>,
    case: J,
    found: Vec<J>,
}

impl Ctx {
    pub fn new(part: &str) -> Self {
        Ctx { part: part.to_owned(), checks: 0, mismatches: 0, recent: vec![], case: J::Null, found: Vec::new() }
    }
    pub fn begin(&mut self, case: &J) {
        self.case = case.clone();
    }
    /// Whether the named part of an operation is wanted by this check.
    pub fn wants(&self, part: &str) -> bool {
        self.part.is_empty() || self.part.split(',').any(|p| p == part)
    }
    /// Compares an observation with what the specification expects.
    pub fn eq(&mut self, what: &str, input: &str, exp: &J, obs: &J) -> bool {
        self.checks += 1;
        let (e, o) = (canon(exp), canon(obs));
        if e == o {
            return true;
        }
        self.fail(what, input, e, obs.clone());
        false
    }
    pub fn ok(&mut self, what: &str, input: &str, cond: bool, obs: J) -> bool {
        self.checks += 1;
        if !cond {
            self.fail(what, input, J::Null, obs);
        }
        cond
    }
    pub fn fail(&mut self, what: &str, input: &str, exp: J, obs: J) {
        self.mismatches += 1;
        if self.found.len() < 5 {
            self.found.push(json!({"what": what, "input": input, "exp": exp, "obs": obs, "case": self.case}));
        }
    }
    pub fn take(&mut self) -> Vec<J> {
        std::mem::take(&mut self.found)
    }
}

/// Records which case is running, so that an abort, a stack overflow or a
/// hang of the code under test can be attributed to its input.
pub struct Watch {
    file: std::fs::File,
    tick: Arc<AtomicU64>,
}

impl Watch {
    pub fn start(path: &str) -> Watch {
        let file = std::fs::File::create(path).unwrap();
        let tick = Arc::new(AtomicU64::new(0));
        let t = tick.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut since = std::time::Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = t.load(Ordering::Relaxed);
                if now == u64::MAX {
                    return;
                }
                if now != last {
                    last = now;
                    since = std::time::Instant::now();
                } else if now > 0 && since.elapsed().as_secs() > 60 {
                    std::process::exit(97);
                }
            }
        });
        Watch { file, tick }
    }
    pub fn begin(&self, n: u64) {
        self.tick.store(n + 1, Ordering::Relaxed);
        let _ = self.file.write_all_at(&n.to_le_bytes(), 0);
    }
    pub fn done(&self) {
        self.tick.store(u64::MAX, Ordering::Relaxed);
    }
}
