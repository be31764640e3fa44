//! Runs a property over generated cases: fixed work, eight threads, shrinking,
//! counting, evidence.

use crate::src::{Src, hash_str, mix};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

/// What one case did.
#[derive(Default)]
pub struct Cx {
    /// The decoded case, for people.
    pub input: String,
    pub classes: Vec<String>,
    /// Set when the case is non-trivial by the property's rule; cases with the
    /// same key count once.
    pub key: Option<u64>,
    pub more_keys: Vec<u64>,
}

impl Cx {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }

    pub fn nontrivial(&mut self, key: &str) {
        self.key = Some(hash_str(key));
    }

    /// One of several non-trivial inputs of the same case.
    pub fn also(&mut self, key: &str) {
        self.more_keys.push(hash_str(key));
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    /// Identifies the specific input that fails, for known findings.
    pub signature: String,
    pub message: String,
    /// This harness is to blame, not the code under test.
    pub fault: bool,
}

pub fn fail<T>(message: impl Into<String>) -> Result<T, Failure> {
    let message = message.into();
    Err(Failure {
        signature: message.clone(),
        message,
        fault: false,
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::engine::fail(format!(
                "{}: got {:?}, expected {:?}", format!($($arg)*), a, b
            ));
        }
    }};
}

/// Ends a case as a violation from where no result can be returned.
pub fn violated(message: &str) -> ! {
    panic::panic_any(Violated(message.to_string()))
}

struct Violated(String);

pub type Outcome = Result<(), Failure>;

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Src, &mut Cx) -> Outcome,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else {
            default(info);
        }
    }));
}

pub fn run_case(p: &Property, src: &mut Src) -> (Cx, Outcome) {
    let mut cx = Cx::default();
    QUIET.with(|q| q.set(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let out = panic::catch_unwind(AssertUnwindSafe(|| (p.run)(src, &mut cx)));
    QUIET.with(|q| q.set(false));
    let out = match out {
        Ok(out) => out,
        Err(payload) if payload.is::<Violated>() => fail(payload.downcast::<Violated>().unwrap().0),
        Err(_) => {
            let info = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // A fault of this harness is not one of the code under test.
            let fault =
                info.contains("harness/src") || info.contains(" src/") && !info.contains("/repo/");
            if fault {
                return (
                    cx,
                    Err(Failure {
                        fault,
                        signature: "harness".into(),
                        message: format!("harness error: {info}"),
                    }),
                );
            }
            let message = format!("panicked: {}", info.replace('\n', " "));
            Err(Failure {
                fault: false,
                signature: message.clone(),
                message,
            })
        }
    };
    (cx, out)
}

fn shrink(p: &Property, start: Vec<u64>, same: &dyn Fn(&Failure) -> bool) -> Vec<u64> {
    let mut best = start;
    let mut budget = 20_000;
    let started = Instant::now();
    let fails = |data: &[u64], budget: &mut i32| -> Option<Vec<u64>> {
        *budget -= 1;
        if started.elapsed().as_secs() > 40 {
            *budget = 0;
            return None;
        }
        let mut src = Src::replay(data.to_vec());
        match run_case(p, &mut src).1 {
            Err(f) if same(&f) => Some(src.rec),
            _ => None,
        }
    };
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);

    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && budget > 0 {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                match fails(&c, &mut budget) {
                    Some(r) if smaller(&r, &best) => best = r,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // Make values smaller.
        for i in 0..best.len() {
            if i >= best.len() || budget <= 0 {
                break;
            }
            let mut lo = 0;
            while i < best.len() && lo < best[i] && budget > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match fails(&c, &mut budget) {
                    Some(r) if smaller(&r, &best) => best = r,
                    _ => lo = mid + 1,
                }
            }
        }
        if best == before || budget <= 0 {
            return best;
        }
    }
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    keys: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: BTreeMap<String, (u64, String)>,
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub threads: usize,
    pub scale: f64,
    pub journal: bool,
}

pub struct Known {
    pub entries: Vec<(String, String)>,
}

impl Known {
    /// Lines `known: property=<id> <signature>`.
    pub fn load(path: &Path) -> Known {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        Known {
            entries: text
                .lines()
                .filter_map(|l| l.strip_prefix("known: property="))
                .filter_map(|l| l.split_once(' '))
                .map(|(a, b)| (a.to_string(), b.trim().to_string()))
                .collect(),
        }
    }

    pub fn has(&self, id: &str, sig: &str) -> bool {
        self.entries.iter().any(|(p, s)| p == id && s == sig)
    }
}

pub fn seed_for(p: &Property, seed: u64) -> u64 {
    mix(seed ^ hash_str(p.id))
}

/// Where a violation is noted as soon as it is known.
pub fn found_file(root: &Path, id: &str) -> PathBuf {
    root.join("evidence")
        .join("journal")
        .join(format!("{id}.found"))
}

pub fn journal_dir(root: &Path, id: &str) -> PathBuf {
    root.join("evidence").join("journal").join(id)
}

/// Exit status: 0 held, 1 violated.
pub fn run(p: &Property, o: &Options) -> i32 {
    let started = Instant::now();
    let total = ((p.quick as f64) * o.scale).ceil() as u64;
    let seed = seed_for(p, o.seed);
    let known = Known::load(&o.root.join("KNOWN_FINDINGS"));
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<(u64, Vec<u64>, Failure)>> = Mutex::new(Vec::new());
    let suppressed: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let faults: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let tally: Mutex<Tally> = Mutex::new(Tally::default());
    let jdir = journal_dir(&o.root, p.id);
    if o.journal {
        std::fs::create_dir_all(&jdir).ok();
    }
    const CHUNK: u64 = 256;

    std::thread::scope(|scope| {
        for thread in 0..o.threads {
            let (next, stop, failures, tally, suppressed, faults, known, jdir) = (
                &next,
                &stop,
                &failures,
                &tally,
                &suppressed,
                &faults,
                &known,
                &jdir,
            );
            let body = move || {
                let mut t = Tally::default();
                let jfile = o
                    .journal
                    .then(|| std::fs::File::create(jdir.join(thread.to_string())).unwrap());
                'outer: loop {
                    let from = next.fetch_add(CHUNK, Ordering::Relaxed);
                    if from >= total {
                        break;
                    }
                    for index in from..(from + CHUNK).min(total) {
                        if stop.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        if let Some(f) = &jfile {
                            use std::os::unix::fs::FileExt;
                            f.write_all_at(format!("{index:020}").as_bytes(), 0).ok();
                        }
                        let mut src = Src::random(seed, index);
                        let (cx, out) = run_case(p, &mut src);
                        t.evaluations += 1;
                        for k in cx.key.iter().chain(&cx.more_keys) {
                            t.keys.insert(*k);
                        }
                        for c in &cx.classes {
                            *t.classes.entry(c.clone()).or_default() += 1;
                        }
                        if cx.key.is_some() {
                            let c = cx.classes.first().cloned().unwrap_or_default();
                            let slot = t.samples.entry(c).or_insert((index, String::new()));
                            if slot.1.is_empty() || index < slot.0 {
                                *slot = (index, cx.input.clone());
                            }
                        }
                        if let Err(f) = out {
                            if f.fault {
                                let mut faults = faults.lock().unwrap();
                                if faults.len() < 5 {
                                    faults.push(format!("{}\ninput: {}", f.message, cx.input));
                                }
                                continue;
                            }
                            if known.has(p.id, &f.signature) {
                                *suppressed.lock().unwrap().entry(f.signature).or_default() += 1;
                                continue;
                            }
                            let mut fs = failures.lock().unwrap();
                            fs.push((index, src.rec, f));
                            if fs.len() >= 50 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                let mut g = tally.lock().unwrap();
                g.evaluations += t.evaluations;
                g.keys.extend(t.keys);
                for (c, n) in t.classes {
                    *g.classes.entry(c).or_default() += n;
                }
                for (c, s) in t.samples {
                    let slot = g.samples.entry(c).or_insert(s.clone());
                    if s.0 < slot.0 {
                        *slot = s;
                    }
                }
            };
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, body)
                .unwrap();
        }
    });

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| (f.1.len(), f.0));
    let tally = tally.into_inner().unwrap();
    let mut status = 0;

    for (sig, n) in suppressed.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={} {sig} ({n} cases)", p.id);
    }

    let mut shown = Vec::new();
    for (index, rec, f) in failures.iter().take(1) {
        status = 1;
        let known = &known;
        let dir = o.root.join("evidence").join("replay");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}-{}-{}.json", p.id, o.seed, index));
        let save = |choices: &[u64], input: &str, f: &Failure| {
            let replay = json!({
                "property": p.id,
                "seed": o.seed,
                "index": index,
                "choices": choices,
                "input": input,
                "message": f.message,
                "failures_in_run": failures.len(),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).ok();
            replay
        };
        // Shrinking runs the code under test on other inputs, which may end
        // badly: what is known goes to the parent first.
        let (cx, _) = run_case(p, &mut Src::replay(rec.clone()));
        save(rec, &cx.input, f);
        let note = found_file(&o.root, p.id);
        let text = format!(
            "input: {}\nmessage: {}\nVIOLATION property={} replay={}\n",
            cx.input,
            f.message,
            p.id,
            path.display()
        );
        std::fs::create_dir_all(note.parent().unwrap()).ok();
        let part = note.with_extension("part");
        std::fs::write(&part, text).ok();
        std::fs::rename(&part, &note).ok();
        let best = shrink(p, rec.clone(), &|g| {
            !g.fault && !known.has(p.id, &g.signature)
        });
        let (cx, out) = run_case(p, &mut Src::replay(best.clone()));
        let (choices, input, f) = match out {
            Err(g) if !g.fault => (best, cx.input, g),
            _ => {
                // Not a function of its choices: keep the case as it was.
                let (cx, _) = run_case(p, &mut Src::replay(rec.clone()));
                (rec.clone(), cx.input, f.clone())
            }
        };
        let replay = save(&choices, &input, &f);
        println!("input: {input}");
        println!("message: {}", f.message);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        shown.push(replay);
    }

    let mut samples: Vec<Value> = tally
        .samples
        .iter()
        .map(|(c, (i, s))| json!({"class": c, "case": i, "input": s}))
        .collect();
    samples.truncate(40);
    if samples.is_empty() {
        samples.push(json!("no non-trivial case"));
    }
    let evidence = json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tally.evaluations,
            "distinct_nontrivial": tally.keys.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": tally.classes,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let path = o.root.join("evidence").join(format!("{}.json", p.id));
    std::fs::create_dir_all(path.parent().unwrap()).ok();
    std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} failures, {:.1} s",
        p.id,
        tally.evaluations,
        tally.keys.len(),
        failures.len(),
        started.elapsed().as_secs_f64()
    );
    for f in faults.into_inner().unwrap() {
        eprintln!("{f}");
        if status == 0 {
            status = 3;
        }
    }
    status
}
