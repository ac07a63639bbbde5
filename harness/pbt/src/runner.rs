use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::gen::{splitmix, Fail, G, R};
use crate::json::Json;

/// One executable statement of (part of) a property.
pub struct Sub {
    pub name: &'static str,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// run on one thread (the check owns process-wide state)
    pub serial: bool,
    pub f: fn(&mut G) -> R,
}

/// The sub-checks that together decide one property.
pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);
/// message of the last panic on a thread the engine does not know
static FOREIGN_PANIC: Mutex<Option<String>> = Mutex::new(None);

thread_local! {
    static WORKER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("panicked at {loc}: {msg}");
        if std::env::var_os("PBT_BT").is_some() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if WORKER.with(|w| w.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else {
            *FOREIGN_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(text);
        }
    }));
}

/// The last panic of a thread that is not one of the engine's workers
/// (e.g. of a runtime's worker thread), if any.
pub fn take_foreign_panic() -> Option<String> {
    FOREIGN_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

fn run_case(f: fn(&mut G) -> R, g: &mut G) -> R {
    WORKER.with(|w| w.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(g)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            Err(Fail::new(m))
        }
    }
}

fn seed_of(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    let mut x = seed;
    for b in prop.bytes().chain([b'/']).chain(sub.bytes()) {
        x ^= b as u64;
        x = splitmix(&mut x);
    }
    x ^= i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

struct Slot {
    started: Option<Instant>,
    choices: Arc<Mutex<Vec<u64>>>,
}

struct Failure {
    index: u64,
    choices: Vec<u64>,
    fail: Fail,
}

struct Ctx {
    property: &'static str,
    replays: PathBuf,
    best: Mutex<Option<(String, Vec<u64>, Fail)>>,
    slots: Vec<Mutex<Slot>>,
    current_sub: Mutex<String>,
    stop: AtomicBool,
}

#[derive(Default)]
struct Stats {
    cases: u64,
    inner: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, u64>,
    truncated: bool,
}

fn write_replay(ctx_dir: &Path, property: &str, sub: &str, choices: &[u64], fail: &Fail, notes: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(ctx_dir);
    let p = ctx_dir.join(format!("{property}-{sub}.json"));
    let j = Json::obj(vec![
        ("property", property.into()),
        ("sub", sub.into()),
        ("message", fail.msg.as_str().into()),
        ("signature", fail.sig.as_str().into()),
        ("case", Json::Arr(notes.lines().map(|l| l.into()).collect())),
        ("choices", Json::Arr(choices.iter().map(|c| Json::Int(*c as i128)).collect())),
    ]);
    std::fs::write(&p, j.render()).expect("write replay");
    p
}

/// A directory of this process's own, removed when it ends.
pub fn scratch_root() -> PathBuf {
    let mut s = SCRATCH.lock().unwrap();
    if s.is_none() {
        let base = std::env::var_os("PBT_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("pbt-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch root");
        *s = Some(p);
    }
    s.clone().unwrap()
}

fn drop_scratch() {
    if let Some(p) = SCRATCH.lock().unwrap().take() {
        let _ = std::fs::remove_dir_all(p);
    }
}

fn replay_once(sub: &Sub, choices: &[u64], notes: bool, thorough: bool) -> (R, Vec<u64>, String) {
    let mut g = G::replaying(Arc::new(choices.to_vec()));
    g.want_notes = notes;
    g.thorough = thorough;
    g.scratch_root = scratch_root();
    let r = run_case(sub.f, &mut g);
    (r, std::mem::take(&mut g.rec), std::mem::take(&mut g.notes))
}

fn replay_marks(sub: &Sub, choices: &[u64], thorough: bool) -> (R, Vec<u64>, Vec<usize>) {
    let mut g = G::replaying(Arc::new(choices.to_vec()));
    g.thorough = thorough;
    g.scratch_root = scratch_root();
    let r = run_case(sub.f, &mut g);
    (r, std::mem::take(&mut g.rec), std::mem::take(&mut g.marks))
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(sub: &Sub, ctx: &Ctx, first: &Failure, known: &HashSet<String>, budget: Duration, thorough: bool) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut best = first.choices.clone();
    let mut fail = first.fail.clone();
    let mut runs = 0u64;
    let slot = &ctx.slots[0];
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, fail: &mut Fail| -> bool {
        if t0.elapsed() > budget || runs > 4000 {
            return false;
        }
        runs += 1;
        slot.lock().unwrap().started = Some(Instant::now());
        let (r, rec, _) = replay_once(sub, cand, false, thorough);
        slot.lock().unwrap().started = None;
        if let Err(f) = r {
            // stay with the same kind of failure when it is a known one or not
            if known.contains(&f.sig) == known.contains(&fail.sig) && simpler(&rec, best) {
                *best = rec;
                *fail = f;
                *ctx.best.lock().unwrap() = Some((sub.name.to_string(), best.clone(), fail.clone()));
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // leave out steps
        loop {
            let (_, rec, marks) = replay_marks(sub, &best, thorough);
            let mut changed = false;
            if rec == best {
                for i in (0..marks.len()).rev() {
                    let end = marks.get(i + 1).copied().unwrap_or(best.len());
                    if end > best.len() || marks[i] >= end {
                        break;
                    }
                    let mut c = best.clone();
                    c.drain(marks[i]..end);
                    let n = best.len();
                    if attempt(&c, &mut best, &mut fail) {
                        changed = true;
                        if best.len() != n - (end - marks[i]) {
                            break; // the rest was read differently
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // delete chunks
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt(&c, &mut best, &mut fail);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(if size > 8 { size / 2 } else { 1 });
            }
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt(&c, &mut best, &mut fail);
                }
                i += size;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best, &mut fail) {
                    lo = mid + 1;
                    if t0.elapsed() > budget {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    (best, fail, runs)
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

/// Runs the checks by the command line; see run.py.
pub fn main(checks: Vec<Check>) -> ! {
    let code = real_main(checks);
    drop_scratch();
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn real_main(checks: Vec<Check>) -> i32 {
    let args = Args(std::env::args().skip(1).collect());
    install_hook();
    if args.has("--list") {
        for c in &checks {
            for s in &c.subs {
                println!("{}\t{}\t{}\t{}", c.property, s.name, s.quick, s.thorough);
            }
        }
        return 0;
    }
    let tier = args.get("--tier").unwrap_or("quick").to_string();
    let thorough = tier == "thorough";
    if let Some(path) = args.get("--replay") {
        let j = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| Json::parse(&t)) {
            Ok(j) => j,
            Err(e) => {
                eprintln!("cannot read {path}: {e}");
                return 2;
            }
        };
        let p = j.get("property").and_then(|x| x.str()).unwrap_or("");
        let s = j.get("sub").and_then(|x| x.str()).unwrap_or("");
        let Some(sub) = checks.iter().filter(|c| c.property == p).flat_map(|c| &c.subs).find(|x| x.name == s) else {
            eprintln!("no such check: {p}/{s}");
            return 2;
        };
        let (r, _, notes) = if let Some(ch) = j.get("choices").and_then(|x| x.arr()) {
            let c: Vec<u64> = ch.iter().filter_map(|x| x.u64()).collect();
            replay_once(sub, &c, true, thorough)
        } else {
            let seed = j.get("case_seed").and_then(|x| x.u64()).unwrap_or(0);
            let size = j.get("size").and_then(|x| x.u64()).unwrap_or(100);
            let mut g = G::random(seed, size);
            g.want_notes = true;
            g.scratch_root = scratch_root();
            let r = run_case(sub.f, &mut g);
            (r, vec![], std::mem::take(&mut g.notes))
        };
        println!("{notes}");
        return match r {
            Ok(()) => {
                println!("replay: the case passes");
                0
            }
            Err(f) => {
                println!("replay: {} [{}]", f.msg, f.sig);
                println!("VIOLATION property={p} replay={path}");
                1
            }
        };
    }
    let id = args.get("--property").expect("--property").to_string();
    let seed: u64 = args.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let replays = PathBuf::from(args.get("--replays").unwrap_or("replays"));
    let findings_file = args.get("--findings").unwrap_or("").to_string();
    let check = match checks.into_iter().find(|c| c.property == id) {
        Some(c) => c,
        None => {
            eprintln!("no check for {id}");
            return 2;
        }
    };
    let t0 = Instant::now();
    let nthreads = args
        .get("--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let status = args.get("--status").map(|p| Arc::new(std::fs::File::create(p).expect("status file")));
    let scale: f64 = args.get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let sub_cap = Duration::from_secs(args.get("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 900 } else { 60 }));

    // listed findings: signature -> description
    let mut listed: Vec<(String, String)> = Vec::new();
    if let Ok(t) = std::fs::read_to_string(&findings_file) {
        for l in t.lines().filter(|l| l.trim_start().starts_with('{')) {
            if let Ok(j) = Json::parse(l) {
                if j.get("property").and_then(|x| x.str()) == Some(check.property) && j.get("status").and_then(|x| x.str()) == Some("finding") {
                    listed.push((
                        j.get("signature").and_then(|x| x.str()).unwrap_or("?").to_string(),
                        j.get("what").and_then(|x| x.str()).unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    let known: HashSet<String> = listed.iter().map(|(s, _)| s.clone()).collect();

    let ctx = Arc::new(Ctx {
        property: check.property,
        replays: replays.clone(),
        best: Mutex::new(None),
        slots: (0..nthreads).map(|_| Mutex::new(Slot { started: None, choices: Default::default() })).collect(),
        current_sub: Mutex::new(String::new()),
        stop: AtomicBool::new(false),
    });
    let hang = Duration::from_secs(std::env::var("PBT_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(150));
    {
        let ctx = ctx.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            if ctx.stop.load(Ordering::Relaxed) {
                return;
            }
            for s in &ctx.slots {
                let (st, ch) = {
                    let s = s.lock().unwrap();
                    (s.started, s.choices.clone())
                };
                if st.is_some_and(|t| t.elapsed() > hang) {
                    let best = ctx.best.lock().unwrap().clone();
                    let (sub, choices, fail) = best.unwrap_or_else(|| {
                        (
                            ctx.current_sub.lock().unwrap().clone(),
                            ch.lock().unwrap().clone(),
                            Fail::new(format!("the case did not finish within {} s", hang.as_secs())),
                        )
                    });
                    let p = write_replay(&ctx.replays, ctx.property, &sub, &choices, &fail, "");
                    println!("{}: {}", sub, fail.msg);
                    println!("VIOLATION property={} replay={}", ctx.property, p.display());
                    let _ = std::io::stdout().flush();
                    drop_scratch();
                    std::process::exit(1);
                }
            }
        });
    }

    let only = args.get("--sub").map(|s| s.to_string());
    let mut all: Vec<(&Sub, Stats, f64)> = Vec::new();
    let mut violations: Vec<(String, PathBuf, Fail)> = Vec::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();

    // committed regression cases first
    if let Some(dir) = args.get("--corpus") {
        let mut files: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            let Some(j) = std::fs::read_to_string(&f).ok().and_then(|t| Json::parse(&t).ok()) else { continue };
            let Some(s) = j.get("sub").and_then(|x| x.str()) else { continue };
            let Some(sub) = check.subs.iter().find(|x| x.name == s) else { continue };
            let c: Vec<u64> = j.get("choices").and_then(|x| x.arr()).unwrap_or(&[]).iter().filter_map(|x| x.u64()).collect();
            let (r, rec, notes) = replay_once(sub, &c, true, thorough);
            if let Err(fail) = r {
                if known.contains(&fail.sig) {
                    *known_hit.entry(fail.sig).or_default() += 1;
                } else {
                    let p = write_replay(&replays, check.property, sub.name, &rec, &fail, &notes);
                    violations.push((sub.name.to_string(), p, fail));
                }
            }
        }
    }

    for sub in &check.subs {
        if only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        let s0 = Instant::now();
        *ctx.current_sub.lock().unwrap() = sub.name.to_string();
        let n = args
            .get("--cases")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| ((if thorough { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64);
        let next = AtomicU64::new(0);
        let first_fail = AtomicU64::new(u64::MAX);
        let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        let threads = if sub.serial { 1 } else { nthreads };
        let root = scratch_root();
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, first_fail, failures, stats, ctx, status, known, root) =
                    (&next, &first_fail, &failures, &stats, &ctx, status.clone(), &known, &root);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || i > first_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            if s0.elapsed() > sub_cap {
                                st.truncated = true;
                                break;
                            }
                            let cs = seed_of(seed, ctx.property, sub.name, i);
                            let size = 1 + (i * 2 * 99 / n.max(1)).min(99);
                            if let Some(f) = &status {
                                let line = format!("{:<40} {:>20} {:>4}\n", sub.name, cs, size);
                                let _ = f.write_at(line.as_bytes(), (t * line.len()) as u64);
                            }
                            let mut g = G::random(cs, size);
                            g.thorough = thorough;
                            g.scratch_root = root.clone();
                            g.want_notes = i < 40 || i % (n / 16).max(1) == 0;
                            let shared = Arc::new(Mutex::new(Vec::new()));
                            g.shared = Some(shared.clone());
                            {
                                let mut s = ctx.slots[t].lock().unwrap();
                                s.started = Some(Instant::now());
                                s.choices = shared;
                            }
                            let r = run_case(sub.f, &mut g);
                            ctx.slots[t].lock().unwrap().started = None;
                            st.cases += 1;
                            st.inner += g.inner;
                            let h = hash_choices(&g.rec);
                            st.distinct.insert(h);
                            for l in &g.labels {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            if g.nontrivial {
                                st.nontrivial.insert(h);
                                if g.want_notes && !g.notes.is_empty() && st.samples.len() < 6 {
                                    let mut n = g.notes.clone();
                                    if n.len() > 1500 {
                                        let mut k = 1500;
                                        while !n.is_char_boundary(k) {
                                            k -= 1;
                                        }
                                        n.truncate(k);
                                        n.push('…');
                                    }
                                    st.samples.push((i, n));
                                }
                            }
                            if let Err(fail) = r {
                                if known.contains(&fail.sig) {
                                    *st.known.entry(fail.sig.clone()).or_default() += 1;
                                } else {
                                    first_fail.fetch_min(i, Ordering::Relaxed);
                                    let f = Failure { index: i, choices: g.rec.clone(), fail };
                                    let mut b = ctx.best.lock().unwrap();
                                    if b.is_none() {
                                        *b = Some((sub.name.to_string(), f.choices.clone(), f.fail.clone()));
                                    }
                                    drop(b);
                                    failures.lock().unwrap().push(f);
                                }
                            }
                        }
                        let mut s = stats.lock().unwrap();
                        s.cases += st.cases;
                        s.inner += st.inner;
                        s.truncated |= st.truncated;
                        s.nontrivial.extend(st.nontrivial);
                        s.distinct.extend(st.distinct);
                        s.samples.extend(st.samples);
                        for (k, v) in st.labels {
                            *s.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in st.known {
                            *s.known.entry(k).or_default() += v;
                        }
                    })
                    .expect("thread");
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.samples.sort();
        for (k, v) in &st.known {
            *known_hit.entry(k.clone()).or_default() += v;
        }
        let mut fs = failures.into_inner().unwrap();
        fs.sort_by_key(|f| f.index);
        if let Some(first) = fs.first() {
            *ctx.best.lock().unwrap() = Some((sub.name.to_string(), first.choices.clone(), first.fail.clone()));
            // a failure counts when it happens again
            let (r, _, _) = replay_once(sub, &first.choices, false, thorough);
            let (choices, fail, runs) = if r.is_err() {
                shrink(sub, &ctx, first, &known, Duration::from_secs(60), thorough)
            } else {
                let mut f = first.fail.clone();
                f.msg = format!("(not reproduced on an immediate re-run) {}", f.msg);
                (first.choices.clone(), f, 1)
            };
            let (_, _, notes) = replay_once(sub, &choices, true, thorough);
            let p = write_replay(&replays, check.property, sub.name, &choices, &fail, &notes);
            println!(
                "{}/{}: case {} fails ({} choices, shrunk to {} in {} runs): {}",
                check.property,
                sub.name,
                first.index,
                first.choices.len(),
                choices.len(),
                runs,
                fail.msg
            );
            for l in notes.lines().take(40) {
                println!("    {l}");
            }
            violations.push((sub.name.to_string(), p, fail));
            *ctx.best.lock().unwrap() = None;
        }
        all.push((sub, st, s0.elapsed().as_secs_f64()));
    }
    ctx.stop.store(true, Ordering::Relaxed);

    // evidence
    let mut samples = Vec::new();
    let mut subs = Vec::new();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut rules = Vec::new();
    for (s, st, secs) in &all {
        evals += st.cases;
        nontriv += st.nontrivial.len() as u64;
        rules.push(format!("[{}] {}", s.name, s.rule));
        for (i, n) in st.samples.iter().take(3) {
            samples.push(Json::obj(vec![
                ("sub", s.name.into()),
                ("case_index", (*i).into()),
                ("case", Json::Arr(n.lines().map(|l| l.into()).collect())),
            ]));
        }
        subs.push(Json::obj(vec![
            ("name", s.name.into()),
            ("cases", st.cases.into()),
            ("distinct", (st.distinct.len() as u64).into()),
            ("distinct_nontrivial", (st.nontrivial.len() as u64).into()),
            ("inner_evaluations", st.inner.into()),
            ("labels", Json::Obj(st.labels.iter().map(|(k, v)| (k.to_string(), Json::Int(*v as i128))).collect())),
            ("stopped_by_time_cap", Json::Bool(st.truncated)),
            ("wall_s", Json::Num(*secs)),
        ]));
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} sub-checks, {:.1} s",
        check.property,
        evals,
        nontriv,
        all.len(),
        t0.elapsed().as_secs_f64()
    );
    let ev = Json::obj(vec![
        ("property", check.property.into()),
        ("tier", tier.as_str().into()),
        ("seed", seed.into()),
        ("level", check.level.into()),
        (
            "coverage",
            Json::obj(vec![
                ("evaluations", evals.into()),
                ("distinct_nontrivial", nontriv.into()),
                ("rule", rules.join(" | ").into()),
                ("samples", Json::Arr(samples)),
                ("sub_checks", Json::Arr(subs)),
                ("exhaustive", Json::Bool(false)),
            ]),
        ),
        ("assumptions", Json::Arr(check.assumptions.iter().map(|a| (*a).into()).collect())),
        ("wall_s", Json::Num(t0.elapsed().as_secs_f64())),
        ("violations", (violations.len() as u64).into()),
    ]);
    if let Some(p) = args.get("--evidence") {
        if let Some(d) = Path::new(p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(p, ev.render()).expect("write evidence");
    }
    for (s, w) in &listed {
        if known_hit.contains_key(s) {
            println!("KNOWN-FINDING: property={} {}", check.property, w);
        } else {
            println!("note: listed finding {s} was not reproduced in this run");
        }
    }
    for (_, p, _) in &violations {
        println!("VIOLATION property={} replay={}", check.property, p.display());
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
