//! Hashing and bloom filters (C36), time units (C37), dedup and ids (C38).
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};
use utils::duration::CnosDuration;
use utils::id_generator::IDGenerator;
use utils::precision::{timestamp_convert, Precision};
use utils::{dedup_front_by, dedup_front_by_key, BkdrHasher, BloomFilter};

pub fn hashing() -> Check {
    Check {
        property: "C36",
        level: "exploration",
        assumptions: &["hashes are compared with independently written FNV-1a, BKDR and with std's SipHash-1-3 where reachable; XXH64 only through the filter's behaviour"],
        subs: vec![
            Sub { name: "no_false_negative", rule: "insert sets of keys into filters of many sizes, query after every step, also after bytes()/with_data and serde round trips and inserts that follow; non-trivial: ≥ 4 keys and a reload in between", quick: 200_000, thorough: 8_000_000, serial: false, f: bloom },
            Sub { name: "useful", rule: "a filter with at least 16 bits per key rejects at least three quarters of fresh keys, an empty one rejects every key; non-trivial: ≥ 32 keys", quick: 20_000, thorough: 800_000, serial: false, f: useful },
            Sub { name: "bkdr", rule: "BkdrHasher over arbitrary splits vs the defining recurrence; non-trivial: at least two non-empty pieces", quick: 250_000, thorough: 10_000_000, serial: false, f: bkdr },
        ],
    }
}

pub fn time() -> Check {
    Check {
        property: "C37",
        level: "exploration",
        assumptions: &["rounding is towards zero, as integer division"],
        subs: vec![
            Sub { name: "timestamps", rule: "timestamp_convert for all nine unit pairs vs 128-bit arithmetic, plus there-and-back; non-trivial: finer unit with a result near the i64 limits, or a rounded value", quick: 2_000_000, thorough: 80_000_000, serial: false, f: stamps },
            Sub { name: "precisions", rule: "names, codes, arrow units and serde of Precision; non-trivial: a name in mixed case", quick: 50_000, thorough: 2_000_000, serial: false, f: precisions },
            Sub { name: "durations", rule: "durations from text (days, INF, unit lists), from days and from Duration, to each unit vs 128-bit arithmetic; display reads back; non-trivial: a saturated or a multi-unit duration", quick: 500_000, thorough: 20_000_000, serial: false, f: durations },
        ],
    }
}

pub fn seqs() -> Check {
    Check {
        property: "C38",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            Sub { name: "dedup", rule: "vectors with runs of equal keys vs a reference that keeps the last of each run, with elements that count their drops and with merging closures; non-trivial: a run of 3 or more", quick: 500_000, thorough: 20_000_000, serial: false, f: dedup },
            Sub { name: "dedup_panic", rule: "the comparison panics at a chosen call: no element is dropped twice and the survivors are in order; non-trivial: it did panic", quick: 50_000, thorough: 2_000_000, serial: false, f: dedup_panic },
            Sub { name: "ids", rule: "threads draw from clones of one generator: ids are unique and contiguous, set() restarts; non-trivial: 2 or more threads", quick: 2_500, thorough: 100_000, serial: true, f: ids },
        ],
    }
}

fn key(g: &mut G) -> Vec<u8> {
    match g.below(3) {
        0 => g.below(2000).to_be_bytes().to_vec(),
        1 => g.bytes(0, 12),
        _ => format!("series{}", g.below(5000)).into_bytes(),
    }
}

fn bloom(g: &mut G) -> R {
    let bits = match g.below(4) {
        0 => g.below(40),
        1 => *g.pick(&[0, 1, 7, 8, 9, 16, 63, 64, 65, 512, 1024, 100_000]),
        _ => 8 + g.below(5000),
    };
    let mut f = if g.chance(1, 6) { BloomFilter::default() } else { BloomFilter::new(bits) };
    g.show("bits", &bits);
    ensure!(f.len().is_power_of_two(), "a filter of {} bytes", f.len());
    ensure!(!f.is_empty(), "a filter without bits");
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut reloaded = false;
    let mut later = false;
    for _ in 0..g.usize(1, 12 + g.size as usize / 4) {
        match g.weighted(&[6, 1, 1, 1]) {
            0 => {
                let k = key(g);
                g.show("insert", &k);
                f.insert(&k);
                keys.push(k);
                later = reloaded;
            }
            1 => {
                g.note(|| "bytes/with_data".into());
                let n = BloomFilter::with_data(f.bytes());
                ensure_eq!(n, f, "with_data(bytes())");
                f = n;
                reloaded = true;
            }
            2 => {
                g.note(|| "serde".into());
                let b = bincode::serialize(&f).map_err(|e| e.to_string())?;
                let n: BloomFilter = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                ensure_eq!(n, f, "serde");
                f = n;
                reloaded = true;
            }
            _ => f = f.clone(),
        }
        for k in &keys {
            ensure!(f.maybe_contains(k), "{k:?} was inserted and is not found");
        }
    }
    if keys.len() >= 4 && later {
        g.nontrivial();
    }
    Ok(())
}

fn useful(g: &mut G) -> R {
    let n = 1 + g.below(200);
    let mut f = BloomFilter::new((n * 16).max(512));
    let base = g.bits() >> 16;
    for i in 0..200 {
        ensure!(!f.maybe_contains(&(base + i).to_be_bytes()), "an empty filter contains a key");
    }
    let mut empty = true;
    for i in 0..n {
        f.insert(&(base + i).to_be_bytes());
        empty = false;
    }
    ensure!(!empty, "no keys");
    if n >= 32 {
        g.nontrivial();
    }
    g.show("keys, first", &(n, base));
    let hits = (0..1000u64).filter(|i| f.maybe_contains(&(base + 1_000_000 + i * 7919).to_be_bytes())).count();
    ensure!(hits < 250, "{hits} of 1000 absent keys are reported as present ({n} keys, {} bits)", f.len() * 8);
    Ok(())
}

fn bkdr(g: &mut G) -> R {
    let parts = g.vec(0, 5, |g| g.bytes(0, 20));
    g.show("parts", &parts);
    let start = if g.bool() { 0 } else { g.u64_any() };
    let prefix = g.u64_any();
    let mut want = start;
    for b in parts.iter().flatten() {
        want = want.wrapping_mul(1313).wrapping_add(*b as u64);
    }
    if parts.iter().filter(|p| !p.is_empty()).count() > 1 {
        g.nontrivial();
    }
    let mut h = BkdrHasher::with_number(start);
    for p in &parts {
        if g.bool() {
            h.hash_with(p);
        } else {
            h.write(p);
        }
    }
    ensure_eq!(h.number(), want, "number");
    ensure_eq!(h.finish(), want, "finish");
    ensure_eq!(h.number_with_prefix(), want as u128, "without a prefix");
    if start == 0 {
        let mut h = BkdrHasher::with_prefix(prefix);
        let mut d = BkdrHasher::new();
        for p in &parts {
            h.write(p);
            d.hash_with(p);
        }
        ensure_eq!(h.number_with_prefix(), (prefix as u128) * (1u128 << 64) + want as u128, "with a prefix");
        ensure_eq!((h.number(), d.number()), (want, want), "with a prefix, new()");
    }
    Ok(())
}

const PS: [Precision; 3] = [Precision::MS, Precision::US, Precision::NS];

fn unit(p: Precision) -> i128 {
    match p {
        Precision::MS => 1_000_000,
        Precision::US => 1_000,
        Precision::NS => 1,
    }
}

fn stamps(g: &mut G) -> R {
    let (a, b) = (*g.pick(&PS), *g.pick(&PS));
    let t = match g.below(3) {
        0 => g.i64_any(),
        1 => {
            let lim = *g.pick(&[i64::MAX / 1_000, i64::MIN / 1_000, i64::MAX / 1_000_000, i64::MIN / 1_000_000, 0]);
            lim + g.range(-2, 2)
        }
        _ => g.range(-3_000_000, 3_000_000),
    };
    g.show("convert", &(a, b, t));
    let exact = t as i128 * unit(a);
    let want = i64::try_from(exact / unit(b)).ok();
    if (unit(a) > unit(b) && t.unsigned_abs() > 1 << 40) || exact % unit(b) != 0 {
        g.nontrivial();
    }
    let got = timestamp_convert(a, b, t);
    ensure_eq!(got, want, "timestamp_convert({a:?}, {b:?}, {t})");
    if let Some(v) = got {
        // there and back loses less than one unit of the coarser
        if let Some(back) = timestamp_convert(b, a, v) {
            let d = (back as i128 - t as i128).abs() * unit(a);
            ensure!(d < unit(b).max(1), "{t} {a:?} → {v} {b:?} → {back}");
        }
    }
    Ok(())
}

fn precisions(g: &mut G) -> R {
    let p = *g.pick(&PS);
    let name = p.to_string();
    ensure_eq!(name.as_str(), ["MS", "US", "NS"][p as usize], "name");
    let mixed: String = name.chars().map(|c| if g.bool() { c.to_ascii_lowercase() } else { c }).collect();
    if mixed != name {
        g.nontrivial();
    }
    ensure_eq!(Precision::new(&mixed), Some(p), "Precision::new({mixed:?})");
    let t = g.text(3);
    let want = match t.to_uppercase().as_str() {
        "MS" => Some(Precision::MS),
        "US" => Some(Precision::US),
        "NS" => Some(Precision::NS),
        _ => None,
    };
    ensure_eq!(Precision::new(&t), want, "Precision::new({t:?})");
    ensure_eq!(Precision::from(p as u8), p, "code");
    let u: datafusion::arrow::datatypes::TimeUnit = p.into();
    ensure_eq!(format!("{u:?}"), ["Millisecond", "Microsecond", "Nanosecond"][p as usize], "arrow unit");
    ensure_eq!(Precision::from(u), p, "from the arrow unit");
    let b = bincode::serialize(&p).map_err(|e| e.to_string())?;
    ensure_eq!(bincode::deserialize::<Precision>(&b).ok(), Some(p), "serde");
    Ok(())
}

fn check_units(d: &CnosDuration, ns: Option<u128>, what: &str) -> R {
    let cap = |v: u128| v.min(i64::MAX as u128) as i64;
    let w = match ns {
        None => (i64::MAX, i64::MAX, i64::MAX),
        Some(n) => (cap(n), cap(n / 1_000), cap(n / 1_000_000)),
    };
    ensure_eq!((d.to_nanoseconds(), d.to_microseconds(), d.to_millisecond()), w, "{what} in ns, us, ms");
    ensure_eq!((d.to_precision(Precision::NS), d.to_precision(Precision::US), d.to_precision(Precision::MS)), w, "{what} to_precision");
    Ok(())
}

fn durations(g: &mut G) -> R {
    const DAY: u128 = 86_400 * 1_000_000_000;
    let (d, ns, what): (CnosDuration, Option<u128>, String) = match g.below(6) {
        0 => {
            let n = if g.bool() { g.below(1000) } else { g.u64_any() };
            let t = n.to_string();
            let d = CnosDuration::new(&t);
            ensure!(d.is_some(), "{t:?} days are refused");
            ensure_eq!(d.clone(), Some(CnosDuration::new_with_day(n)), "new_with_day");
            // more seconds than u64 can hold: for ever
            let ns = (n <= u64::MAX / 86_400).then_some(n as u128 * DAY);
            (d.unwrap(), ns, t)
        }
        1 => {
            let t = g.pick(&["inf", "INF", "Inf", "iNF"]).to_string();
            let d = CnosDuration::new(&t);
            ensure_eq!(d, Some(CnosDuration::new_inf()), "{t:?}");
            (CnosDuration::new_inf(), None, t)
        }
        2 => {
            let x = Duration::new(g.u64_any(), g.below(1_000_000_000) as u32);
            (CnosDuration::new_with_duration(x), Some(x.as_nanos()), format!("{x:?}"))
        }
        3 => {
            let x = Duration::new(g.below(1 << 36), g.below(1_000_000_000) as u32);
            let inf = g.bool();
            (CnosDuration::init(x, inf), (!inf).then_some(x.as_nanos()), format!("init({x:?}, {inf})"))
        }
        4 => {
            const U: &[(&str, u128)] = &[
                ("d", DAY),
                ("days", DAY),
                ("h", 3_600_000_000_000),
                ("hours", 3_600_000_000_000),
                ("m", 60_000_000_000),
                ("min", 60_000_000_000),
                ("s", 1_000_000_000),
                ("sec", 1_000_000_000),
                ("ms", 1_000_000),
                ("us", 1_000),
                ("ns", 1),
                ("weeks", 7 * DAY),
            ];
            let mut t = String::new();
            let mut ns = 0;
            let k = g.usize(1, 4);
            for i in 0..k {
                let (u, f) = *g.pick(U);
                let n = g.below(1_000_000);
                if i > 0 && g.bool() {
                    t.push(' ');
                }
                t.push_str(&format!("{n}{u}"));
                ns += n as u128 * f;
            }
            if k > 1 {
                g.nontrivial();
            }
            match CnosDuration::new(&t) {
                Some(d) => (d, Some(ns), t),
                None => fail!("duration {t:?} is refused"),
            }
        }
        _ => {
            let t = g.pick(&["", "abc", "12 parsecs", "-1", "-5d", "1.5.2d", "d", "infinite", " ", "in f"]).to_string();
            g.show("bad", &t);
            ensure_eq!(CnosDuration::new(&t), None, "{t:?} is no duration");
            return Ok(());
        }
    };
    g.show("duration", &what);
    check_units(&d, ns, &what)?;
    if ns.map_or(true, |n| n > i64::MAX as u128) {
        g.nontrivial();
    }
    let shown = d.to_string();
    match ns {
        None => ensure_eq!(shown.as_str(), "INF", "display of {what}"),
        Some(n) => match CnosDuration::new(&shown) {
            // what is shown with years or months is shown in these units
            Some(b) => {
                if n < 28 * DAY {
                    check_units(&b, Some(n), &format!("{what} shown as {shown:?}"))?;
                    ensure_eq!(b.duration.as_nanos(), n, "{what} shown as {shown:?}");
                } else {
                    let back = b.duration.as_nanos();
                    ensure_eq!(back, n, "{what} shown as {shown:?}");
                }
            }
            // the text may name more seconds than fit
            None => ensure!(n > u64::MAX as u128 * 900_000_000, "{what} is shown as {shown:?}, which is no duration"),
        },
    }
    let b = bincode::serialize(&d).map_err(|e| e.to_string())?;
    ensure_eq!(bincode::deserialize::<CnosDuration>(&b).ok(), Some(d), "serde");
    Ok(())
}

#[derive(Debug)]
struct El {
    k: u8,
    id: usize,
    sum: u64,
    drops: Arc<Vec<AtomicUsize>>,
}

impl Drop for El {
    fn drop(&mut self) {
        self.drops[self.id].fetch_add(1, Ordering::Relaxed);
    }
}

fn elems(g: &mut G) -> (Vec<El>, Arc<Vec<AtomicUsize>>, Vec<u8>) {
    let n = g.usize(0, 3 + g.size as usize / 3);
    let alphabet = 1 + g.below(4);
    let ks: Vec<u8> = (0..n).map(|_| g.below(alphabet) as u8).collect();
    let drops: Arc<Vec<AtomicUsize>> = Arc::new((0..n).map(|_| AtomicUsize::new(0)).collect());
    let v = ks.iter().enumerate().map(|(id, k)| El { k: *k, id, sum: 1, drops: drops.clone() }).collect();
    (v, drops, ks)
}

fn runs(ks: &[u8]) -> Vec<(usize, u64)> {
    // (index of the last, length)
    let mut out: Vec<(usize, u64)> = vec![];
    for (i, k) in ks.iter().enumerate() {
        if i > 0 && ks[i - 1] == *k {
            let l = out.last_mut().unwrap();
            *l = (i, l.1 + 1);
        } else {
            out.push((i, 1));
        }
    }
    out
}

fn dedup(g: &mut G) -> R {
    let (mut v, drops, ks) = elems(g);
    g.show("keys", &ks);
    let rs = runs(&ks);
    if rs.iter().any(|r| r.1 >= 3) {
        g.nontrivial();
    }
    let merge = g.bool();
    if merge {
        dedup_front_by(&mut v, |a, b| {
            let same = a.k == b.k;
            if same {
                b.sum += a.sum;
            }
            same
        });
    } else {
        dedup_front_by_key(&mut v, |e| e.k);
    }
    ensure_eq!(v.iter().map(|e| e.id).collect::<Vec<_>>(), rs.iter().map(|r| r.0).collect::<Vec<_>>(), "the last of every run");
    if merge {
        ensure_eq!(v.iter().map(|e| e.sum).collect::<Vec<_>>(), rs.iter().map(|r| r.1).collect::<Vec<_>>(), "merged");
    }
    for (i, d) in drops.iter().enumerate() {
        let kept = rs.iter().any(|r| r.0 == i);
        ensure_eq!(d.load(Ordering::Relaxed), !kept as usize, "drops of element {i}");
    }
    drop(v);
    for (i, d) in drops.iter().enumerate() {
        ensure_eq!(d.load(Ordering::Relaxed), 1, "drops of element {i} in the end");
    }
    Ok(())
}

fn dedup_panic(g: &mut G) -> R {
    let (mut v, drops, ks) = elems(g);
    let at = g.below(ks.len() as u64 + 1);
    g.show("keys, panic at", &(&ks, at));
    let mut calls = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        dedup_front_by(&mut v, |a, b| {
            if calls == at {
                panic!("comparison");
            }
            calls += 1;
            a.k == b.k
        })
    }));
    if r.is_err() {
        g.nontrivial();
    }
    for (i, d) in drops.iter().enumerate() {
        ensure!(d.load(Ordering::Relaxed) <= 1, "element {i} dropped twice");
    }
    let left: Vec<usize> = v.iter().map(|e| e.id).collect();
    ensure!(left.windows(2).all(|w| w[0] < w[1]), "what is left is out of order: {left:?}");
    for i in &left {
        ensure_eq!(drops[*i].load(Ordering::Relaxed), 0, "element {i} is in the vector and dropped");
    }
    drop(v);
    for (i, d) in drops.iter().enumerate() {
        ensure!(d.load(Ordering::Relaxed) <= 1, "element {i} dropped twice");
    }
    Ok(())
}

fn ids(g: &mut G) -> R {
    let start = *g.pick(&[0, 1, 1000, u64::MAX / 2]);
    let threads = g.usize(1, 4);
    let per = g.usize(1, 300);
    if threads > 1 {
        g.nontrivial();
    }
    let gen = IDGenerator::new(if g.bool() { start } else { 5 });
    gen.set(start);
    g.show("threads, per", &(threads, per, start));
    let all: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let gen = gen.clone();
                s.spawn(move || (0..per).map(|_| gen.next_id()).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for v in &all {
        ensure!(v.windows(2).all(|w| w[0] < w[1]), "ids of one thread go back");
    }
    let set: HashSet<u64> = all.iter().flatten().copied().collect();
    ensure_eq!(set.len(), threads * per, "distinct ids");
    let min = all.iter().flatten().min().copied();
    let max = all.iter().flatten().max().copied();
    ensure_eq!((min, max), (Some(start), Some(start + (threads * per) as u64 - 1)), "range of ids");
    ensure_eq!(gen.next_id(), start + (threads * per) as u64, "the next id");
    let _ = BTreeMap::<u8, u8>::new();
    Ok(())
}
