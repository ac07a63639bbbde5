//! Rate and count buckets against an integer model, with a controlled clock.
use limiter_bucket::{CountBucket, RateBucket};
use pbt::{ensure, ensure_eq, Check, Sub, G, R};

use crate::clock;

pub fn check() -> Check {
    Check {
        property: "C31",
        level: "exploration",
        assumptions: &[
            "the wall clock of the case's thread is replaced (clock_gettime); it may stand still, advance and step back",
            "a millisecond is the bucket's resolution",
        ],
        subs: vec![
            Sub { name: "model", rule: "configs × acquire/acquire_closed/serialise/advance-clock sequences vs an exact integer model of the balance; non-trivial: a refill happened and a request was refused or cut short", quick: 250_000, thorough: 10_000_000, serial: false, f: model },
            Sub { name: "rate_bound", rule: "greedy consumption over a window: granted ≤ initial + refill × elapsed intervals, and = min(max, …) when idle; non-trivial: more than one interval passed", quick: 100_000, thorough: 4_000_000, serial: false, f: bound },
            Sub { name: "extremes", rule: "refill/max/interval/elapsed time near the integer limits and degenerate intervals; no panic, balance ≤ max; non-trivial: time passed and tokens × refill is beyond 2^32", quick: 100_000, thorough: 4_000_000, serial: false, f: extremes },
            Sub { name: "count", rule: "CountBucket inc/dec/fetch/serialise vs an i64; non-trivial: both inc and dec", quick: 50_000, thorough: 2_000_000, serial: false, f: count },
            Sub { name: "concurrent", rule: "4 threads take from one bucket (clock frozen by a huge interval): grants sum to the initial balance exactly; non-trivial: demand exceeded supply", quick: 2_500, thorough: 100_000, serial: true, f: concurrent },
        ],
    }
}

const T0: i128 = 1_700_000_000_000_000_000;

#[derive(Debug, Clone, Copy)]
struct Cfg {
    max: Option<usize>,
    initial: usize,
    refill: usize,
    interval: i64,
}

impl Cfg {
    fn json(&self) -> String {
        serde_json::json!({"max": self.max, "initial": self.initial, "refill": self.refill, "interval": self.interval}).to_string()
    }
    fn build(&self) -> RateBucket {
        let c: config::common::RateBucketConfig = serde_json::from_str(&self.json()).expect("config");
        RateBucket::from(&c)
    }
}

struct Model {
    refill: u128,
    interval: i128,
    max: u128,
    balance: u128,
    /// ns
    deadline: i128,
}

impl Model {
    fn new(c: &Cfg, now: i128) -> Model {
        let max = c.max.unwrap_or_else(|| c.refill.max(c.initial).saturating_mul(10));
        Model {
            refill: c.refill as u128,
            interval: c.interval as i128,
            max: max as u128,
            balance: c.initial.min(max) as u128,
            deadline: now + c.interval as i128 * 1_000_000,
        }
    }
    /// tokens are added when the deadline passes: one refill for it and one for
    /// every whole interval since; the next deadline is one interval away
    /// from the last boundary that passed.
    fn tick(&mut self, now: i128) -> bool {
        if now < self.deadline {
            return false;
        }
        let since = (now - self.deadline) / 1_000_000;
        let n = since / self.interval + 1;
        self.balance = (self.balance + n as u128 * self.refill).min(self.max);
        self.deadline += n * self.interval * 1_000_000;
        true
    }
}

fn cfg(g: &mut G) -> Cfg {
    let refill = 1 + g.below(40) as usize;
    Cfg {
        max: if g.chance(1, 3) { None } else { Some(1 + g.below(120) as usize) },
        initial: g.below(150) as usize,
        refill,
        interval: 1 + g.below(300) as i64,
    }
}

fn model(g: &mut G) -> R {
    let _r = clock::Restore;
    let c = cfg(g);
    let mut now = T0 + g.below(1_000_000_000) as i128;
    clock::set(Some(now));
    let mut b = c.build();
    let mut m = Model::new(&c, now);
    g.show("config", &c);
    ensure_eq!(b.balance() as u128, m.balance, "initial balance");
    ensure_eq!(b.max() as u128, m.max, "max");
    ensure_eq!(b.refill() as u128, m.refill, "refill");
    ensure_eq!(b.interval().num_milliseconds() as i128, m.interval, "interval");
    let n = 3 + g.size / 3;
    let (mut refilled, mut short) = (false, false);
    for i in 0..n {
        if g.below(n + 1) == 0 {
            break;
        }
        match g.weighted(&[5, 4, 4, 1, 1]) {
            0 => {
                let p = g.below(60) as usize;
                if p > 0 {
                    refilled |= m.tick(now);
                }
                let want = p as u128 <= m.balance;
                if want {
                    m.balance -= p as u128;
                }
                short |= !want;
                let got = b.acquire(p).is_ok();
                g.note(|| format!("op {i}: acquire({p}) -> {got}"));
                ensure_eq!(got, want, "op {i} acquire({p})");
            }
            1 => {
                let p = g.below(60) as usize;
                if p > 0 {
                    refilled |= m.tick(now);
                }
                let want = (p as u128).min(m.balance);
                m.balance -= want;
                short |= want < p as u128;
                let got = b.acquire_closed(p);
                g.note(|| format!("op {i}: acquire_closed({p}) -> {got}"));
                ensure_eq!(got as u128, want, "op {i} acquire_closed({p})");
            }
            2 => {
                let ms = match g.below(4) {
                    0 => g.below(4) as i128,
                    1 => m.interval,
                    2 => g.below(m.interval as u64 * 3) as i128,
                    _ => g.below(3000) as i128,
                };
                now += ms * 1_000_000;
                clock::set(Some(now));
                g.note(|| format!("op {i}: clock +{ms} ms"));
            }
            3 => {
                // the clock may step back (NTP): no tokens appear
                now -= g.below(500) as i128 * 1_000_000;
                clock::set(Some(now));
                g.note(|| format!("op {i}: clock back"));
            }
            _ => {
                let t = if g.bool() {
                    serde_json::from_str(&serde_json::to_string(&b).unwrap()).map_err(|e| format!("reload: {e}"))?
                } else {
                    bincode::deserialize::<RateBucket>(&bincode::serialize(&b).unwrap()).map_err(|e| format!("reload: {e}"))?
                };
                ensure!(t == b, "op {i}: reloaded bucket differs: {t:?} vs {b:?}");
                b = t;
                g.note(|| format!("op {i}: reload"));
                g.label("reloaded");
            }
        }
        ensure_eq!(b.balance() as u128, m.balance, "balance after op {i}");
        ensure!(b.balance() <= b.max(), "balance above max after op {i}");
    }
    if refilled && short {
        g.nontrivial();
    }
    Ok(())
}

fn bound(g: &mut G) -> R {
    let _r = clock::Restore;
    let c = cfg(g);
    let mut now = T0;
    clock::set(Some(now));
    let b = c.build();
    g.show("config", &c);
    let max = b.max();
    let initial = b.balance();
    let mut granted = 0u128;
    // microseconds: whole milliseconds are not assumed here
    let steps: Vec<u64> = g.vec(1, 40, |g| g.below(700_000));
    g.show("steps (us)", &steps);
    let mut elapsed_us = 0u128;
    let mut idle_ok = false;
    for s in &steps {
        now += *s as i128 * 1_000;
        elapsed_us += *s as u128;
        let elapsed = elapsed_us / 1000;
        clock::set(Some(now));
        let got = b.acquire_closed(usize::MAX);
        ensure!(got <= max, "granted {got} at once, above max {max}");
        granted += got as u128;
        let allowed = initial as u128 + c.refill as u128 * (elapsed / c.interval as u128);
        ensure!(granted <= allowed, "granted {granted} in {elapsed} ms; at most {allowed} are due");
        ensure_eq!(b.balance(), 0usize, "balance after taking everything");
    }
    // idle long enough: full
    let need = (max / c.refill + 2) as i128 * c.interval as i128;
    now += need * 1_000_000;
    clock::set(Some(now));
    ensure_eq!(b.acquire_closed(usize::MAX), max, "after a long idle time the bucket is full");
    idle_ok |= elapsed_us / 1000 > c.interval as u128;
    if idle_ok {
        g.nontrivial();
    }
    Ok(())
}

fn extremes(g: &mut G) -> R {
    let _r = clock::Restore;
    let big = |g: &mut G| match g.below(4) {
        0 => g.below(10) as usize,
        1 => 1usize << g.below(64),
        2 => usize::MAX - g.below(3) as usize,
        _ => g.bits() as usize,
    };
    let c = Cfg {
        max: if g.bool() { None } else { Some(big(g)) },
        initial: big(g),
        refill: big(g),
        interval: match g.below(3) {
            0 => g.below(3) as i64,
            1 => 1 << g.below(40),
            _ => g.below(1000) as i64,
        },
    };
    g.show("config", &c);
    let mut now = T0;
    clock::set(Some(now));
    let b = c.build();
    ensure!(b.balance() <= b.max(), "initial balance above max");
    let n = 1 + g.below(6);
    for i in 0..n {
        let ms = match g.below(3) {
            0 => g.below(10) as i128,
            1 => 1i128 << g.below(41),
            _ => g.below(1_000_000) as i128,
        };
        now += ms * 1_000_000;
        clock::set(Some(now));
        let p = big(g);
        let before = b.balance();
        let closed = g.bool();
        g.note(|| format!("op {i}: +{ms} ms, take {p} (closed {closed})"));
        if closed {
            let got = b.acquire_closed(p);
            ensure!(got <= p && got <= b.max(), "op {i}: granted {got} of {p}, max {}", b.max());
        } else {
            let ok = b.acquire(p).is_ok();
            ensure!(!ok || p <= b.max(), "op {i}: granted {p}, max {}", b.max());
            ensure!(ok || b.balance() >= before.min(b.max()), "op {i}: a refused request took tokens");
        }
        ensure!(b.balance() <= b.max(), "op {i}: balance above max");
        if ms > 0 && (c.refill as u128) * (ms as u128) > 1 << 32 {
            g.nontrivial();
        }
    }
    Ok(())
}

fn count(g: &mut G) -> R {
    let init = g.range(-1000, 1000);
    let max = if g.bool() { None } else { Some(g.range(0, 1000)) };
    let c: config::common::CountBucketConfig = serde_json::from_value(serde_json::json!({"max": max, "initial": init})).unwrap();
    let mut b = match g.below(3) {
        0 => CountBucket::from(&c),
        1 => CountBucket::new_with_init(init, max),
        _ => {
            let mut b = CountBucket::new(max);
            ensure_eq!(b.fetch(), 0, "new bucket is empty");
            b.inc(init);
            b
        }
    };
    let mut m = init;
    let ops: Vec<i64> = g.vec(0, 30, |g| g.range(-500, 500));
    g.show("init,max,ops", &(init, max, &ops));
    for o in &ops {
        if *o >= 0 {
            b.inc(*o)
        } else {
            b.dec(-*o)
        }
        m += o;
        ensure_eq!(b.fetch(), m, "count after {o}");
        ensure_eq!(b.max(), max, "max");
    }
    let r: CountBucket = serde_json::from_str(&serde_json::to_string(&b).unwrap()).map_err(|e| e.to_string())?;
    ensure_eq!((r.fetch(), r.max()), (m, max), "reloaded");
    if ops.iter().any(|o| *o > 0) && ops.iter().any(|o| *o < 0) {
        g.nontrivial();
    }
    Ok(())
}

fn concurrent(g: &mut G) -> R {
    let c = Cfg { max: Some(5000), initial: g.below(2000) as usize, refill: 1, interval: 1 << 40 };
    let demand: Vec<Vec<(usize, bool)>> = (0..4).map(|_| g.vec(5, 80, |g| (1 + g.below(30) as usize, g.bool()))).collect();
    let b = c.build();
    let granted: usize = std::thread::scope(|s| {
        let hs: Vec<_> = demand
            .iter()
            .map(|d| {
                let b = &b;
                s.spawn(move || d.iter().map(|(p, closed)| if *closed { b.acquire_closed(*p) } else if b.acquire(*p).is_ok() { *p } else { 0 }).sum::<usize>())
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    let want: usize = demand.iter().flatten().map(|d| d.0).sum();
    g.show("initial, demand, granted", &(c.initial, want, granted));
    ensure_eq!(granted + b.balance(), c.initial, "granted + left");
    if want > c.initial {
        g.nontrivial();
    }
    Ok(())
}
