//! Metrics: what a report says is what was recorded.
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

use metrics::average::U64Average;
use metrics::count::U64Counter;
use metrics::duration::{DurationCounter, DurationGauge, DurationHistogram, DurationHistogramOptions};
use metrics::gauge::{GaugeWrap, U64Gauge};
use metrics::histogram::{U64Histogram, U64HistogramOptions};
use metrics::label::{assert_legal_key, Labels};
use metrics::metric::Metric;
use metrics::metric_register::MetricsRegister;
use metrics::prom_reporter::PromReporter;
use metrics::{Measure, DURATION_MAX};
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};

pub fn check() -> Check {
    Check {
        property: "C34",
        level: "exploration",
        assumptions: &[
            "durations fit into u64 nanoseconds (the recorders state this by panicking)",
            "the text is read back by an independent parser of the Prometheus exposition format",
        ],
        subs: vec![
            Sub { name: "report", rule: "register/sub-register/metric/record/replace/remove/report sequences vs a model of every series; the report is parsed back and compared as a multiset; non-trivial: a report with at least 3 families, one of them from a sub-register", quick: 75_000, thorough: 3_000_000, serial: false, f: report },
            Sub { name: "recorders", rule: "one recorder of each kind vs its model, read with fetch(); non-trivial: a histogram value beyond the last bucket or a sum that wraps", quick: 75_000, thorough: 3_000_000, serial: false, f: recorders },
            Sub { name: "labels", rule: "labels from every supported array form, legal-key assertion; non-trivial: a missing value or an illegal key", quick: 50_000, thorough: 2_000_000, serial: false, f: labels },
            Sub { name: "concurrent", rule: "threads record through recorders they look up themselves while another reports: nothing is lost or counted twice, averages stay within the values; non-trivial: always", quick: 1_000, thorough: 40_000, serial: true, f: concurrent },
        ],
    }
}

const KEYS: &[&str] = &["tenant", "database", "node_id", "a", "z9", "type"];

type L = BTreeMap<&'static str, String>;

fn gen_labels(g: &mut G, max: usize) -> L {
    let mut l = L::new();
    for _ in 0..g.usize(0, max) {
        let k = *g.pick(KEYS);
        let v = match g.below(4) {
            0 => g.pick(&["x", "y"]).to_string(),
            1 => g.text(8),
            2 => g.pick(&["a\"b", "c\\", "\\n", "\n", "", "\\\"", "x\ny\"z\\"]).to_string(),
            _ => g.ident(6),
        };
        l.insert(k, v);
    }
    l
}

fn to_labels(l: &L) -> Labels {
    Labels(l.iter().map(|(k, v)| (*k, Cow::Owned(v.clone()))).collect())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    Counter,
    Gauge,
    Average,
    DCounter,
    DGauge,
    Hist,
    DHist,
    Wrap,
}
use Kind::*;
const KINDS: &[Kind] = &[Counter, Gauge, Average, DCounter, DGauge, Hist, DHist, Wrap];

#[derive(Debug, Clone)]
enum Val {
    /// counters, gauges (ns for durations)
    N(u64),
    Avg { n: u64, total: u64 },
    H { total: u64, buckets: Vec<(u64, u64)> },
    Opt(Option<u64>),
}

enum Rec {
    Counter(U64Counter),
    Gauge(U64Gauge),
    Average(U64Average),
    DCounter(DurationCounter),
    DGauge(DurationGauge),
    Hist(U64Histogram),
    DHist(DurationHistogram),
}

enum Met {
    Counter(Metric<U64Counter>),
    Gauge(Metric<U64Gauge>),
    Average(Metric<U64Average>),
    DCounter(Metric<DurationCounter>),
    DGauge(Metric<DurationGauge>),
    Hist(Metric<U64Histogram>),
    DHist(Metric<DurationHistogram>),
    Wrap(Metric<GaugeWrap>),
}

/// One registered metric of the model. Cells are shared with handles.
struct MMet {
    reg: Option<usize>,
    name: String,
    help: String,
    kind: Kind,
    buckets: Vec<u64>,
    labels: L,
    series: BTreeMap<L, usize>,
}

fn ns(n: u64) -> Duration {
    Duration::from_nanos(n)
}

fn value(g: &mut G) -> u64 {
    match g.below(4) {
        0 => g.below(30),
        1 => g.below(2_000_000_000),
        2 => g.u64_any(),
        _ => *g.pick(&[0, 1, 5, 10, 11, u64::MAX, u64::MAX - 1, 1_000_000, 1_000_001]),
    }
}

fn gen_buckets(g: &mut G) -> Vec<u64> {
    match g.below(4) {
        0 => g.vec(0, 5, |g| g.below(30)),
        1 => {
            let mut v = g.vec(0, 4, |g| value(g));
            v.push(u64::MAX);
            v
        }
        2 => vec![1, 5, 10],
        _ => g.vec(0, 5, |g| value(g)),
    }
}

fn record(val: &mut Val, rec: &Rec, v: u64, times: u64) {
    match (rec, val) {
        (Rec::Counter(c), Val::N(m)) => {
            if v == 1 {
                c.inc_one()
            } else {
                c.inc(v)
            }
            *m = m.wrapping_add(v);
        }
        (Rec::Gauge(c), Val::N(m)) => {
            c.set(v);
            *m = v;
        }
        (Rec::Average(c), Val::Avg { n, total }) => {
            c.add(v);
            *n += 1;
            *total = total.wrapping_add(v);
        }
        (Rec::DCounter(c), Val::N(m)) => {
            c.inc(ns(v));
            *m = m.wrapping_add(v);
        }
        (Rec::DGauge(c), Val::N(m)) => {
            c.set(ns(v));
            *m = v;
        }
        (Rec::Hist(c), Val::H { total, buckets }) => {
            if times == 1 {
                c.record(v)
            } else {
                c.record_multiple(v, times)
            }
            hist(total, buckets, v, times);
        }
        (Rec::DHist(c), Val::H { total, buckets }) => {
            if times == 1 {
                c.record(ns(v))
            } else {
                c.record_multiple(ns(v), times)
            }
            hist(total, buckets, v, times);
        }
        _ => unreachable!(),
    }
}

/// A value counts in the first bucket it fits, values beyond the last are dropped.
fn hist(total: &mut u64, buckets: &mut [(u64, u64)], v: u64, times: u64) {
    for (le, n) in buckets.iter_mut() {
        if v <= *le {
            *n = n.wrapping_add(times);
            *total = total.wrapping_add(v.wrapping_mul(times));
            return;
        }
    }
}

fn fresh(kind: Kind, buckets: &[u64]) -> Val {
    match kind {
        Average => Val::Avg { n: 0, total: 0 },
        Hist | DHist => Val::H { total: 0, buckets: buckets.iter().map(|b| (*b, 0)).collect() },
        Wrap => Val::Opt(None),
        _ => Val::N(0),
    }
}

// ---- the text format -------------------------------------------------------

#[derive(Debug, Clone, PartialEq, PartialOrd)]
struct Sample {
    name: String,
    labels: BTreeMap<String, String>,
    value: String,
}

#[derive(Debug, Clone, PartialEq, PartialOrd)]
struct Family {
    name: String,
    ty: String,
    help: String,
    samples: Vec<Sample>,
}

fn unescape(s: &str, quote: bool) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('\\') => out.push('\\'),
            Some('n') => out.push('\n'),
            Some('"') if quote => out.push('"'),
            x => return Err(format!("bad escape {x:?} in {s:?}")),
        }
    }
    Ok(out)
}

fn parse(text: &str) -> Result<Vec<Family>, String> {
    let mut out: Vec<Family> = vec![];
    let mut help: Option<(String, String)> = None;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        if let Some(rest) = line.strip_prefix("# HELP ") {
            let (n, h) = rest.split_once(' ').unwrap_or((rest, ""));
            help = Some((n.into(), unescape(h, false)?));
        } else if let Some(rest) = line.strip_prefix("# TYPE ") {
            let (n, t) = rest.split_once(' ').ok_or("no type")?;
            let h = match help.take() {
                Some((hn, h)) if hn == n => h,
                None => String::new(),
                x => return Err(format!("help {x:?} before type of {n}")),
            };
            out.push(Family { name: n.into(), ty: t.into(), help: h, samples: vec![] });
        } else {
            let s = sample(line)?;
            out.last_mut().ok_or("a sample without a type")?.samples.push(s);
        }
    }
    Ok(out)
}

fn sample(line: &str) -> Result<Sample, String> {
    let e = |m: &str| format!("{m} in {line:?}");
    let end = line.find(['{', ' ']).ok_or_else(|| e("no value"))?;
    let name = line[..end].to_string();
    let mut rest = &line[end..];
    let mut labels = BTreeMap::new();
    if let Some(r) = rest.strip_prefix('{') {
        rest = r;
        loop {
            if let Some(r) = rest.strip_prefix('}') {
                rest = r;
                break;
            }
            let eq = rest.find('=').ok_or_else(|| e("no ="))?;
            let k = rest[..eq].trim_start_matches(',').to_string();
            rest = rest[eq + 1..].strip_prefix('"').ok_or_else(|| e("no quote"))?;
            let mut esc = false;
            let q = rest
                .char_indices()
                .find(|(_, c)| {
                    let hit = *c == '"' && !esc;
                    esc = *c == '\\' && !esc;
                    hit
                })
                .ok_or_else(|| e("no closing quote"))?
                .0;
            if labels.insert(k.clone(), unescape(&rest[..q], true)?).is_some() {
                return Err(e(&format!("label {k} twice")));
            }
            rest = &rest[q + 1..];
        }
    }
    let value = rest.strip_prefix(' ').ok_or_else(|| e("no value"))?;
    Ok(Sample { name, labels, value: value.to_string() })
}

// ---- what the report should say -------------------------------------------

fn num(f: f64) -> String {
    f.to_string()
}

fn expected(m: &MMet, cells: &mut [Val]) -> Option<Family> {
    let dur = matches!(m.kind, DCounter | DGauge | DHist);
    let f = |v: u64| if dur { num(ns(v).as_secs_f64()) } else { num(v as f64) };
    let (name, ty) = match m.kind {
        Counter | Average => (m.name.clone(), "counter"),
        Gauge | Wrap => (format!("{}_total", m.name), "gauge"),
        DCounter => (format!("{}_seconds_total", m.name), "counter"),
        DGauge => (format!("{}_seconds", m.name), "gauge"),
        Hist => (m.name.clone(), "histogram"),
        DHist => (format!("{}_seconds", m.name), "histogram"),
    };
    let mut samples = vec![];
    for (l, c) in &m.series {
        let mut labels = m.labels.clone();
        labels.extend(l.clone());
        let labels: BTreeMap<String, String> = labels.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let mut push = |suffix: &str, le: Option<String>, value: String| {
            let mut labels = labels.clone();
            if let Some(le) = le {
                labels.insert("le".into(), le);
            }
            samples.push(Sample { name: format!("{name}{suffix}"), labels, value });
        };
        match &mut cells[*c] {
            Val::N(v) => push("", None, f(*v)),
            Val::Avg { n, total } => {
                push("", None, f(if *n == 0 { 0 } else { *total / *n }));
                (*n, *total) = (0, 0); // reading starts a new period
            }
            Val::Opt(Some(v)) => push("", None, f(*v)),
            Val::Opt(None) => {}
            Val::H { total, buckets } => {
                let mut cum = 0u64;
                let mut inf = false;
                for (le, n) in buckets.iter() {
                    cum += n;
                    let le = if *le == u64::MAX {
                        inf = true;
                        "+Inf".to_string()
                    } else {
                        f(*le)
                    };
                    push("_bucket", Some(le), cum.to_string());
                }
                if !inf {
                    push("_bucket", Some("+Inf".into()), cum.to_string());
                }
                push("_sum", None, f(*total));
                push("_count", None, cum.to_string());
            }
        }
    }
    if samples.is_empty() {
        return None;
    }
    sort(&mut samples);
    Some(Family { name, ty: ty.into(), help: m.help.clone(), samples })
}

fn sort<T: PartialOrd>(v: &mut [T]) {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
}

fn scrape(report: impl FnOnce(&mut PromReporter<'_>)) -> Result<Vec<Family>, pbt::Fail> {
    let mut buf = vec![];
    {
        let mut r = PromReporter::new(&mut buf);
        report(&mut r);
    }
    let text = String::from_utf8(buf).map_err(|e| pbt::Fail::new(e.to_string()))?;
    let mut fams = parse(&text).map_err(|e| pbt::Fail::new(format!("unreadable report: {e}\n{text}")))?;
    for f in &mut fams {
        // `+Inf` and `inf` are the same number
        for s in &mut f.samples {
            if let Some(le) = s.labels.get_mut("le") {
                if le == "inf" {
                    *le = "+Inf".into();
                }
            }
        }
        sort(&mut f.samples);
    }
    sort(&mut fams);
    Ok(fams)
}

fn report(g: &mut G) -> R {
    let root_labels = if g.bool() { L::new() } else { gen_labels(g, 2) };
    let root = MetricsRegister::new(to_labels(&root_labels));
    let root = Arc::new(root);
    // registers: (handle, parent, full labels)
    let mut regs: Vec<(Arc<MetricsRegister>, Option<usize>, L)> = vec![(root, None, root_labels)];
    let mut mets: Vec<(Met, MMet)> = vec![];
    let mut cells: Vec<Val> = vec![];
    let mut recs: Vec<(Rec, usize)> = vec![];
    // detached metrics queued for one report: index of register, metrics
    let mut once: Vec<(usize, usize)> = vec![];
    let steps = 3 + g.usize(0, 4 + g.size as usize / 3);
    for _ in 0..steps {
        match g.weighted(&[2, 4, 5, 8, 2, 1, 1, 1]) {
            0 => {
                let p = g.below(regs.len() as u64) as usize;
                let l = gen_labels(g, 2);
                let mut full = regs[p].2.clone();
                full.extend(l.clone());
                g.note(|| format!("sub_register({p}, {l:?})"));
                let r = regs[p].0.sub_register(to_labels(&l));
                ensure_eq!(r.labels(), to_labels(&full), "labels of a sub-register");
                match regs.iter().position(|x| x.1 == Some(p) && x.2 == full) {
                    Some(i) => ensure!(Arc::ptr_eq(&regs[i].0, &r), "the same labels give another sub-register"),
                    None => regs.push((r, Some(p), full)),
                }
                let n = regs.iter().filter(|x| x.1 == Some(p)).count();
                ensure_eq!(regs[p].0.sub_registers().len(), n, "number of sub-registers of {p}");
            }
            1 => {
                let r = g.below(regs.len() as u64) as usize;
                let kind = *g.pick(KINDS);
                let name = format!("m{}_{:?}", g.below(3), kind).to_lowercase();
                let help = g.pick(&["some help", "line\nbreak", "back\\slash", "q\"uote", "x"]).to_string();
                let buckets = gen_buckets(g);
                let alone = g.chance(1, 5);
                g.note(|| format!("register({r}, {name}, {buckets:?}, one_time={alone})"));
                let met = if alone {
                    let ll = to_labels(&regs[r].2);
                    match kind {
                        Counter => Met::Counter(Metric::new_with_labels(name.clone(), help.clone(), ll, ())),
                        Gauge => Met::Gauge(Metric::new_with_labels(name.clone(), help.clone(), ll, ())),
                        Average => Met::Average(Metric::new_with_labels(name.clone(), help.clone(), ll, ())),
                        DCounter => Met::DCounter(Metric::new_with_labels(name.clone(), help.clone(), ll, ())),
                        DGauge => Met::DGauge(Metric::new_with_labels(name.clone(), help.clone(), ll, ())),
                        Hist => Met::Hist(Metric::new_with_labels(name.clone(), help.clone(), ll, U64HistogramOptions::new(buckets.clone()))),
                        DHist => Met::DHist(Metric::new_with_labels(name.clone(), help.clone(), ll, DurationHistogramOptions::new(buckets.iter().map(|b| ns(*b))))),
                        Wrap => Met::Wrap(Metric::new_with_labels(name.clone(), help.clone(), ll, ())),
                    }
                } else {
                    let reg = &regs[r].0;
                    let d = help.clone();
                    let n = name.clone();
                    match kind {
                        Counter => Met::Counter(reg.metric(n, d)),
                        Gauge => Met::Gauge(reg.metric(n, d)),
                        Average => Met::Average(reg.metric(n, d)),
                        DCounter => Met::DCounter(reg.metric(n, d)),
                        DGauge => Met::DGauge(reg.metric(n, d)),
                        Hist => Met::Hist(reg.register_metric(n, d, U64HistogramOptions::new(buckets.clone()))),
                        DHist => Met::DHist(reg.register_metric(n, d, DurationHistogramOptions::new(buckets.iter().map(|b| ns(*b))))),
                        Wrap => Met::Wrap(reg.register_metric(n, d, ())),
                    }
                };
                let mut buckets = buckets;
                buckets.sort();
                let m = MMet { reg: (!alone).then_some(r), name, help, kind, buckets, labels: regs[r].2.clone(), series: BTreeMap::new() };
                if alone {
                    mets.push((met, m));
                    let i = mets.len() - 1;
                    let b: Box<dyn Measure> = match &mets[i].0 {
                        Met::Counter(m) => Box::new(m.clone()),
                        Met::Gauge(m) => Box::new(m.clone()),
                        Met::Average(m) => Box::new(m.clone()),
                        Met::DCounter(m) => Box::new(m.clone()),
                        Met::DGauge(m) => Box::new(m.clone()),
                        Met::Hist(m) => Box::new(m.clone()),
                        Met::DHist(m) => Box::new(m.clone()),
                        Met::Wrap(m) => Box::new(m.clone()),
                    };
                    regs[r].0.append_onetime(vec![b]);
                    once.push((r, i));
                } else if let Some(i) = mets.iter().position(|(_, x)| x.reg == m.reg && x.name == m.name) {
                    mets[i].0 = met; // the one that is there already
                } else {
                    mets.push((met, m));
                }
            }
            2 if !mets.is_empty() => {
                // look up a recorder
                let i = g.below(mets.len() as u64) as usize;
                let l = gen_labels(g, 2);
                let (met, m) = &mut mets[i];
                if m.kind == Wrap {
                    let v = if g.chance(1, 4) { None } else { Some(value(g)) };
                    g.note(|| format!("{}: gauge function {l:?} = {v:?}", m.name));
                    let Met::Wrap(w) = met else { unreachable!() };
                    w.register_recorder(to_labels(&l), GaugeWrap::new(Arc::new(move || v)));
                    cells.push(Val::Opt(v));
                    m.series.insert(l, cells.len() - 1);
                    continue;
                }
                g.note(|| format!("{}: recorder {l:?}", m.name));
                let ll = to_labels(&l);
                let rec = match met {
                    Met::Counter(m) => Rec::Counter(m.recorder(ll)),
                    Met::Gauge(m) => Rec::Gauge(m.recorder(ll)),
                    Met::Average(m) => Rec::Average(m.recorder(ll)),
                    Met::DCounter(m) => Rec::DCounter(m.recorder(ll)),
                    Met::DGauge(m) => Rec::DGauge(m.recorder(ll)),
                    Met::Hist(m) => Rec::Hist(m.recorder(ll)),
                    Met::DHist(m) => Rec::DHist(m.recorder(ll)),
                    Met::Wrap(_) => unreachable!(),
                };
                let c = *m.series.entry(l).or_insert_with(|| {
                    cells.push(fresh(m.kind, &m.buckets));
                    cells.len() - 1
                });
                recs.push((rec, c));
            }
            3 if !recs.is_empty() => {
                let i = g.below(recs.len() as u64) as usize;
                let v = value(g);
                // the totals of a histogram's buckets stay in range
                let times = if g.chance(1, 4) { g.below(1000) } else { 1 };
                g.note(|| format!("record {v} x{times} (cell {})", recs[i].1));
                let c = recs[i].1;
                record(&mut cells[c], &recs[i].0, v, times);
            }
            4 if !mets.is_empty() => {
                let i = g.below(mets.len() as u64) as usize;
                let (met, m) = &mut mets[i];
                let l = if m.series.is_empty() || g.chance(1, 4) {
                    gen_labels(g, 2)
                } else {
                    let k = g.below(m.series.len() as u64) as usize;
                    m.series.keys().nth(k).unwrap().clone()
                };
                g.note(|| format!("{}: remove {l:?}", m.name));
                let ll = to_labels(&l);
                match met {
                    Met::Counter(m) => m.remove(ll),
                    Met::Gauge(m) => m.remove(ll),
                    Met::Average(m) => m.remove(ll),
                    Met::DCounter(m) => m.remove(ll),
                    Met::DGauge(m) => m.remove(ll),
                    Met::Hist(m) => m.remove(ll),
                    Met::DHist(m) => m.remove(ll),
                    Met::Wrap(m) => m.remove(ll),
                }
                m.series.remove(&l);
            }
            5 if !mets.is_empty() => {
                // a recorder made elsewhere takes the place of what was there
                let i = g.below(mets.len() as u64) as usize;
                let l = gen_labels(g, 1);
                let (met, m) = &mut mets[i];
                if let Met::Counter(mm) = met {
                    let c = U64Counter::default();
                    c.inc(3);
                    mm.register_recorder(to_labels(&l), c.clone());
                    cells.push(Val::N(3));
                    m.series.insert(l, cells.len() - 1);
                    recs.push((Rec::Counter(c), cells.len() - 1));
                }
            }
            6 if !mets.is_empty() => {
                // one metric alone
                let i = g.below(mets.len() as u64) as usize;
                let (met, m) = &mets[i];
                let got = scrape(|r| match met {
                    Met::Counter(m) => m.report(r),
                    Met::Gauge(m) => m.report(r),
                    Met::Average(m) => m.report(r),
                    Met::DCounter(m) => m.report(r),
                    Met::DGauge(m) => m.report(r),
                    Met::Hist(m) => m.report(r),
                    Met::DHist(m) => m.report(r),
                    Met::Wrap(m) => m.report(r),
                })?;
                let want: Vec<Family> = expected(m, &mut cells).into_iter().collect();
                ensure_eq!(got, want, "report of {}", m.name);
            }
            _ => check_report(g, &regs, &mets, &mut cells, &mut once)?,
        }
    }
    check_report(g, &regs, &mets, &mut cells, &mut once)
}

fn check_report(
    g: &mut G,
    regs: &[(Arc<MetricsRegister>, Option<usize>, L)],
    mets: &[(Met, MMet)],
    cells: &mut [Val],
    once: &mut Vec<(usize, usize)>,
) -> R {
    // a register reports itself and what is under it
    let at = g.below(regs.len() as u64) as usize;
    let under = |mut r: usize| loop {
        if r == at {
            return true;
        }
        match regs[r].1 {
            Some(p) => r = p,
            None => return false,
        }
    };
    g.note(|| format!("report({at})"));
    let got = scrape(|r| regs[at].0.report(r))?;
    let mut want = vec![];
    let mut sub = false;
    for (_, m) in mets {
        if m.reg.is_some_and(under) {
            if let Some(f) = expected(m, cells) {
                sub |= m.reg != Some(at);
                want.push(f);
            }
        }
    }
    once.retain(|(r, i)| {
        if under(*r) {
            if let Some(f) = expected(&mets[*i].1, cells) {
                want.push(f);
            }
            false
        } else {
            true
        }
    });
    sort(&mut want);
    if want.len() >= 3 && sub {
        g.nontrivial();
    }
    if got != want {
        for (a, b) in got.iter().zip(want.iter()) {
            ensure_eq!(a, b, "a family of the report");
        }
        fail!("report has {} families, expected {}:\n{got:?}\n{want:?}", got.len(), want.len());
    }
    Ok(())
}

fn recorders(g: &mut G) -> R {
    let kind = *g.pick(&KINDS[..7]);
    let defaults = kind == DHist && g.bool();
    let mut buckets = if defaults {
        let mut b: Vec<u64> = [1_000u64, 2_500, 5_000, 10_000, 25_000, 50_000, 100_000, 250_000, 500_000, 1_000_000, 2_500_000, 5_000_000, 10_000_000]
            .iter()
            .map(|us| us * 1000)
            .collect();
        b.push(u64::MAX);
        b
    } else {
        gen_buckets(g)
    };
    g.show("kind", &(kind, &buckets));
    let rec = match kind {
        Counter => Rec::Counter(Default::default()),
        Gauge => Rec::Gauge(Default::default()),
        Average => Rec::Average(Default::default()),
        DCounter => Rec::DCounter(Default::default()),
        DGauge => Rec::DGauge(Default::default()),
        Hist => Rec::Hist(metrics::CreateMetricRecorder::create(&U64HistogramOptions::new(buckets.clone()))),
        DHist => Rec::DHist(metrics::CreateMetricRecorder::create(&if defaults {
            DurationHistogramOptions::default()
        } else {
            DurationHistogramOptions::new(buckets.iter().map(|b| ns(*b)))
        })),
        Wrap => unreachable!(),
    };
    buckets.sort();
    let mut val = fresh(kind, &buckets);
    for _ in 0..g.usize(1, 12) {
        let v = if g.bool() && !buckets.is_empty() {
            let b = *g.pick(&buckets);
            *g.pick(&[b, b.saturating_add(1), b.saturating_sub(1)])
        } else {
            value(g)
        };
        let times = *g.pick(&[1, 1, 0, 2, 1000]);
        g.note(|| format!("record {v} x{times}"));
        if buckets.last().is_some_and(|b| v > *b) {
            g.nontrivial();
        }
        let before = val.clone();
        record(&mut val, &rec, v, times);
        match (&rec, &val) {
            (Rec::Counter(c), Val::N(v)) => {
                if matches!(before, Val::N(b) if b > *v) {
                    g.nontrivial();
                }
                ensure_eq!(c.fetch(), *v, "counter")
            }
            (Rec::Gauge(c), Val::N(v)) => ensure_eq!(c.fetch(), *v, "gauge"),
            (Rec::DCounter(c), Val::N(v)) => ensure_eq!(c.fetch(), ns(*v), "duration counter"),
            (Rec::DGauge(c), Val::N(v)) => ensure_eq!(c.fetch(), ns(*v), "duration gauge"),
            (Rec::Hist(c), Val::H { total, buckets }) => {
                let f = c.fetch();
                ensure_eq!(f.total, *total, "histogram total");
                ensure_eq!(f.buckets.iter().map(|b| (b.le, b.count)).collect::<Vec<_>>(), *buckets, "histogram buckets");
            }
            (Rec::DHist(c), Val::H { total, buckets }) => {
                let f = c.fetch();
                ensure_eq!(f.total, ns(*total), "histogram total");
                ensure_eq!(f.buckets.iter().map(|b| (b.le.as_nanos() as u64, b.count)).collect::<Vec<_>>(), *buckets, "histogram buckets");
                ensure!(f.buckets.iter().all(|b| b.le <= DURATION_MAX), "bound beyond DURATION_MAX");
            }
            _ => {}
        }
    }
    if let (Rec::Average(c), Val::Avg { n, total }) = (&rec, &val) {
        ensure_eq!(c.average(), *total / *n, "average");
        ensure_eq!(c.average(), 0, "average of a period without values");
    }
    Ok(())
}

fn labels(g: &mut G) -> R {
    let (k0, k1) = (*g.pick(KEYS), *g.pick(KEYS));
    let (v0, v1) = (g.text(5), g.text(5));
    let want: L = [(k0, v0.clone()), (k1, v1.clone())].into_iter().collect();
    let as_map = |l: &Labels| -> L { l.iter().map(|(k, v)| (*k, v.to_string())).collect() };
    g.show("labels", &want);
    ensure_eq!(as_map(&[(k0, v0.as_str()), (k1, v1.as_str())].into()), want, "from &str");
    ensure_eq!(as_map(&[(k0, v0.clone()), (k1, v1.clone())].into()), want, "from String");
    ensure_eq!(as_map(&[(k0, Cow::Owned(v0.clone())), (k1, Cow::Owned::<str>(v1.clone()))].into()), want, "from Cow");
    let (n0, n1) = (g.u64_any(), g.u64_any());
    let nums: L = [(k0, n0.to_string()), (k1, n1.to_string())].into_iter().collect();
    ensure_eq!(as_map(&[(k0, n0), (k1, n1)].into()), nums, "from u64");
    let (o0, o1) = (g.bool(), g.bool());
    if !(o0 && o1) {
        g.nontrivial();
    }
    let opt: L = [(k0, o0.then(|| v0.clone())), (k1, o1.then(|| v1.clone()))]
        .into_iter()
        .filter_map(|(k, v)| v.map(|v| (k, v)))
        .collect();
    ensure_eq!(as_map(&[(k0, o0.then_some(v0.as_str())), (k1, o1.then_some(v1.as_str()))].into()), opt, "from Option");
    let mut l: Labels = [(k0, v0.clone())].into();
    l.insert((k1, Cow::Owned(v1.clone())));
    ensure_eq!(as_map(&l), want, "insert");
    let mut l: Labels = [(k0, v0.clone())].into();
    l.extend(Labels::from([(k1, v1.clone())]));
    ensure_eq!(as_map(&l), want, "extend");
    let key = if g.bool() { g.text(5) } else { g.ident(5) };
    let legal = !key.is_empty() && key.bytes().all(|b| b.is_ascii_digit() || b.is_ascii_lowercase() || b == b'_');
    if !legal {
        g.nontrivial();
    }
    let got = std::panic::catch_unwind(|| assert_legal_key(&key)).is_ok();
    ensure_eq!(got, legal, "assert_legal_key({key:?})");
    Ok(())
}

fn concurrent(g: &mut G) -> R {
    g.nontrivial();
    let reg = Arc::new(MetricsRegister::default());
    let hist = reg.register_metric::<U64Histogram>("h", "h", U64HistogramOptions::new([10, 100]));
    let threads = 4;
    let per = 1 + g.below(400);
    let same = 1 + g.below(1000);
    let avg = reg.metric::<U64Average>("avg", "avg");
    g.show("per thread", &per);
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let bad = std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (reg, avg) = (reg.clone(), avg.clone());
            hs.push(s.spawn(move || {
                let hist = reg.register_metric::<U64Histogram>("h", "h", U64HistogramOptions::new([10, 100]));
                for i in 0..per {
                    reg.metric::<U64Counter>("c", "c").recorder([("a", "x")]).inc_one();
                    reg.sub_register([("a", "y")]).metric::<U64Counter>("c", "c").recorder(Labels::default()).inc(2);
                    hist.recorder([("t", t % 2)]).record(if i % 2 == 0 { 5 } else { 50 });
                    reg.metric::<DurationCounter>("d", "d").recorder(Labels::default()).inc(ns(7));
                    avg.recorder(Labels::default()).add(same);
                }
            }));
        }
        let r2 = reg.clone();
        let st = stop.clone();
        let avg = avg.clone();
        let reader = s.spawn(move || {
            let mut bad = None;
            while !st.load(std::sync::atomic::Ordering::Relaxed) {
                let a = avg.recorder(Labels::default()).average();
                if a != 0 && a != same {
                    bad = Some(format!("average {a} of values that are all {same}"));
                }
                if let Err(e) = scrape(|r| r2.report(r)) {
                    bad = Some(e.msg);
                }
            }
            bad
        });
        for h in hs {
            let _ = h.join();
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        reader.join().unwrap_or_else(|_| Some("the reader panicked".into()))
    });
    if let Some(b) = bad {
        fail!("{b}");
    }
    let total = threads * per;
    ensure_eq!(reg.metric::<U64Counter>("c", "c").recorder([("a", "x")]).fetch(), total, "counter");
    ensure_eq!(reg.sub_register([("a", "y")]).metric::<U64Counter>("c", "c").recorder(Labels::default()).fetch(), 2 * total, "counter of the sub-register");
    ensure_eq!(reg.metric::<DurationCounter>("d", "d").recorder(Labels::default()).fetch(), ns(7 * total), "duration counter");
    let mut sum = (0, 0, 0);
    for t in 0..2u64 {
        let f = hist.recorder([("t", t)]).fetch();
        sum = (sum.0 + f.total, sum.1 + f.buckets[0].count, sum.2 + f.buckets[1].count);
    }
    let (even, odd) = (threads * per.div_ceil(2), threads * (per / 2));
    ensure_eq!(sum, (even * 5 + odd * 50, even, odd), "histogram");
    Ok(())
}
