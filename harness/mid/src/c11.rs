//! Predicates: time ranges, domains pushed down from a filter, the rows a DELETE selects, and their wire form.
use std::cmp::Ordering;
use std::ops::{Bound, RangeBounds};
use std::sync::Arc;

use arrow_schema::{DataType, Field, Schema, TimeUnit};
use datafusion::common::DFSchema;
use datafusion::logical_expr::{binary_expr, Between, Cast, InList, Like, Operator};
use datafusion::prelude::{Column, Expr};
use datafusion::scalar::ScalarValue;
use models::codec::Encoding;
use models::meta_data::{ReplicationSet, VnodeInfo, VnodeStatus};
use models::predicate::domain::{ColumnDomains, Domain, Predicate, PushedAggregateFunction, QueryArgs, QueryExpr, ResolvedPredicate, TimeRange, TimeRanges};
use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
use models::predicate::utils::filter_to_time_ranges;
use models::predicate::PlacedSplit;
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::ValueType;
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};

pub fn check() -> Check {
    Check {
        property: "C11",
        level: "exploration",
        assumptions: &["the query engine's expression types are stand-ins with its published behaviour", "casts of the time column between units and of tags to integers follow arrow's rules (truncation; null when it does not fit)"],
        subs: vec![
            Sub { name: "ranges", rule: "operations on time ranges and sets of them agree with membership of every point next to a bound (and the least and greatest times); the set stays in its normal form; non-trivial: the set has two ranges", quick: 400_000, thorough: 8_000_000, serial: false, f: ranges },
            Sub { name: "filter", rule: "every row that satisfies a generated filter (3-valued logic evaluated by the harness) lies in the time ranges and tag domains pushed down for it, before and after encoding; non-trivial: some row satisfies it, some row is cut off", quick: 250_000, thorough: 5_000_000, serial: false, f: filter },
            Sub { name: "delete", rule: "the rows selected by the tag and time domains of a DELETE's condition are exactly the rows that satisfy it, or the condition is refused; a conjunction of column-with-value comparisons is never refused; non-trivial: some row selected and some not", quick: 250_000, thorough: 5_000_000, serial: false, f: delete },
            Sub { name: "wire", rule: "query arguments, query expressions and pushed aggregates decode to what was encoded; non-trivial: a filter is present", quick: 30_000, thorough: 400_000, serial: false, f: wire },
        ],
    }
}

// ---- time ranges

fn bound(g: &mut G) -> i64 {
    match g.weighted(&[8, 1, 1, 1]) {
        0 => g.range(-6, 12),
        1 => *g.pick(&[i64::MIN, i64::MIN + 1]),
        2 => *g.pick(&[i64::MAX, i64::MAX - 1]),
        _ => g.i64_any(),
    }
}

fn tr(g: &mut G, empty: bool) -> TimeRange {
    let (a, b) = (bound(g), bound(g));
    if a <= b || (empty && g.chance(1, 6)) {
        TimeRange::new(a, b)
    } else {
        TimeRange::new(b, a)
    }
}

fn points(rs: &[TimeRange]) -> Vec<i64> {
    let mut v = vec![i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX - 1, i64::MAX];
    for r in rs {
        for b in [r.min_ts, r.max_ts] {
            v.extend([b.saturating_sub(1), b, b.saturating_add(1)]);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn has(r: &TimeRange, t: i64) -> bool {
    r.min_ts <= t && t <= r.max_ts
}

fn any_has(rs: &[TimeRange], t: i64) -> bool {
    rs.iter().any(|r| has(r, t))
}

fn normal(s: &TimeRanges) -> R {
    let v: Vec<_> = s.time_ranges().collect();
    for r in &v {
        ensure!(r.min_ts <= r.max_ts, "the set {s} holds an inverted range");
    }
    for w in v.windows(2) {
        ensure!(w[0].max_ts < i64::MAX && w[0].max_ts + 1 < w[1].min_ts, "the ranges of {s} are not apart and in order");
    }
    if let (Some(f), Some(l)) = (v.first(), v.last()) {
        ensure_eq!((s.min_ts(), s.max_ts()), (f.min_ts, l.max_ts), "bounds of {s}");
        ensure_eq!(s.max_time_range(), TimeRange::new(f.min_ts, l.max_ts), "hull of {s}");
    }
    ensure_eq!(s.len(), v.len(), "length of {s}");
    ensure_eq!(s.is_empty(), v.is_empty(), "emptiness of {s}");
    ensure_eq!(s.is_boundless(), v == [TimeRange::all()], "boundlessness of {s}");
    ensure_eq!(s.ranges().collect::<Vec<_>>(), v.iter().map(|r| (r.min_ts, r.max_ts)).collect::<Vec<_>>(), "pairs of {s}");
    Ok(())
}

fn members(what: &str, s: &TimeRanges, ps: &[i64], f: impl Fn(i64) -> bool) -> R {
    normal(s)?;
    for &p in ps {
        ensure_eq!(s.contains(p), f(p), "{what}: is {p} in {s}?");
        ensure_eq!(s.time_ranges().any(|r| has(&r, p)), f(p), "{what}: is {p} in one of the ranges of {s}?");
    }
    Ok(())
}

fn ranges(g: &mut G) -> R {
    let (a, b) = (tr(g, false), tr(g, false));
    g.show("a", &a);
    g.show("b", &b);
    let rs = g.vec(0, 5, |g| tr(g, true));
    let more = g.vec(0, 3, |g| tr(g, true));
    g.show("set", &rs);
    g.show("more", &more);
    let mut all = rs.clone();
    all.extend(more.iter().copied());
    all.extend([a, b]);
    let ps = points(&all);

    // two ranges
    for &p in &ps {
        ensure_eq!(a.contains(p), has(&a, p), "{a} contains {p}");
    }
    let common = ps.iter().any(|&p| has(&a, p) && has(&b, p));
    ensure_eq!(a.overlaps(&b), common, "overlap of {a} and {b}");
    ensure_eq!(a.includes(&b), ps.iter().all(|&p| !has(&b, p) || has(&a, p)), "{a} includes {b}");
    match a.intersect(&b) {
        None => ensure!(!common, "{a} and {b} meet but have no intersection"),
        Some(i) => {
            for &p in &ps {
                ensure_eq!(has(&i, p), has(&a, p) && has(&b, p), "{p} in the intersection {i} of {a} and {b}");
            }
        }
    }
    let (l, r) = a.exclude(&b);
    for &p in &ps {
        let got = l.is_some_and(|l| has(&l, p)) || r.is_some_and(|r| has(&r, p));
        ensure_eq!(got, has(&a, p) && !has(&b, p), "{p} in {a} without {b}: {l:?} {r:?}");
    }
    let mut m = a;
    m.merge(&b);
    ensure_eq!((m.min_ts, m.max_ts), (a.min_ts.min(b.min_ts), a.max_ts.max(b.max_ts)), "merge");
    if (a.min_ts, a.max_ts) != (i64::MIN, i64::MAX) {
        ensure_eq!(a.total_time() as i128, a.max_ts as i128 - a.min_ts as i128 + 1, "length of {a}");
    }
    ensure_eq!(a.is_boundless(), a == TimeRange::all(), "boundless {a}");
    // bounds to a range
    for lo in [Bound::Unbounded, Bound::Included(a.min_ts), Bound::Excluded(a.min_ts)] {
        for hi in [Bound::Unbounded, Bound::Included(b.max_ts), Bound::Excluded(b.max_ts)] {
            let c = TimeRange::from((lo, hi));
            for &p in &ps {
                ensure_eq!(c.contains(p), (lo, hi).contains(&p), "{p} in {c}, made from {lo:?} and {hi:?}");
            }
        }
    }

    // sets
    let s = TimeRanges::new(rs.clone());
    if s.len() >= 2 {
        g.nontrivial();
    }
    members("new", &s, &ps, |p| any_has(&rs, p))?;
    let mut pushed = s.clone();
    for r in &more {
        pushed.push(*r);
    }
    members("push", &pushed, &ps, |p| any_has(&rs, p) || any_has(&more, p))?;
    let mut ext = s.clone();
    ext.extend_from_slice(&more);
    members("extend", &ext, &ps, |p| any_has(&rs, p) || any_has(&more, p))?;
    ensure_eq!(pushed, ext, "push and extend");
    members("exclude", &s.exclude(&b), &ps, |p| any_has(&rs, p) && !has(&b, p))?;
    let refs: Vec<&TimeRange> = more.iter().filter(|r| !r.is_none()).collect();
    members("exclude_time_ranges", &s.exclude_time_ranges(&refs), &ps, |p| any_has(&rs, p) && !refs.iter().any(|r| has(r, p)))?;
    match s.intersect(&b) {
        None => {
            for &p in &ps {
                ensure!(!(any_has(&rs, p) && has(&b, p)), "{p} is in {s} and in {b} but they have no intersection");
            }
        }
        Some(i) => members("intersect", &i, &ps, |p| any_has(&rs, p) && has(&b, p))?,
    }
    ensure_eq!(s.overlaps(&b), ps.iter().any(|&p| any_has(&rs, p) && has(&b, p)), "{s} overlaps {b}");
    ensure_eq!(s.includes(&b), ps.iter().all(|&p| !has(&b, p) || any_has(&rs, p)), "{s} includes {b}");
    let left = a.exclude_time_ranges(&s);
    match &left {
        None => {
            for &p in &ps {
                ensure!(!has(&a, p) || any_has(&rs, p), "{p} of {a} is not in {s} but nothing is left");
            }
        }
        Some(l) => members("range without set", l, &ps, |p| has(&a, p) && !any_has(&rs, p))?,
    }
    let bytes = bincode::serialize(&ext).map_err(|e| pbt::Fail::new(e.to_string()))?;
    let back: TimeRanges = bincode::deserialize(&bytes).map_err(|e| pbt::Fail::new(e.to_string()))?;
    ensure_eq!(back, ext, "encoded and decoded set");
    Ok(())
}

// ---- rows and conditions

/// a time unit
#[derive(Debug, Clone, Copy, PartialEq)]
enum U {
    Second,
    Millisecond,
    Microsecond,
    Nanosecond,
}

impl U {
    fn arrow(self) -> TimeUnit {
        match self {
            U::Second => TimeUnit::Second,
            U::Millisecond => TimeUnit::Millisecond,
            U::Microsecond => TimeUnit::Microsecond,
            U::Nanosecond => TimeUnit::Nanosecond,
        }
    }
}

#[derive(Debug, Clone)]
struct Row {
    time: i64,
    ta: Option<String>,
    tb: Option<String>,
    fi: Option<i64>,
    ff: Option<f64>,
    fb: Option<bool>,
    fs: Option<String>,
}

#[derive(Debug, Clone, PartialEq)]
enum V {
    Null,
    T(i64, U),
    I(i64),
    F(f64),
    B(bool),
    S(String),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum C {
    Time,
    Ta,
    Tb,
    Fi,
    Ff,
    Fb,
    Fs,
}
const COLS: [(C, &str); 7] = [(C::Time, "time"), (C::Ta, "ta"), (C::Tb, "tb"), (C::Fi, "fi"), (C::Ff, "ff"), (C::Fb, "fb"), (C::Fs, "fs")];

fn name(c: C) -> &'static str {
    COLS.iter().find(|x| x.0 == c).unwrap().1
}

fn per_second(u: U) -> i128 {
    match u {
        U::Second => 1,
        U::Millisecond => 1_000,
        U::Microsecond => 1_000_000,
        U::Nanosecond => 1_000_000_000,
    }
}

fn ts_lit(v: Option<i64>, u: U) -> ScalarValue {
    match u {
        U::Second => ScalarValue::TimestampSecond(v, None),
        U::Millisecond => ScalarValue::TimestampMillisecond(v, None),
        U::Microsecond => ScalarValue::TimestampMicrosecond(v, None),
        U::Nanosecond => ScalarValue::TimestampNanosecond(v, None),
    }
}

fn lit(v: &V) -> Expr {
    Expr::Literal(match v {
        V::Null => ScalarValue::Null,
        V::T(t, u) => ts_lit(Some(*t), *u),
        V::I(i) => ScalarValue::Int64(Some(*i)),
        V::F(f) => ScalarValue::Float64(Some(*f)),
        V::B(b) => ScalarValue::Boolean(Some(*b)),
        V::S(s) => ScalarValue::Utf8(Some(s.clone())),
    })
}

/// A condition: what the harness evaluates, next to the expression the code gets.
#[derive(Debug, Clone)]
enum Cond {
    Cmp(Operand, Operator, Operand),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
    Not(Box<Cond>),
    IsNull(C, bool),
    In(C, Vec<V>, bool),
    Between(C, V, V, bool),
    Prefix(C, String, bool),
    Bool(Operand),
    /// two conditions compared with each other
    Same(Box<Cond>, Operator, Box<Cond>),
}

#[derive(Debug, Clone)]
enum Operand {
    Col(C),
    Lit(V),
    /// a null literal of the type of the column
    NullOf(C),
    CastTime(U),
    CastInt(C),
    PlusOne(C),
}

struct World {
    unit: U,
    qualified: bool,
}

fn cell(r: &Row, c: C, w: &World) -> V {
    fn o<T>(x: &Option<T>, f: impl Fn(&T) -> V) -> V {
        x.as_ref().map_or(V::Null, f)
    }
    match c {
        C::Time => V::T(r.time, w.unit),
        C::Ta => o(&r.ta, |s| V::S(s.clone())),
        C::Tb => o(&r.tb, |s| V::S(s.clone())),
        C::Fi => o(&r.fi, |x| V::I(*x)),
        C::Ff => o(&r.ff, |x| V::F(*x)),
        C::Fb => o(&r.fb, |x| V::B(*x)),
        C::Fs => o(&r.fs, |s| V::S(s.clone())),
    }
}

fn operand(o: &Operand, r: &Row, w: &World) -> V {
    match o {
        Operand::Col(c) => cell(r, *c, w),
        Operand::Lit(v) => v.clone(),
        Operand::NullOf(_) => V::Null,
        Operand::CastTime(u) => {
            let (from, to) = (per_second(w.unit), per_second(*u));
            let t = r.time as i128;
            let v = if to >= from { t * (to / from) } else { t / (from / to) };
            i64::try_from(v).map_or(V::Null, |v| V::T(v, *u))
        }
        Operand::CastInt(c) => match cell(r, *c, w) {
            V::T(t, _) => V::I(t),
            V::S(s) => s.parse().map_or(V::Null, V::I),
            V::I(i) => V::I(i),
            _ => V::Null,
        },
        Operand::PlusOne(c) => match cell(r, *c, w) {
            V::I(i) => V::I(i.wrapping_add(1)),
            _ => V::Null,
        },
    }
}

fn compare(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::T(x, u), V::T(y, v)) if u == v => Some(x.cmp(y)),
        (V::I(x), V::I(y)) => Some(x.cmp(y)),
        (V::F(x), V::F(y)) => x.partial_cmp(y),
        (V::B(x), V::B(y)) => Some(x.cmp(y)),
        (V::S(x), V::S(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        _ => None,
    }
}

fn holds(o: Ordering, op: Operator) -> bool {
    match op {
        Operator::Eq => o.is_eq(),
        Operator::NotEq => o.is_ne(),
        Operator::Lt => o.is_lt(),
        Operator::LtEq => o.is_le(),
        Operator::Gt => o.is_gt(),
        Operator::GtEq => o.is_ge(),
        _ => unreachable!(),
    }
}

fn eval(c: &Cond, r: &Row, w: &World) -> Option<bool> {
    match c {
        Cond::Cmp(a, op, b) => compare(&operand(a, r, w), &operand(b, r, w)).map(|o| holds(o, *op)),
        Cond::And(a, b) => match (eval(a, r, w), eval(b, r, w)) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (Some(true), Some(true)) => Some(true),
            _ => None,
        },
        Cond::Or(a, b) => match (eval(a, r, w), eval(b, r, w)) {
            (Some(true), _) | (_, Some(true)) => Some(true),
            (Some(false), Some(false)) => Some(false),
            _ => None,
        },
        Cond::Not(a) => eval(a, r, w).map(|x| !x),
        Cond::IsNull(c, not) => Some((cell(r, *c, w) == V::Null) != *not),
        Cond::In(c, vs, not) => {
            let x = cell(r, *c, w);
            if x == V::Null {
                return None;
            }
            Some(vs.iter().any(|v| compare(&x, v).is_some_and(|o| o.is_eq())) != *not)
        }
        Cond::Between(c, lo, hi, not) => {
            let x = cell(r, *c, w);
            let (a, b) = (compare(&x, lo)?, compare(&x, hi)?);
            Some((a.is_ge() && b.is_le()) != *not)
        }
        Cond::Prefix(c, p, not) => match cell(r, *c, w) {
            V::S(s) => Some(s.starts_with(p.as_str()) != *not),
            _ => None,
        },
        Cond::Bool(o) => match operand(o, r, w) {
            V::B(b) => Some(b),
            _ => None,
        },
        Cond::Same(a, op, b) => match (eval(a, r, w), eval(b, r, w)) {
            (Some(x), Some(y)) => Some(holds(x.cmp(&y), *op)),
            _ => None,
        },
    }
}

fn column(c: C, w: &World) -> Expr {
    Expr::Column(if w.qualified { Column::new(Some("t"), name(c)) } else { Column::from_name(name(c)) })
}

fn operand_expr(o: &Operand, w: &World) -> Expr {
    match o {
        Operand::Col(c) => column(*c, w),
        Operand::Lit(v) => lit(v),
        Operand::NullOf(c) => Expr::Literal(match c {
            C::Time => ts_lit(None, w.unit),
            C::Ta | C::Tb | C::Fs => ScalarValue::Utf8(None),
            C::Fi => ScalarValue::Int64(None),
            C::Ff => ScalarValue::Float64(None),
            C::Fb => ScalarValue::Boolean(None),
        }),
        Operand::CastTime(u) => Expr::Cast(Cast::new(Box::new(column(C::Time, w)), DataType::Timestamp(u.arrow(), None))),
        Operand::CastInt(c) => Expr::Cast(Cast::new(Box::new(column(*c, w)), DataType::Int64)),
        Operand::PlusOne(c) => binary_expr(column(*c, w), Operator::Plus, lit(&V::I(1))),
    }
}

fn expr(c: &Cond, w: &World) -> Expr {
    match c {
        Cond::Cmp(a, op, b) => binary_expr(operand_expr(a, w), *op, operand_expr(b, w)),
        Cond::And(a, b) => binary_expr(expr(a, w), Operator::And, expr(b, w)),
        Cond::Or(a, b) => binary_expr(expr(a, w), Operator::Or, expr(b, w)),
        Cond::Not(a) => Expr::Not(Box::new(expr(a, w))),
        Cond::IsNull(c, not) => {
            let e = Box::new(column(*c, w));
            if *not {
                Expr::IsNotNull(e)
            } else {
                Expr::IsNull(e)
            }
        }
        Cond::In(c, vs, not) => Expr::InList(InList { expr: Box::new(column(*c, w)), list: vs.iter().map(lit).collect(), negated: *not }),
        Cond::Between(c, lo, hi, not) => Expr::Between(Between::new(Box::new(column(*c, w)), *not, Box::new(lit(lo)), Box::new(lit(hi)))),
        Cond::Prefix(c, p, not) => Expr::Like(Like::new(*not, Box::new(column(*c, w)), Box::new(lit(&V::S(format!("{p}%")))), None)),
        Cond::Bool(o) => operand_expr(o, w),
        Cond::Same(a, op, b) => binary_expr(expr(a, w), *op, expr(b, w)),
    }
}

const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq];
const WORDS: [&str; 9] = ["", "a", "aa", "b", "c", "10", "9", "é", "~"];

fn word(g: &mut G) -> String {
    g.pick(&WORDS).to_string()
}

fn time(g: &mut G) -> i64 {
    match g.weighted(&[10, 1]) {
        0 => g.range(-3, 6),
        _ => *g.pick(&[i64::MIN, i64::MIN + 1, i64::MAX - 1, i64::MAX]),
    }
}

fn value(g: &mut G, c: C, w: &World) -> V {
    match c {
        C::Time => V::T(time(g), w.unit),
        C::Ta | C::Tb | C::Fs => V::S(word(g)),
        C::Fi => V::I(g.range(-2, 4)),
        C::Ff => V::F(g.range(-4, 4) as f64 / 2.0),
        C::Fb => V::B(g.bool()),
    }
}

fn some<T>(g: &mut G, f: impl Fn(&mut G) -> T) -> Option<T> {
    if g.chance(1, 6) {
        None
    } else {
        Some(f(g))
    }
}

fn row(g: &mut G) -> Row {
    Row {
        time: time(g),
        ta: some(g, word),
        tb: some(g, word),
        fi: some(g, |g| g.range(-2, 4)),
        ff: some(g, |g| g.range(-4, 4) as f64 / 2.0),
        fb: some(g, |g| g.bool()),
        fs: some(g, word),
    }
}

/// all times and words that can matter, next to random other cells
fn pool(g: &mut G) -> Vec<Row> {
    let mut rows = Vec::new();
    let times = [i64::MIN, i64::MIN + 1, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, i64::MAX - 1, i64::MAX];
    for t in times {
        rows.push(Row { time: t, ..row(g) });
    }
    for s in WORDS.iter().map(|s| Some(s.to_string())).chain([None]) {
        rows.push(Row { ta: s.clone(), ..row(g) });
        rows.push(Row { tb: s, ..row(g) });
    }
    rows
}

fn flip(op: Operator) -> Operator {
    match op {
        Operator::Lt => Operator::Gt,
        Operator::LtEq => Operator::GtEq,
        Operator::Gt => Operator::Lt,
        Operator::GtEq => Operator::LtEq,
        o => o,
    }
}

fn cmp(g: &mut G, left: Operand, right: Operand) -> Cond {
    let op = *g.pick(&OPS);
    if g.chance(1, 4) {
        Cond::Cmp(right, flip(op), left)
    } else {
        Cond::Cmp(left, op, right)
    }
}

fn plain(g: &mut G, w: &World, cols: &[C]) -> Cond {
    let c = *g.pick(cols);
    let v = value(g, c, w);
    cmp(g, Operand::Col(c), Operand::Lit(v))
}

const ALL: [C; 9] = [C::Time, C::Time, C::Ta, C::Ta, C::Tb, C::Fi, C::Ff, C::Fb, C::Fs];

fn leaf(g: &mut G, w: &World) -> Cond {
    match g.weighted(&[12, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => plain(g, w, &ALL),
        1 => {
            let u = *g.pick(&[U::Millisecond, U::Microsecond, U::Nanosecond]);
            let t = time(g);
            let v = if g.bool() { t } else { t.saturating_mul(1000) };
            cmp(g, Operand::CastTime(u), Operand::Lit(V::T(v, u)))
        }
        2 => {
            let c = *g.pick(&[C::Time, C::Ta, C::Tb, C::Fi]);
            let v = V::I(g.range(-3, 12));
            cmp(g, Operand::CastInt(c), Operand::Lit(v))
        }
        3 => {
            let c = *g.pick(&ALL);
            let n = if g.bool() { Operand::Lit(V::Null) } else { Operand::NullOf(c) };
            cmp(g, Operand::Col(c), n)
        }
        4 => Cond::IsNull(*g.pick(&ALL), g.bool()),
        5 => {
            let c = *g.pick(&ALL);
            Cond::In(c, g.vec(1, 3, |g| value(g, c, w)), g.bool())
        }
        6 => {
            let c = *g.pick(&[C::Time, C::Ta, C::Fi]);
            Cond::Between(c, value(g, c, w), value(g, c, w), g.bool())
        }
        7 => Cond::Prefix(*g.pick(&[C::Ta, C::Tb, C::Fs]), g.pick(&["a", "b", "1"]).to_string(), g.bool()),
        8 => Cond::Bool(if g.bool() { Operand::Col(C::Fb) } else { Operand::Lit(V::B(g.bool())) }),
        9 => {
            let (a, b) = *g.pick(&[(C::Ta, C::Tb), (C::Tb, C::Fs), (C::Fs, C::Ta), (C::Fi, C::Fi)]);
            cmp(g, Operand::Col(a), Operand::Col(b))
        }
        10 => {
            let v = V::I(g.range(-2, 4));
            cmp(g, Operand::PlusOne(C::Fi), Operand::Lit(v))
        }
        _ => Cond::Same(Box::new(plain(g, w, &ALL)), *g.pick(&[Operator::Eq, Operator::NotEq]), Box::new(plain(g, w, &ALL))),
    }
}

fn tree(g: &mut G, w: &World, depth: u32) -> Cond {
    if depth == 0 || g.chance(1, 4) {
        return leaf(g, w);
    }
    match g.weighted(&[5, 5, 1]) {
        0 => Cond::And(Box::new(tree(g, w, depth - 1)), Box::new(tree(g, w, depth - 1))),
        1 => Cond::Or(Box::new(tree(g, w, depth - 1)), Box::new(tree(g, w, depth - 1))),
        _ => Cond::Not(Box::new(tree(g, w, depth - 1))),
    }
}

fn table(unit: U) -> TskvTableSchema {
    let col = |id, n: &str, t| TableColumn::new(id, n.to_string(), t, Encoding::Default);
    TskvTableSchema::new(
        "cnosdb".into(),
        "public".into(),
        "t".into(),
        vec![
            TableColumn::new_time_column(0, unit.arrow()),
            TableColumn::new_tag_column(1, "ta".into()),
            TableColumn::new_tag_column(2, "tb".into()),
            col(3, "fi", ColumnType::Field(ValueType::Integer)),
            col(4, "ff", ColumnType::Field(ValueType::Float)),
            col(5, "fb", ColumnType::Field(ValueType::Boolean)),
            col(6, "fs", ColumnType::Field(ValueType::String)),
        ],
    )
}

fn arrow(unit: U) -> Schema {
    Schema::new(vec![
        Field::new("time", DataType::Timestamp(unit.arrow(), None), false),
        Field::new("ta", DataType::Utf8, true),
        Field::new("tb", DataType::Utf8, true),
        Field::new("fi", DataType::Int64, true),
        Field::new("ff", DataType::Float64, true),
        Field::new("fb", DataType::Boolean, true),
        Field::new("fs", DataType::Utf8, true),
    ])
}

/// whether a tag value is in a domain, as the index reads it
fn in_domain(d: &Domain, v: Option<&String>) -> Result<bool, pbt::Fail> {
    let text = |s: &ScalarValue| -> Result<String, pbt::Fail> {
        match s {
            ScalarValue::Utf8(Some(s)) => Ok(s.clone()),
            other => fail!("a tag's domain holds {other:?}, which the index cannot look up"),
        }
    };
    Ok(match d {
        Domain::All => true,
        Domain::None => false,
        Domain::Equtable(e) => {
            let mut found = false;
            for x in e.entries() {
                found |= Some(&text(x.value())?) == v;
            }
            v.is_some() && found == e.is_white_list()
        }
        Domain::Range(s) => {
            let Some(v) = v else { return Ok(false) };
            let mut found = false;
            for (_, r) in s.low_indexed_ranges() {
                let lo = match r.start_bound() {
                    Bound::Unbounded => true,
                    Bound::Included(x) => text(x)?.as_bytes() <= v.as_bytes(),
                    Bound::Excluded(x) => text(x)?.as_bytes() < v.as_bytes(),
                };
                let hi = match r.end_bound() {
                    Bound::Unbounded => true,
                    Bound::Included(x) => v.as_bytes() <= text(x)?.as_bytes(),
                    Bound::Excluded(x) => v.as_bytes() < text(x)?.as_bytes(),
                };
                found |= lo && hi;
            }
            found
        }
    })
}

fn selected(p: &ResolvedPredicate, r: &Row) -> Result<bool, pbt::Fail> {
    let mut ok = p.time_ranges().contains(r.time);
    match p.tags_filter().domains() {
        None => ok = false,
        Some(m) => {
            for (k, d) in m {
                let v = match k.as_str() {
                    "ta" => r.ta.as_ref(),
                    "tb" => r.tb.as_ref(),
                    other => fail!("a tag domain for {other}"),
                };
                // a domain that allows everything leaves no trace in the index lookup
                ok &= in_domain(d, v)?;
            }
        }
    }
    Ok(ok)
}

fn resent(p: &ResolvedPredicate) -> Result<ResolvedPredicate, pbt::Fail> {
    let bytes = bincode::serialize(p).map_err(|e| pbt::Fail::new(format!("{e}")))?;
    let q: ResolvedPredicate = bincode::deserialize(&bytes).map_err(|e| pbt::Fail::new(format!("{e}")))?;
    ensure_eq!(q.time_ranges(), p.time_ranges(), "time ranges after encoding");
    ensure_eq!(q.tags_filter(), p.tags_filter(), "tag domains after encoding");
    ensure!(q.filter() == p.filter(), "filter after encoding");
    Ok(q)
}

fn world(g: &mut G) -> World {
    World { unit: *g.pick(&[U::Nanosecond, U::Nanosecond, U::Microsecond, U::Millisecond]), qualified: g.chance(1, 3) }
}

fn resolve(e: Expr, w: &World) -> Result<ResolvedPredicate, pbt::Fail> {
    let schema = arrow(w.unit);
    let df = DFSchema::try_from(schema.clone()).map_err(|e| pbt::Fail::new(format!("{e}")))?;
    let p = Predicate::push_down_filter(Some(e), &df, &schema, None).map_err(|e| pbt::Fail::new(format!("{e}")))?;
    let t = Arc::new(table(w.unit));
    let r = p.resolve(&t).map_err(|e| pbt::Fail::new(format!("{e}")))?;
    Ok((*r).clone())
}

fn filter(g: &mut G) -> R {
    let w = world(g);
    let depth = g.range(0, 3) as u32;
    let c = tree(g, &w, depth);
    let e = expr(&c, &w);
    g.note(|| format!("filter: {e}"));
    let rows = pool(g);
    let p = resent(&resolve(e, &w)?)?;
    g.note(|| format!("pushed down: times {} tags {:?}", p.time_ranges(), p.tags_filter()));
    let (mut yes, mut cut) = (false, false);
    for r in &rows {
        let sat = eval(&c, r, &w) == Some(true);
        let sel = selected(&p, r)?;
        ensure!(!sat || sel, "a row that satisfies the filter is cut off by what is pushed down: {r:?}");
        yes |= sat;
        cut |= !sel;
    }
    if yes && cut {
        g.nontrivial();
    }
    g.inner(rows.len() as u64);
    Ok(())
}

// ---- DELETE

fn conj(g: &mut G, w: &World, depth: u32, strange: bool) -> Cond {
    if depth == 0 || g.chance(1, 4) {
        return match if strange { g.weighted(&[12, 1, 2, 1, 1, 2]) } else { 0 } {
            0 => plain(g, w, &[C::Time, C::Ta, C::Tb]),
            1 => {
                let t = time(g);
                cmp(g, Operand::CastTime(w.unit), Operand::Lit(V::T(t, w.unit)))
            }
            2 => {
                let c = *g.pick(&[C::Time, C::Ta]);
                let n = if g.bool() { Operand::Lit(V::Null) } else { Operand::NullOf(c) };
                cmp(g, Operand::Col(c), n)
            }
            3 => Cond::Bool(Operand::Lit(V::B(g.bool()))),
            4 => {
                let v = V::I(g.range(-3, 12));
                let col = *g.pick(&[C::Time, C::Ta]);
                cmp(g, Operand::CastInt(col), Operand::Lit(v))
            }
            _ => leaf(g, w),
        };
    }
    if strange && g.chance(1, 8) {
        return Cond::Or(Box::new(conj(g, w, depth - 1, strange)), Box::new(conj(g, w, depth - 1, strange)));
    }
    Cond::And(Box::new(conj(g, w, depth - 1, strange)), Box::new(conj(g, w, depth - 1, strange)))
}

fn only_tags_and_time(c: &Cond) -> bool {
    let col = |c: &C| matches!(c, C::Time | C::Ta | C::Tb);
    let op = |o: &Operand| match o {
        Operand::Col(c) | Operand::CastInt(c) | Operand::PlusOne(c) => col(c),
        _ => true,
    };
    match c {
        Cond::Cmp(a, _, b) => op(a) && op(b),
        Cond::And(a, b) | Cond::Or(a, b) | Cond::Same(a, _, b) => only_tags_and_time(a) && only_tags_and_time(b),
        Cond::Not(a) => only_tags_and_time(a),
        Cond::IsNull(c, _) | Cond::In(c, ..) | Cond::Between(c, ..) | Cond::Prefix(c, ..) => col(c),
        Cond::Bool(o) => op(o),
    }
}

fn delete(g: &mut G) -> R {
    let w = World { qualified: g.chance(1, 3), unit: U::Nanosecond };
    let strange = g.chance(1, 3);
    let depth = g.range(0, 3) as u32;
    let c = conj(g, &w, depth, strange);
    if !only_tags_and_time(&c) {
        // the planner refuses conditions on fields
        return Ok(());
    }
    let e = expr(&c, &w);
    g.note(|| format!("delete where {e}"));
    let rows = pool(g);
    let (tags, time) = match DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(&e) {
        Ok(x) => x,
        Err(err) => {
            ensure!(strange, "refused: {err}");
            g.label("refused");
            return Ok(());
        }
    };
    let times = TimeRanges::new(filter_to_time_ranges(&time));
    let p = resent(&ResolvedPredicate::new(Arc::new(times), tags, None).map_err(|e| pbt::Fail::new(e.to_string()))?)?;
    g.note(|| format!("deletes: times {} tags {:?}", p.time_ranges(), p.tags_filter()));
    let (mut yes, mut no) = (false, false);
    for r in &rows {
        let sat = eval(&c, r, &w) == Some(true);
        let sel = selected(&p, r)?;
        ensure_eq!(sel, sat, "is the row deleted? {r:?}");
        yes |= sat;
        no |= !sat;
    }
    if yes && no {
        g.nontrivial();
    }
    g.inner(rows.len() as u64);
    Ok(())
}

// ---- wire forms

fn wire(g: &mut G) -> R {
    let args = QueryArgs { vnode_ids: g.vec(0, 4, |g| g.u64_any() as u32), limit: some(g, |g| g.u64_any() as usize), batch_size: g.u64_any() as usize };
    let back = QueryArgs::decode(&QueryArgs::encode(&args).map_err(|e| pbt::Fail::new(e.to_string()))?).map_err(|e| pbt::Fail::new(e.to_string()))?;
    ensure_eq!(format!("{back:?}"), format!("{args:?}"), "query arguments");
    let agg = some(g, |g| g.vec(0, 3, |g| PushedAggregateFunction::Count(g.text(6))));
    let back = models::predicate::domain::decode_agg(&models::predicate::domain::encode_agg(&agg).map_err(|e| pbt::Fail::new(e.to_string()))?).map_err(|e| pbt::Fail::new(e.to_string()))?;
    ensure_eq!(format!("{back:?}"), format!("{agg:?}"), "pushed aggregates");

    let w = world(g);
    let p = if g.chance(3, 4) {
        g.nontrivial();
        let depth = g.range(0, 2) as u32;
        let c = tree(g, &w, depth);
        let e = expr(&c, &w);
        g.note(|| format!("filter: {e}"));
        resolve(e, &w)?
    } else {
        ResolvedPredicate::new(Arc::new(TimeRanges::new(g.vec(0, 3, |g| tr(g, false)))), ColumnDomains::all(), None).map_err(|e| pbt::Fail::new(e.to_string()))?
    };
    let vnodes = g.vec(0, 3, |g| VnodeInfo { id: g.u64_any() as u32, node_id: g.u64_any(), status: *g.pick(&[VnodeStatus::Running, VnodeStatus::Copying, VnodeStatus::Broken]) });
    let set = ReplicationSet::new(g.u64_any() as u32, g.u64_any(), g.u64_any() as u32, vnodes);
    let q = QueryExpr {
        split: PlacedSplit::new(g.usize(0, 9), Arc::new(p), some(g, |g| g.usize(0, 9)), set),
        df_schema: arrow(w.unit),
        table_schema: Arc::new(table(w.unit)),
        schema_meta: g.vec(0, 3, |g| (g.text(4), g.text(4))).into_iter().collect(),
    };
    let back = QueryExpr::decode(&q.encode().map_err(|e| pbt::Fail::new(e.to_string()))?).map_err(|e| pbt::Fail::new(format!("{e}")))?;
    ensure_eq!(back.table_schema, q.table_schema, "table");
    ensure_eq!(back.df_schema, q.df_schema, "schema");
    ensure_eq!(back.schema_meta, q.schema_meta, "schema metadata");
    ensure_eq!((back.split.id(), back.split.limit(), back.split.replica_id()), (q.split.id(), q.split.limit(), q.split.replica_id()), "split");
    ensure_eq!(back.split.time_ranges(), q.split.time_ranges(), "time ranges");
    ensure_eq!(back.split.tags_filter(), q.split.tags_filter(), "tag domains");
    ensure!(back.split.filter() == q.split.filter(), "filter: {:?} became {:?}", q.split.filter(), back.split.filter());
    let (mut a, mut b) = (q.split.clone(), back.split.clone());
    loop {
        let (x, y) = (a.pop_front(), b.pop_front());
        ensure_eq!(format!("{x:?}"), format!("{y:?}"), "vnodes");
        if x.is_none() {
            break;
        }
    }
    Ok(())
}
