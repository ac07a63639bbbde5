//! Histories of a vnode: batches of points, flushes, compactions, deletes, tag
//! updates, schema changes, restarts, crashes and reads in any order, against
//! a model that keeps what a table has to contain.
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;

use arrow_schema::DataType;
use datafusion::scalar::ScalarValue;
use models::predicate::domain::{ColumnDomains, Domain, Range, TimeRange};
use models::schema::tskv_table_schema::ColumnType;
use models::schema::TIME_FIELD_NAME;
use futures::FutureExt;
use pbt::{Fail, G, R};
use tskv::compaction::CompactTask;
use utils::precision::Precision;

use crate::cols::{self, Ty};
use crate::engine::*;
use crate::filt::F;

/// How often (relative weights) each step is taken.
#[derive(Clone, Default)]
pub struct Mix {
    pub write: u64,
    pub read: u64,
    pub flush: u64,
    pub switch: u64,
    pub compact: u64,
    pub delete: u64,
    pub drop_column: u64,
    pub drop_table: u64,
    pub update_tags: u64,
    pub reopen: u64,
    pub crash: u64,
    /// crashes in the middle of a step
    pub cut: u64,
    pub snapshot: u64,
    /// reads with a pushed-down filter
    pub filter: u64,
    /// steps at most
    pub len: usize,
    /// points per batch at most
    pub batch: u64,
    /// tags per point at most (0..=3)
    pub tags: usize,
    /// fields get another type now and then
    pub conflicts: bool,
}

const TAGS: [&str; 3] = ["ta", "tb", "tc"];
const VALUES: [&str; 6] = ["a", "b", "aa", "c", "é", "z"];
const FIELDS: [&str; 8] = ["fa", "fb", "fc", "fd", "fe", "ff", "fg", "fh"];

/// A condition on one tag; a missing tag satisfies none.
#[derive(Clone, Debug)]
pub enum Cond {
    In(Vec<String>),
    Ranges(Vec<(Option<(String, bool)>, Option<(String, bool)>)>),
}

impl Cond {
    pub fn any(g: &mut G) -> Cond {
        match g.below(4) {
            0 => {
                let n = g.range(1, 3) as usize;
                Cond::In((0..n).map(|_| tag_value(g)).collect())
            }
            1 => {
                let v = tag_value(g);
                Cond::Ranges(vec![(Some((v.clone(), true)), Some((v, true)))])
            }
            2 => {
                let v = tag_value(g);
                Cond::Ranges(vec![(None, Some((v.clone(), false))), (Some((v, false)), None)])
            }
            _ => {
                let n = g.range(1, 2) as usize;
                let mut out = Vec::new();
                for _ in 0..n {
                    let (a, b) = (tag_value(g), tag_value(g));
                    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
                    let (il, ih) = (g.bool(), g.bool());
                    out.push(match g.below(3) {
                        0 => (Some((lo, il)), None),
                        1 => (None, Some((hi, ih))),
                        _ if lo == hi => (Some((lo, true)), Some((hi, true))),
                        _ => (Some((lo, il)), Some((hi, ih))),
                    });
                }
                Cond::Ranges(out)
            }
        }
    }
    pub fn holds(&self, v: Option<&String>) -> bool {
        let Some(v) = v else { return false };
        match self {
            Cond::In(vs) => vs.contains(v),
            Cond::Ranges(rs) => rs.iter().any(|(lo, hi)| {
                lo.as_ref().map_or(true, |(l, inc)| v > l || (*inc && v == l)) && hi.as_ref().map_or(true, |(h, inc)| v < h || (*inc && v == h))
            }),
        }
    }
    pub fn domain(&self) -> Result<Domain, Fail> {
        let t = DataType::Utf8;
        let sv = |s: &String| ScalarValue::Utf8(Some(s.clone()));
        Ok(match self {
            Cond::In(vs) => {
                let rs: Vec<Range> = vs.iter().map(|v| Range::eq(&t, &sv(v))).collect();
                Domain::of_ranges(&rs).map_err(ferr("domain of values"))?
            }
            Cond::Ranges(rs) => {
                let rs: Vec<Range> = rs
                    .iter()
                    .map(|r| match r {
                        (Some((l, false)), None) => Range::gt(&t, &sv(l)),
                        (Some((l, true)), None) => Range::ge(&t, &sv(l)),
                        (None, Some((h, false))) => Range::lt(&t, &sv(h)),
                        (None, Some((h, true))) => Range::le(&t, &sv(h)),
                        (Some((l, _)), Some((h, _))) if l == h => Range::eq(&t, &sv(l)),
                        (Some((l, false)), Some((h, false))) => Range::gtlt(&t, &sv(l), &sv(h)),
                        (Some((l, true)), Some((h, false))) => Range::gelt(&t, &sv(l), &sv(h)),
                        (Some((l, false)), Some((h, true))) => Range::gtle(&t, &sv(l), &sv(h)),
                        (Some((l, true)), Some((h, true))) => Range::gele(&t, &sv(l), &sv(h)),
                        (None, None) => Range::all(&t),
                    })
                    .collect();
                Domain::of_ranges(&rs).map_err(ferr("domain of ranges"))?
            }
        })
    }
}

#[derive(Clone, Debug, Default)]
pub struct TagPred(pub BTreeMap<String, Cond>);

impl TagPred {
    /// Over the tags a table has.
    pub fn any(g: &mut G, tags: &[String]) -> TagPred {
        let mut p = TagPred::default();
        for t in tags {
            if g.chance(1, 2) {
                p.0.insert(t.clone(), Cond::any(g));
            }
        }
        p
    }
    pub fn holds(&self, tags: &Tags) -> bool {
        self.0.iter().all(|(k, c)| c.holds(tags.get(k)))
    }
    pub fn domains(&self) -> Result<ColumnDomains<String>, Fail> {
        let mut d = ColumnDomains::all();
        for (k, c) in &self.0 {
            d.insert_or_intersect(k.clone(), &c.domain()?);
        }
        Ok(d)
    }
}

fn tag_value(g: &mut G) -> String {
    g.pick(&VALUES).to_string()
}

fn tags(g: &mut G, max: usize) -> Tags {
    let mut out = Tags::new();
    if max == 0 {
        return out;
    }
    for t in TAGS.iter().take(max) {
        if g.chance(3, 4) {
            out.insert(t.to_string(), g.pick(&VALUES[..3]).to_string());
        }
    }
    if out.is_empty() {
        out.insert("ta".into(), g.pick(&VALUES).to_string());
    }
    out
}

pub fn time(g: &mut G) -> i64 {
    match g.weighted(&[12, 4, 1]) {
        0 => g.range(0, 12),
        1 => g.range(-30, 60),
        _ => *g.pick(&[i64::MIN, i64::MIN + 1, i64::MAX - 1, i64::MAX, 1_000_000, -1]),
    }
}

pub fn time_range(g: &mut G) -> TimeRange {
    if g.chance(1, 10) {
        return TimeRange::all();
    }
    let a = time(g);
    let b = if g.chance(1, 2) { a.saturating_add(g.range(0, 8)) } else { time(g) };
    TimeRange::new(a.min(b), a.max(b))
}

fn time_ranges(g: &mut G) -> Vec<TimeRange> {
    let n = if g.chance(3, 4) { 1 } else { 2 };
    let mut rs: Vec<TimeRange> = (0..n).map(|_| time_range(g)).collect();
    rs.sort();
    if rs.len() == 2 && rs[0].max_ts >= rs[1].min_ts {
        rs.pop();
    }
    rs
}

#[derive(Clone)]
pub struct Hist {
    pub types: BTreeMap<String, Ty>,
    /// series the index knows, with or without rows
    pub indexed: BTreeMap<String, BTreeSet<Tags>>,
    /// series the index may know or not
    pub ghosts: BTreeMap<String, BTreeSet<Tags>>,
    pub flushed: bool,
    pub cached: bool,
    pub deleted: bool,
    /// a filter kept some rows and not others
    pub filtered: bool,
}

impl Hist {
    pub fn new(g: &mut G) -> Hist {
        Hist {
            types: FIELDS.iter().map(|f| (f.to_string(), *g.pick(&cols::FIELDS))).collect(),
            indexed: BTreeMap::new(),
            ghosts: BTreeMap::new(),
            flushed: false,
            cached: false,
            deleted: false,
            filtered: false,
        }
    }

    /// The index was built again from the rows there are.
    pub fn reindexed(&mut self, m: &Model) {
        for (t, known) in self.indexed.iter_mut() {
            let rows = m.tables.get(t);
            let has = |tags: &Tags| rows.and_then(|t| t.series.get(tags)).map_or(false, |r| r.values().any(|r| !r.is_empty()));
            let (keep, gone): (BTreeSet<Tags>, BTreeSet<Tags>) = std::mem::take(known).into_iter().partition(has);
            *known = keep;
            self.ghosts.entry(t.clone()).or_default().extend(gone);
        }
        for (t, m) in &m.tables {
            for (tags, r) in &m.series {
                if r.values().any(|r| !r.is_empty()) {
                    self.indexed.entry(t.clone()).or_default().insert(tags.clone());
                }
            }
        }
    }

    pub fn points(&self, g: &mut G, mix: &Mix, types: &BTreeMap<(String, String), Ty>) -> Vec<Point> {
        let n = g.range(1, mix.batch.max(1) as i64) as usize;
        let mut out: Vec<Point> = Vec::new();
        for i in 0..n {
            if i > 0 && !g.chance(7, 8) {
                continue;
            }
            let table = if g.chance(4, 5) { TABLES[0] } else { TABLES[1] }.to_string();
            let ts = if !out.is_empty() && g.chance(1, 4) { out[out.len() - 1].ts } else { time(g) };
            let t = if !out.is_empty() && g.chance(1, 2) { out[out.len() - 1].tags.clone() } else { tags(g, mix.tags) };
            let mut fields = Vec::new();
            for f in FIELDS {
                let want = match f {
                    "fa" => g.chance(3, 4),
                    "fb" | "fc" | "fd" => g.chance(2, 5),
                    _ => g.chance(1, 6),
                };
                if want {
                    let ty = types.get(&(table.clone(), f.to_string())).copied().unwrap_or(self.types[f]);
                    fields.push((f.to_string(), cols::value(g, ty)));
                }
            }
            if fields.is_empty() {
                fields.push(("fa".to_string(), cols::value(g, types.get(&(table.clone(), "fa".to_string())).copied().unwrap_or(self.types["fa"]))));
            }
            out.push(Point { table, tags: t, ts, fields });
        }
        out
    }
}

fn ty_of_column(c: &ColumnType) -> Option<Ty> {
    cols::FIELDS.iter().copied().find(|t| cols::column_type(*t) == *c)
}

/// May the batch be taken, given the schemas?
async fn acceptable(c: &Case, pts: &[Point]) -> bool {
    for p in pts {
        if let Some(s) = c.schema(&p.table).await {
            for (f, v) in &p.fields {
                if let Some(col) = s.column(f) {
                    if ty_of_column(&col.column_type) != Some(ty_of(v)) {
                        return false;
                    }
                }
            }
            for t in p.tags.keys() {
                if s.column(t).map_or(false, |c| !matches!(c.column_type, ColumnType::Tag)) {
                    return false;
                }
            }
        }
    }
    true
}

pub async fn step_write(g: &mut G, c: &mut Case, h: &mut Hist, mix: &Mix) -> R {
    let mut types = BTreeMap::new();
    if mix.conflicts && g.chance(1, 8) {
        types.insert((g.pick(&TABLES).to_string(), g.pick(&FIELDS).to_string()), *g.pick(&cols::FIELDS));
    }
    let mut pts = h.points(g, mix, &types);
    let precision = if g.chance(1, 6) { *g.pick(&[Precision::NS, Precision::US, Precision::MS]) } else { c.precision };
    pts.retain(|p| utils::precision::timestamp_convert(precision, c.precision, p.ts).is_some());
    if pts.is_empty() {
        return Ok(());
    }
    let ok = acceptable(c, &pts).await;
    g.note(|| format!("write {precision:?} (expected {}) {pts:?}", if ok { "taken" } else { "refused" }));
    let r = c.write(&pts, precision).await;
    match (&r, ok) {
        (Ok(()), true) => {
            for p in &pts {
                h.indexed.entry(p.table.clone()).or_default().insert(p.tags.clone());
            }
            h.cached = true;
        }
        (Err(e), true) => return Err(Fail::new(format!("a batch was refused: {e}"))),
        (Ok(()), false) => return Err(Fail::new("a batch with a field of another type than the table's was taken")),
        (Err(_), false) => g.label("refused batch"),
    }
    c.maybe_sync().await
}

pub async fn step_read(g: &mut G, c: &Case, vnode: u32, when: &str) -> R {
    let table = if g.chance(3, 4) { TABLES[0] } else { TABLES[1] };
    let Some(schema) = c.schema(table).await else { return Ok(()) };
    let tag_names: Vec<String> = schema.columns().iter().filter(|c| matches!(c.column_type, ColumnType::Tag)).map(|c| c.name.clone()).collect();
    let field_names: Vec<String> = schema.columns().iter().filter(|c| matches!(c.column_type, ColumnType::Field(_))).map(|c| c.name.clone()).collect();
    let pred = if g.chance(1, 2) { TagPred::any(g, &tag_names) } else { TagPred::default() };
    if !pred.0.is_empty() {
        c.sync().await?; // a node that does not know the tag yet refuses the read
    }
    let fields: Option<Vec<String>> = if g.chance(1, 2) { Some(field_names.into_iter().filter(|_| g.bool()).collect()) } else { None };
    let ranges = if g.chance(1, 3) { vec![TimeRange::all()] } else { time_ranges(g) };
    let r = Read { ranges: ranges.clone(), tags: pred.domains()?, fields: fields.clone(), batch: *g.pick(&[1, 2, 3, 7, 1024]), limit: None, filter: None };
    g.note(|| format!("read {table} times {ranges:?} tags {:?} fields {fields:?} batch {}", pred.0, r.batch));
    let got = c.read_from(vnode, table, &r).await.map_err(|f| Fail { msg: format!("{when}: {}", f.msg), ..f })?;
    let inside = |ts: i64| ranges.iter().any(|r| r.contains(ts));
    let got: Vec<OutRow> = got.into_iter().filter(|o| inside(o.ts)).collect();
    let mut want = c.model.rows(table);
    want.retain(|k, _| inside(k.1) && pred.holds(&k.0));
    if let Some(f) = &fields {
        for row in want.values_mut() {
            row.retain(|k, _| f.contains(k));
        }
    }
    compare(&got, &want, &format!("{when} (times {ranges:?}, tags {:?}, fields {fields:?})", pred.0), table)
}

/// A read with a filter: the rows it gives, filtered once more, are exactly
/// those that satisfy it.
pub async fn step_filter(g: &mut G, c: &Case, h: &mut Hist) -> R {
    let table = if g.chance(3, 4) { TABLES[0] } else { TABLES[1] };
    c.sync().await?;
    let Some(schema) = c.schema(table).await else { return Ok(()) };
    let rows = c.model.rows(table);
    let values = |n: &str| -> Vec<cols::V> {
        let mut out: Vec<cols::V> = rows
            .iter()
            .filter_map(|((tags, ts), row)| {
                if n == TIME_FIELD_NAME {
                    return Some(cols::V::I(*ts));
                }
                tags.get(n).map(|t| cols::V::S(t.clone())).or_else(|| row.get(n).cloned())
            })
            .collect();
        out.sort();
        out.dedup();
        out
    };
    let f = F::any(g, &schema, &values, 3);
    let mut used = Vec::new();
    f.columns(&mut used);
    // how a NaN or a negative zero compares is not the storage's business
    let odd = |v: &cols::V| matches!(v, cols::V::F(b) if f64::from_bits(*b).is_nan() || *b == (-0.0f64).to_bits());
    if used.iter().any(|n| values(n).iter().any(odd)) {
        return Ok(());
    }
    let field_names: Vec<String> = schema.columns().iter().filter(|c| matches!(c.column_type, ColumnType::Field(_))).map(|c| c.name.clone()).collect();
    let fields: Option<Vec<String>> = if g.chance(1, 3) { Some(field_names.into_iter().filter(|n| used.contains(n) || g.bool()).collect()) } else { None };
    let ranges = if g.chance(3, 4) { vec![TimeRange::all()] } else { time_ranges(g) };
    let mut r = Read { ranges: ranges.clone(), fields: fields.clone(), batch: *g.pick(&[1, 2, 3, 7, 1024]), ..Read::default() };
    r.filter = Some(f.physical(&c.read_schema(&schema, &r))?);
    g.note(|| format!("read {table} where {f:?} times {ranges:?} fields {fields:?} batch {}", r.batch));
    let got = c.read(table, &r).await?;
    let inside = |ts: i64| ranges.iter().any(|r| r.contains(ts));
    let got: Vec<OutRow> = got.into_iter().filter(|o| inside(o.ts) && f.eval(&o.tags, o.ts, &o.row) == Some(true)).collect();
    let mut want = rows.clone();
    if let Some(fs) = &fields {
        for row in want.values_mut() {
            row.retain(|k, _| fs.contains(k));
        }
    }
    let all = want.len();
    want.retain(|k, row| inside(k.1) && f.eval(&k.0, k.1, row) == Some(true));
    h.filtered |= !want.is_empty() && want.len() < all;
    compare(&got, &want, &format!("read where {f:?} (times {ranges:?}, fields {fields:?})"), table)
}

pub async fn step_delete(g: &mut G, c: &mut Case, h: &mut Hist) -> R {
    let table = if g.chance(3, 4) { TABLES[0] } else { TABLES[1] };
    let Some(schema) = c.schema(table).await else { return Ok(()) };
    let tag_names: Vec<String> = schema.columns().iter().filter(|c| matches!(c.column_type, ColumnType::Tag)).map(|c| c.name.clone()).collect();
    let pred = if g.chance(2, 3) { TagPred::any(g, &tag_names) } else { TagPred::default() };
    let ranges = time_ranges(g);
    c.sync().await?;
    g.note(|| format!("delete from {table} times {ranges:?} tags {:?}", pred.0));
    c.delete(table, &ranges, pred.domains()?).await?;
    if let Some(t) = c.model.tables.get_mut(table) {
        for (tags, rows) in t.series.iter_mut() {
            if pred.holds(tags) {
                let before = rows.len();
                rows.retain(|ts, _| !ranges.iter().any(|r| r.contains(*ts)));
                h.deleted |= rows.len() < before;
            }
        }
    }
    Ok(())
}

pub async fn step_update_tags(g: &mut G, c: &mut Case, h: &mut Hist) -> R {
    let table = if g.chance(3, 4) { TABLES[0] } else { TABLES[1] };
    let Some(schema) = c.schema(table).await else { return Ok(()) };
    let tag_names: Vec<String> = schema.columns().iter().filter(|c| matches!(c.column_type, ColumnType::Tag)).map(|c| c.name.clone()).collect();
    let Some(series) = h.indexed.get(table) else { return Ok(()) };
    let list: Vec<Tags> = series.iter().cloned().collect();
    let matched: Vec<Tags> = list.into_iter().filter(|_| g.chance(1, 3)).collect();
    if matched.is_empty() || tag_names.is_empty() {
        return Ok(());
    }
    let n = if g.chance(3, 4) { 1 } else { 2.min(tag_names.len()) };
    let mut new: Vec<(String, Option<String>)> = Vec::new();
    for _ in 0..n {
        let k = g.pick(&tag_names).clone();
        if new.iter().any(|(x, _)| *x == k) {
            continue;
        }
        let v = if g.chance(1, 6) { None } else if g.bool() { Some(tag_value(g)) } else { Some(g.ident(3)) };
        new.push((k, v));
    }
    let mut moved: Vec<(Tags, Tags)> = Vec::new();
    for m in &matched {
        let mut t = m.clone();
        for (k, v) in &new {
            match v {
                Some(v) => {
                    t.insert(k.clone(), v.clone());
                }
                None => {
                    t.remove(k);
                }
            }
        }
        moved.push((m.clone(), t));
    }
    if moved.iter().any(|(_, n)| n.is_empty()) {
        return Ok(()); // a series without tags is not written by the generator either
    }
    if h.ghosts.get(table).map_or(false, |gh| moved.iter().any(|(_, n)| gh.contains(n))) {
        return Ok(());
    }
    let distinct: BTreeSet<&Tags> = moved.iter().map(|(_, n)| n).collect();
    let ok = distinct.len() == moved.len() && !moved.iter().any(|(_, n)| series.contains(n));
    let dry = g.chance(1, 8);
    g.note(|| format!("update {table} set {new:?} of {matched:?}, dry run {dry}, expected {}", if ok { "done" } else { "refused" }));
    let r = c.update_tags(table, &new, &matched, dry).await;
    match (&r, ok) {
        (Ok(()), true) => {}
        (Err(e), true) => return Err(Fail::new(format!("a tag update was refused: {e}"))),
        (Ok(()), false) => return Err(Fail::new("a tag update that makes two series one was taken")),
        (Err(_), false) => {
            g.label("refused tag update");
            return Ok(());
        }
    }
    if dry {
        return Ok(());
    }
    g.label("tag update");
    let idx = h.indexed.get_mut(table).expect("indexed");
    let t = c.model.tables.entry(table.to_string()).or_default();
    let mut rows = Vec::new();
    for (old, _) in &moved {
        idx.remove(old);
        rows.push(t.series.remove(old));
    }
    for ((_, new), r) in moved.into_iter().zip(rows) {
        idx.insert(new.clone());
        if let Some(r) = r {
            t.series.insert(new, r);
        }
    }
    Ok(())
}

pub fn compact_task(g: &mut G, id: u32) -> CompactTask {
    match g.below(3) {
        0 => CompactTask::Normal(id),
        1 => CompactTask::Delta(id),
        _ => CompactTask::Manual(id),
    }
}

/// A step, and the process ends while it changes the files. What was logged is
/// done, what was not is not.
/// A field of the table, if it is not the last one.
async fn a_column(g: &mut G, c: &Case, table: &str) -> Option<String> {
    let s = c.schema(table).await?;
    let fields: Vec<String> = s.columns().iter().filter(|c| matches!(c.column_type, ColumnType::Field(_))).map(|c| c.name.clone()).collect();
    (fields.len() > 1).then(|| g.pick(&fields).clone())
}

/// Something which may panic when the process comes to its end in the middle of it.
async fn dying<T>(c: &Case, f: impl std::future::Future<Output = Result<T, Fail>>) -> R {
    match std::panic::AssertUnwindSafe(f).catch_unwind().await {
        _ if c.ended() => Ok(()),
        Ok(r) => r.map(|_| ()),
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub async fn step_cut(g: &mut G, c: &mut Case, h: &mut Hist, mix: &Mix) -> Result<bool, Fail> {
    let what = g.weighted(&[3, 3, 3, mix.delete, mix.update_tags, 2, mix.drop_table, mix.drop_column]);
    let n = match g.weighted(&[4, 3, 1]) {
        0 => g.below(4),
        1 => g.below(20),
        _ => g.below(100),
    };
    let part = if g.chance(1, 2) { g.below(1001) as usize } else { 0 };
    let before = (c.model.clone(), h.clone());
    let quiet = Mix { conflicts: false, ..mix.clone() };
    let id = c.vnode_id;
    let table = if g.chance(3, 4) { TABLES[0] } else { TABLES[1] };
    let column = if what == 7 { a_column(g, c, table).await } else { None };
    if what == 7 && column.is_none() {
        return Ok(false);
    }
    let again = column.clone();
    if what == 5 {
        g.note(|| format!("crash, and the process ends at change {n} (part {part}) of the recovery"));
        c.wal = None;
        c.reopen().await?;
        c.end_at(n, part);
        c.recover().await?;
    } else {
        g.note(|| format!("the process ends at change {n} (part {part}) of the next step"));
        let task = compact_task(g, id);
        c.end_at(n, part);
        let r = match what {
            0 => step_write(g, c, h, &quiet).await,
            1 => {
                g.note(|| "flush".into());
                dying(c, c.flush()).await
            }
            2 => {
                g.note(|| format!("compact {task:?}"));
                dying(c, c.compact(task)).await
            }
            3 => step_delete(g, c, h).await,
            6 => {
                g.note(|| format!("drop table {table}"));
                c.drop_table(table).await
            }
            7 => {
                let f = column.expect("a column");
                g.note(|| format!("drop column {table}.{f}"));
                c.drop_column(table, &f).await
            }
            _ => step_update_tags(g, c, h).await,
        };
        if !c.ended() {
            r?;
            if what == 1 {
                h.flushed |= h.cached;
                h.cached = false;
            }
        }
    }
    if c.unlogged {
        (c.model, *h) = before;
    }
    let at = c.restart_if_ended().await?;
    match &again {
        Some(f) if at.is_some() => c.drop_column(table, f).await?,
        _ if what == 6 && at.is_some() => c.drop_table(table).await?,
        _ => {}
    }
    if what == 6 {
        h.indexed.remove(table);
    }
    let Some(at) = at else { return Ok(false) };
    g.note(|| format!("it ended at: {at}"));
    g.label(["in a write", "in a flush", "in a compaction", "in a delete", "in a tag update", "in the recovery", "in a table drop", "in a column drop"][what]);
    c.check_all(id, &format!("after the process ended at {at}")).await?;
    Ok(true)
}

pub async fn history(g: &mut G, c: &mut Case, mix: Mix) -> R {
    let mut h = Hist::new(g);
    let w = [
        mix.write, mix.read, mix.flush, mix.switch, mix.compact, mix.delete, mix.drop_column, mix.drop_table, mix.update_tags, mix.reopen, mix.crash,
        mix.snapshot, mix.filter, mix.cut,
    ];
    let mut layers: BTreeSet<&'static str> = BTreeSet::new();
    let mut kept: Option<Snap> = None;
    for i in 0..3 * mix.len {
        g.mark();
        // no length up front: a step can be left out without moving the others
        if i > 1 && g.below(mix.len as u64) == 0 {
            break;
        }
        let op = if i == 0 { 0 } else { g.weighted(&w) };
        match op {
            0 => step_write(g, c, &mut h, &mix).await?,
            1 => step_read(g, c, c.vnode_id, "read").await?,
            2 => {
                g.note(|| "flush".into());
                c.flush().await?;
                h.flushed |= h.cached;
                h.cached = false;
                layers.insert("flush");
            }
            3 => {
                g.note(|| "switch memcache".into());
                c.vnode().get_ts_family().write().await.switch_to_immutable();
                layers.insert("immutable memcache");
            }
            4 => {
                let id = c.vnode_id;
                let task = compact_task(g, id);
                g.note(|| format!("compact {task:?}"));
                if c.compact(task).await? {
                    layers.insert("compaction");
                }
            }
            5 => {
                step_delete(g, c, &mut h).await?;
                if h.deleted {
                    layers.insert("delete");
                }
            }
            6 => {
                let table = if g.chance(3, 4) { TABLES[0] } else { TABLES[1] };
                if let Some(f) = a_column(g, c, table).await {
                    g.note(|| format!("drop column {table}.{f}"));
                    c.drop_column(table, &f).await?;
                    // what it held may come back with another type
                    if mix.conflicts && g.chance(1, 3) {
                        h.types.insert(f, *g.pick(&cols::FIELDS));
                    }
                    layers.insert("drop column");
                }
            }
            7 => {
                let table = if g.chance(1, 2) { TABLES[0] } else { TABLES[1] };
                g.note(|| format!("drop table {table}"));
                c.drop_table(table).await?;
                h.indexed.remove(table);
                layers.insert("drop table");
            }
            8 => {
                step_update_tags(g, c, &mut h).await?;
            }
            9 => {
                g.note(|| "flush and reopen".into());
                c.flush().await?;
                c.vnode().sync_index().await;
                c.reopen().await?;
                layers.insert("reopen");
            }
            10 => {
                g.note(|| "crash".into());
                c.crash().await?;
                layers.insert("crash");
            }
            13 => {
                if step_cut(g, c, &mut h, &mix).await? {
                    layers.insert("crash inside");
                }
            }
            12 => {
                step_filter(g, c, &mut h).await?;
                if h.filtered {
                    layers.insert("filter");
                }
            }
            _ => {
                match kept.take() {
                    Some(s) if g.bool() => {
                        g.note(|| "restore the vnode from the snapshot kept".into());
                        c.model = s.model.clone();
                        c.install(s, c.vnode_id).await?;
                        h.reindexed(&c.model);
                        c.check_all(c.vnode_id, "after the vnode was restored").await?;
                        layers.insert("restore");
                    }
                    _ if g.chance(1, 3) => {
                        g.note(|| "take and keep a snapshot".into());
                        kept = Some(c.take_snapshot().await?);
                    }
                    _ => {
                        let go_on = g.bool();
                        g.note(|| format!("snapshot to another vnode{}", if go_on { ", go on with it" } else { "" }));
                        let s = c.take_snapshot().await?;
                        let to = c.replica(s).await?;
                        c.check_all(to, "the other vnode after the snapshot").await?;
                        if go_on {
                            c.go_on_with(to).await?;
                            h.reindexed(&c.model);
                        }
                        layers.insert("replica");
                    }
                }
            }
        }
        // it does not know what the metadata changed
        if matches!(op, 6 | 7 | 8) {
            kept = None;
        }
        if op > 1 && op != 12 && g.chance(1, 2) {
            c.check_all(c.vnode_id, "after this step").await?;
        }
    }
    c.check_all(c.vnode_id, "at the end").await?;
    for l in &layers {
        g.label(l);
    }
    let rows: usize = c.model.tables.values().flat_map(|t| t.series.values()).map(|r| r.len()).sum();
    if rows > 0 && (!layers.is_empty() || mix.flush == 0) && (mix.filter == 0 || h.filtered) {
        g.nontrivial();
    }
    Ok(())
}

pub type Fut<'a> = Pin<Box<dyn Future<Output = R> + 'a>>;
