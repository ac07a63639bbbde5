//! Line protocol text -> lines -> column batches -> the write request.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use arrow_array::*;
use models::codec::Encoding;
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::ValueType;
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};
use protocol_parser::line_protocol::line_protocol_to_lines;
use protocol_parser::lines_convert::{arrow_array_to_points, line_to_batches, mutable_batches_to_point};
use protocol_parser::Line;
use protos::models::{ColumnType as FbColumnType, FieldType, Points};
use protos::FieldValue;

pub fn check() -> Check {
    Check {
        property: "C09",
        level: "exploration",
        assumptions: &["number parsing (crates atoi_simd, fast-float) is replaced by the standard library's"],
        subs: vec![
            Sub { name: "lines", rule: "up to 6 generated points, written in line protocol with random spellings (escapes, spacing, comments, CRLF, boolean forms, no timestamp), parse to exactly those points in order; non-trivial: an escaped name or quoted text, and two lines", quick: 600_000, thorough: 4_000_000, serial: false, f: lines },
            Sub { name: "concat", rule: "two random (also damaged) texts that parse on their own, joined by a newline, parse to the concatenation; any text parses or is refused without a crash; non-trivial: both parse to at least a line and one was damaged", quick: 1_000_000, thorough: 8_000_000, serial: false, f: concat },
            Sub { name: "points", rule: "lines -> batches -> write request decodes to one row per line, table by table, with every tag, field, kind and time; non-trivial: two lines of a table with different columns", quick: 400_000, thorough: 2_000_000, serial: false, f: points },
            Sub { name: "arrow", rule: "arrow columns of a random schema become a write request with the same values and nulls; non-trivial: a null and two columns", quick: 200_000, thorough: 1_000_000, serial: false, f: arrow },
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pt {
    pub table: String,
    pub tags: Vec<(String, String)>,
    pub fields: Vec<(String, FieldValue)>,
    pub time: Option<i64>,
}

const NAME: &[char] = &['a', 'b', 'c', 'Z', '0', '_', '-', '.', ' ', ',', '=', '"', '\'', 'é', '中', '😀', '#', '/'];

fn name(g: &mut G) -> String {
    if g.chance(2, 3) {
        g.ident(3)
    } else {
        g.string_of(NAME, 1, 6)
    }
}

fn string_value(g: &mut G) -> String {
    match g.weighted(&[3, 3, 1]) {
        0 => g.ident(6),
        1 => g.string_of(&['a', ' ', ',', '=', '"', '\\', '\n', '\r', '\t', '\'', 'é', '中', '#', '1'], 0, 10),
        _ => g.text(12),
    }
}

fn value(g: &mut G, kind: u64) -> FieldValue {
    match kind {
        0 => FieldValue::F64(finite(g)),
        1 => FieldValue::I64(g.i64_any()),
        2 => FieldValue::U64(g.u64_any()),
        3 => FieldValue::Bool(g.bool()),
        _ => FieldValue::Str(string_value(g).into_bytes()),
    }
}

pub fn finite(g: &mut G) -> f64 {
    let f = g.f64_any(false);
    if f.is_finite() {
        f
    } else {
        0.5
    }
}

pub fn pt(g: &mut G) -> Pt {
    let table = loop {
        let t = name(g);
        // a line whose first character is '#' is a comment
        if !t.starts_with('#') {
            break t;
        }
    };
    let mut seen = BTreeSet::new();
    let mut tags = vec![];
    for _ in 0..g.few(3) {
        let k = name(g);
        if seen.insert(k.clone()) {
            tags.push((k, name(g)));
        }
    }
    let mut fields = vec![];
    for _ in 0..1 + g.few(3) {
        let k = name(g);
        if seen.insert(k.clone()) {
            let kind = g.below(5);
            fields.push((k, value(g, kind)));
        }
    }
    if fields.is_empty() {
        fields.push(("only".into(), FieldValue::I64(1)));
    }
    let time = if g.chance(3, 4) { Some(g.i64_any()) } else { None };
    Pt { table, tags, fields, time }
}

fn esc(s: &str, eq: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == ',' || c == ' ' || (eq && c == '=') {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

fn val_text(g: &mut G, v: &FieldValue) -> String {
    match v {
        FieldValue::F64(f) => match g.below(3) {
            0 => format!("{f:?}"),
            1 => format!("{f:e}"),
            _ => format!("{f}"),
        },
        FieldValue::I64(i) => format!("{i}i"),
        FieldValue::U64(u) => format!("{u}u"),
        FieldValue::Bool(b) => {
            let forms: [&str; 5] = if *b { ["t", "T", "true", "True", "TRUE"] } else { ["f", "F", "false", "False", "FALSE"] };
            forms[g.usize(0, 4)].to_string()
        }
        FieldValue::Str(s) => {
            let s = std::str::from_utf8(s).unwrap();
            let mut o = String::from("\"");
            for c in s.chars() {
                if c == '"' || c == '\\' {
                    o.push('\\');
                }
                o.push(c);
            }
            o.push('"');
            o
        }
    }
}

/// One point as text, without the line end.
pub fn write_pt(g: &mut G, p: &Pt) -> String {
    let sp = |g: &mut G| " ".repeat(1 + g.below(2) as usize);
    let mut o = esc(&p.table, false);
    for (k, v) in &p.tags {
        o.push_str(&format!(",{}={}", esc(k, true), esc(v, true)));
    }
    o.push_str(&sp(g));
    for (i, (k, v)) in p.fields.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{}={}", esc(k, true), val_text(g, v)));
    }
    if let Some(t) = p.time {
        o.push_str(&sp(g));
        o.push_str(&t.to_string());
    }
    if g.chance(1, 8) {
        o.push_str(&sp(g));
    }
    o
}

fn hash(table: &str, tags: &[(String, String)]) -> u64 {
    let mut h = 0u64;
    let mut add = |s: &str| {
        for b in s.bytes() {
            h = h.wrapping_mul(1313).wrapping_add(b as u64);
        }
    };
    add(table);
    for (k, v) in tags {
        add(k);
        add(v);
    }
    h
}

fn same(a: &FieldValue, b: &FieldValue) -> bool {
    match (a, b) {
        (FieldValue::F64(x), FieldValue::F64(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

/// The line says what the point says.
pub fn agrees(l: &Line, p: &Pt, default: i64) -> Result<(), String> {
    let mut tags = p.tags.clone();
    tags.sort();
    let mut fields = p.fields.clone();
    fields.sort_by(|a, b| a.0.cmp(&b.0));
    if l.table != p.table {
        return Err(format!("table {:?}, written {:?}", l.table, p.table));
    }
    if l.timestamp != p.time.unwrap_or(default) {
        return Err(format!("time {}, written {:?}", l.timestamp, p.time));
    }
    let got: Vec<(String, String)> = l.tags.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if got != tags {
        return Err(format!("tags {got:?}, written {tags:?}"));
    }
    if l.fields.len() != fields.len() || l.fields.iter().zip(&fields).any(|(a, b)| a.0 != b.0 || !same(&a.1, &b.1)) {
        return Err(format!("fields {:?}, written {fields:?}", l.fields));
    }
    if l.hash_id != hash(&p.table, &tags) {
        return Err(format!("hash {}, of table and tags {}", l.hash_id, hash(&p.table, &tags)));
    }
    Ok(())
}

fn lines(g: &mut G) -> R {
    let pts = g.vec(0, 6, pt);
    let default = g.i64_any();
    let mut text = String::new();
    let mut interesting = false;
    for (i, p) in pts.iter().enumerate() {
        if g.chance(1, 6) {
            text.push_str(["\n", "# a comment, with=things \"\n", "\r\n", "   \n", "\t\n"][g.usize(0, 4)]);
        }
        if g.chance(1, 8) {
            text.push_str("  ");
        }
        let mut l = write_pt(g, p);
        // a repeated tag or field counts once
        if g.chance(1, 12) {
            let k = p.fields[0].0.clone();
            l = {
                let mut q = p.clone();
                q.fields.push((k, p.fields[0].1.clone()));
                write_pt(g, &q)
            };
        }
        interesting |= l.contains('\\') || l.contains('"');
        text.push_str(&l);
        if i + 1 < pts.len() || g.bool() {
            text.push_str(if g.chance(1, 4) { "\r\n" } else { "\n" });
        }
    }
    g.show("text", &text);
    let got = match line_protocol_to_lines(&text, default) {
        Ok(l) => l,
        Err(e) => fail!("well-formed text is refused: {e}"),
    };
    ensure_eq!(got.len(), pts.len(), "number of lines");
    for (i, (l, p)) in got.iter().zip(&pts).enumerate() {
        if let Err(e) = agrees(l, p, default) {
            fail!("line {i}: {e}");
        }
    }
    if pts.len() >= 2 && interesting {
        g.nontrivial();
    }
    Ok(())
}

fn damage(g: &mut G, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + g.below(3) {
        let at = g.below(cs.len() as u64 + 1) as usize;
        match g.below(3) {
            0 if at < cs.len() => {
                cs.remove(at);
            }
            1 if at < cs.len() => {
                cs[at] = *g.pick(&[' ', ',', '=', '"', '\\', '\n', 't', '1', '-', 'i', '.', '\0']);
            }
            _ => cs.insert(at, *g.pick(&[' ', ',', '=', '"', '\\', '\n', 'f', '0', '-', 'u', '#', 'é'])),
        }
    }
    cs.into_iter().collect()
}

fn text(g: &mut G) -> (String, bool) {
    let mut t = String::new();
    for i in 0..1 + g.below(2) {
        if i > 0 {
            t.push('\n');
        }
        let p = pt(g);
        t.push_str(&write_pt(g, &p));
    }
    if g.chance(2, 3) {
        (damage(g, &t), true)
    } else {
        (t, false)
    }
}

fn concat(g: &mut G) -> R {
    let (a, da) = text(g);
    let (b, db) = text(g);
    let joined = format!("{a}\n{b}");
    g.show("first", &a);
    g.show("second", &b);
    let (Ok(la), Ok(lb)) = (line_protocol_to_lines(&a, 7), line_protocol_to_lines(&b, 7)) else {
        let _ = line_protocol_to_lines(&joined, 7);
        return Ok(());
    };
    for l in la.iter().chain(&lb) {
        // what was read is text again
        let mut ok = std::str::from_utf8(l.table.as_bytes()).is_ok();
        for (k, v) in &l.tags {
            ok &= std::str::from_utf8(k.as_bytes()).is_ok() && std::str::from_utf8(v.as_bytes()).is_ok();
        }
        for (k, v) in &l.fields {
            ok &= std::str::from_utf8(k.as_bytes()).is_ok();
            if let FieldValue::Str(s) = v {
                ok &= std::str::from_utf8(s).is_ok();
            }
        }
        ensure!(ok, "a line is not UTF-8: {l:?}");
    }
    let lj = match line_protocol_to_lines(&joined, 7) {
        Ok(l) => l,
        Err(e) => fail!("each text is accepted on its own, both on lines of their own are refused: {e}"),
    };
    ensure!(
        lj.len() == la.len() + lb.len() && lj.iter().zip(la.iter().chain(&lb)).all(|(x, y)| format!("{x:?}") == format!("{y:?}")),
        "joined text reads {lj:?}, its parts {la:?} and {lb:?}"
    );
    if !la.is_empty() && !lb.is_empty() && (da || db) {
        g.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Tag(String),
    Time(i64),
    Field(FieldValue),
}

/// A write request as rows: table -> rows of column -> cell.
pub fn decode(buf: &[u8]) -> Result<(String, BTreeMap<String, Vec<BTreeMap<String, Cell>>>), String> {
    let p = flatbuffers::root::<Points>(buf).map_err(|e| format!("not a write request: {e}"))?;
    let mut out = BTreeMap::new();
    for t in p.tables_iter_ext().map_err(|e| e.to_string())? {
        let n = t.num_rows() as usize;
        let mut rows = vec![BTreeMap::new(); n];
        let mut names = BTreeSet::new();
        for c in t.columns_iter_ext().map_err(|e| e.to_string())? {
            let name = c.name_ext().map_err(|e| e.to_string())?.to_string();
            if !names.insert(name.clone()) {
                return Err(format!("column {name:?} twice"));
            }
            let bits = c.nullbit_ext().map_err(|e| e.to_string())?;
            if bits.len() != n.div_ceil(8) {
                return Err(format!("{} bytes of null bits for {n} rows", bits.len()));
            }
            let valid = |i: usize| bits.get(i / 8) & (1 << (i % 8)) != 0;
            let e = |e: protos::PointsError| e.to_string();
            let vals: Vec<FieldValue> = match c.field_type() {
                FieldType::Float => c.float_values().map_err(e)?.iter().map(FieldValue::F64).collect(),
                FieldType::Integer => c.int_values().map_err(e)?.iter().map(FieldValue::I64).collect(),
                FieldType::Unsigned => c.uint_values().map_err(e)?.iter().map(FieldValue::U64).collect(),
                FieldType::Boolean => c.bool_values().map_err(e)?.iter().map(FieldValue::Bool).collect(),
                FieldType::String => c.string_values().map_err(e)?.iter().map(|s| FieldValue::Str(s.as_bytes().to_vec())).collect(),
                x => return Err(format!("field type {x:?}")),
            };
            if vals.len() != n {
                return Err(format!("{} values for {n} rows in {name:?}", vals.len()));
            }
            for (i, v) in vals.into_iter().enumerate() {
                if !valid(i) {
                    continue;
                }
                let cell = match (c.column_type(), v) {
                    (FbColumnType::Tag, FieldValue::Str(s)) => Cell::Tag(String::from_utf8(s).unwrap()),
                    (FbColumnType::Time, FieldValue::I64(t)) => Cell::Time(t),
                    (FbColumnType::Field, v) => Cell::Field(v),
                    (k, v) => return Err(format!("a {k:?} column holds {v:?}")),
                };
                rows[i].insert(name.clone(), cell);
            }
        }
        if out.insert(t.tab_ext().map_err(|e| e.to_string())?.to_string(), rows).is_some() {
            return Err("a table twice".into());
        }
    }
    Ok((p.db_ext().map_err(|e| e.to_string())?.to_string(), out))
}

fn cell_eq(a: &Cell, b: &Cell) -> bool {
    match (a, b) {
        (Cell::Field(x), Cell::Field(y)) => same(x, y),
        _ => a == b,
    }
}

fn points(g: &mut G) -> R {
    // a small set of columns so that lines of a table share some
    let n = 1 + g.few(5) as usize;
    let consistent = g.chance(3, 4);
    let mut pts = vec![];
    for _ in 0..n {
        let table = ["m", "n", "a b"][g.weighted(&[4, 1, 1])].to_string();
        let mut tags = vec![];
        for k in ["t0", "t1", "t2"] {
            if g.chance(1, 2) {
                tags.push((k.to_string(), g.ident(3)));
            }
        }
        let mut fields = vec![];
        for (i, k) in ["f0", "f1", "f2", "f3", "f4", "t1", "time"].iter().enumerate() {
            if i < 5 || !consistent {
                if g.chance(1, 2) {
                    let kind = if consistent { i as u64 } else { g.below(5) };
                    fields.push((k.to_string(), value(g, kind)));
                }
            }
        }
        pts.push(Pt { table, tags, fields, time: Some(g.i64_any()) });
    }
    if !consistent && g.chance(1, 8) {
        pts[0].tags.push(("time".into(), "x".into()));
    }
    let lines: Vec<Line> = pts
        .iter()
        .map(|p| {
            Line::new(
                p.table.as_str().into(),
                p.tags.iter().map(|(a, b)| (a.as_str().into(), b.as_str().into())).collect(),
                p.fields.iter().map(|(a, b)| (a.as_str().into(), b.clone())).collect(),
                p.time.unwrap(),
            )
        })
        .collect();
    g.show("points", &pts);
    let mut want: BTreeMap<String, Vec<BTreeMap<String, Cell>>> = BTreeMap::new();
    let mut kinds: BTreeMap<(String, String), u8> = BTreeMap::new();
    let mut clash = false;
    for p in &pts {
        let mut row = BTreeMap::new();
        let mut add = |k: &str, c: Cell| {
            let kind = match &c {
                Cell::Tag(_) => 0,
                Cell::Time(_) => 1,
                Cell::Field(FieldValue::F64(_)) => 2,
                Cell::Field(FieldValue::I64(_)) => 3,
                Cell::Field(FieldValue::U64(_)) => 4,
                Cell::Field(FieldValue::Bool(_)) => 5,
                Cell::Field(FieldValue::Str(_)) => 6,
            };
            clash |= *kinds.entry((p.table.clone(), k.to_string())).or_insert(kind) != kind;
            row.insert(k.to_string(), c);
        };
        for (k, v) in &p.tags {
            add(k, Cell::Tag(v.clone()));
        }
        for (k, v) in &p.fields {
            add(k, Cell::Field(v.clone()));
        }
        add("time", Cell::Time(p.time.unwrap()));
        want.entry(p.table.clone()).or_default().push(row);
    }
    let b = match line_to_batches(&lines) {
        Ok(b) => {
            ensure!(!clash, "a column of two kinds or types is accepted");
            b
        }
        Err(e) => {
            ensure!(clash, "lines are refused: {e}");
            g.label("clash refused");
            return Ok(());
        }
    };
    let buf = mutable_batches_to_point("the db", b);
    let (db, got) = match decode(&buf) {
        Ok(x) => x,
        Err(e) => fail!("{e}"),
    };
    ensure_eq!(db, "the db", "database");
    ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "tables");
    let mut mixed = false;
    for (t, rows) in &want {
        let r = &got[t];
        ensure_eq!(r.len(), rows.len(), "rows of {t}");
        for (i, (a, b)) in r.iter().zip(rows).enumerate() {
            ensure!(
                a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && cell_eq(x, y)),
                "row {i} of {t}: {a:?}, written {b:?}"
            );
        }
        mixed |= rows.windows(2).any(|w| w[0].keys().ne(w[1].keys()));
    }
    if mixed {
        g.nontrivial();
    }
    Ok(())
}

fn arrow(g: &mut G) -> R {
    let rows = g.few(19) as usize;
    let unit = g.below(3);
    let mut cols = vec![TableColumn::new(
        0,
        "time".into(),
        ColumnType::Time([arrow_schema::TimeUnit::Nanosecond, arrow_schema::TimeUnit::Microsecond, arrow_schema::TimeUnit::Millisecond][unit as usize].clone()),
        Encoding::Default,
    )];
    let mut arrays: Vec<ArrayRef> = vec![];
    let mut want = vec![BTreeMap::new(); rows];
    let times: Vec<i64> = (0..rows).map(|_| g.i64_any()).collect();
    for (r, t) in want.iter_mut().zip(&times) {
        r.insert("time".to_string(), Cell::Time(*t));
    }
    arrays.push(match unit {
        0 => Arc::new(TimestampNanosecondArray::from(times)),
        1 => Arc::new(TimestampMicrosecondArray::from(times)),
        _ => Arc::new(TimestampMillisecondArray::from(times)),
    });
    let n = 1 + g.few(4);
    let mut nulls = false;
    for c in 0..n {
        let name = format!("c{c}");
        let kind = g.below(6);
        let mut put = |r: usize, v: Option<Cell>| {
            if let Some(v) = v {
                want[r].insert(name.clone(), v);
            } else {
                nulls = true;
            }
        };
        macro_rules! col {
            ($gen:expr, $arr:ty, $cell:expr) => {{
                let vs: Vec<_> = (0..rows).map(|_| if g.chance(1, 4) { None } else { Some($gen) }).collect();
                for (r, v) in vs.iter().enumerate() {
                    put(r, v.clone().map($cell));
                }
                Arc::new(vs.into_iter().collect::<$arr>()) as ArrayRef
            }};
        }
        let (ty, arr) = match kind {
            0 => (ColumnType::Tag, col!(string_value(g), StringArray, Cell::Tag)),
            1 => (ColumnType::Field(ValueType::Float), col!(g.f64_any(false), Float64Array, |v| Cell::Field(FieldValue::F64(v)))),
            2 => (ColumnType::Field(ValueType::Integer), col!(g.i64_any(), Int64Array, |v| Cell::Field(FieldValue::I64(v)))),
            3 => (ColumnType::Field(ValueType::Unsigned), col!(g.u64_any(), UInt64Array, |v| Cell::Field(FieldValue::U64(v)))),
            4 => (ColumnType::Field(ValueType::Boolean), col!(g.bool(), BooleanArray, |v| Cell::Field(FieldValue::Bool(v)))),
            _ => (ColumnType::Field(ValueType::String), col!(string_value(g), StringArray, |v: String| Cell::Field(FieldValue::Str(v.into_bytes())))),
        };
        cols.push(TableColumn::new(c as u32 + 1, name.clone(), ty, Encoding::Default));
        arrays.push(arr);
    }
    g.show("columns", &cols);
    let schema = TskvTableSchema::new("t".into(), "db1".into(), "tab".into(), cols);
    // the batch may have its columns in any order
    let mut fields: Vec<arrow_schema::Field> = arrays.iter().zip(schema.columns()).map(|(a, c)| arrow_schema::Field::new(&c.name, a.data_type().clone(), true)).collect();
    for i in (1..fields.len()).rev() {
        let j = g.usize(0, i);
        fields.swap(i, j);
        arrays.swap(i, j);
    }
    let buf = match arrow_array_to_points(arrays, Arc::new(arrow_schema::Schema::new(fields)), Arc::new(schema), rows) {
        Ok(b) => b,
        Err(e) => fail!("refused: {e}"),
    };
    let (db, got) = match decode(&buf) {
        Ok(x) => x,
        Err(e) => fail!("{e}"),
    };
    ensure_eq!(db, "db1", "database");
    ensure_eq!(got.len(), 1, "tables");
    let r = &got["tab"];
    ensure_eq!(r.len(), rows, "rows");
    for (i, (a, b)) in r.iter().zip(&want).enumerate() {
        ensure!(a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && cell_eq(x, y)), "row {i}: {a:?}, given {b:?}");
    }
    if nulls && n >= 2 {
        g.nontrivial();
    }
    Ok(())
}
