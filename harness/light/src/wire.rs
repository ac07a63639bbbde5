//! Wire formats: column batches (flatbuffers), kv_service messages (protobuf),
//! and the gRPC clients' limits.
use std::collections::{BTreeMap, HashMap};
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

use flatbuffers::FlatBufferBuilder;
use futures::Stream;
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};
use prost::Message;
use protos::kv_service::tskv_service_server::{TskvService, TskvServiceServer};
use protos::kv_service::*;
use protos::models::*;
use protos::models_helper::{create_const_points, create_points, parse_prost_bytes, parse_proto_bytes, to_prost_bytes, to_proto_bytes};
use protos::raft_service::raft_service_server::{RaftService, RaftServiceServer};
use protos::raft_service::*;
use tonic::codec::CompressionEncoding;

pub fn check() -> Check {
    Check {
        property: "C39",
        level: "exploration",
        assumptions: &["flatbuffers and prost/protobuf runtimes are trusted; what is checked is the code generated for cnosdb's schemas and cnosdb's accessors"],
        subs: vec![
            Sub { name: "columns", rule: "random batches of tables and columns, any part absent, built with the generated builders and read with the accessors vs the model; non-trivial: a column with values and nulls, and one with a part missing", quick: 100_000, thorough: 4_000_000, serial: false, f: columns },
            Sub { name: "helpers", rule: "create_points/create_const_points → parsed batch holds exactly the given rows; non-trivial: ≥ 2 tags, ≥ 3 fields, ≥ 2 rows", quick: 50_000, thorough: 2_000_000, serial: false, f: helpers },
            Sub { name: "damage", rule: "a valid batch with bytes changed, cut or extended: the verifier refuses it or every accessor and the printed form can be read without a panic; non-trivial: refused", quick: 200_000, thorough: 8_000_000, serial: false, f: damage },
            Sub { name: "messages", rule: "random kv_service/raft_service commands: encode and parse give the same message, a concatenation merges, damaged bytes give an error or a message; non-trivial: the command is set", quick: 250_000, thorough: 10_000_000, serial: false, f: messages },
            Sub { name: "prometheus", rule: "random remote-write/read messages round trip; damaged bytes do not panic; non-trivial: ≥ 2 series with labels and samples", quick: 100_000, thorough: 4_000_000, serial: false, f: prom },
            Sub { name: "clients", rule: "requests of random size through the two client constructors against an in-process server on loopback, with a size limit, gzip on/off and a time-out: delivered unchanged within the limit, refused beyond it, given up after the time-out; non-trivial: size within 64 bytes of the limit, or a time-out", quick: 1_500, thorough: 60_000, serial: true, f: clients },
        ],
    }
}

// ---- columns ---------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum Vals {
    F(Vec<f64>),
    I(Vec<i64>),
    U(Vec<u64>),
    B(Vec<bool>),
    S(Vec<String>),
    /// a Values table with nothing in it
    Empty,
}

#[derive(Debug, Clone)]
struct Col {
    name: Option<String>,
    ct: ColumnType,
    ft: FieldType,
    vals: Option<Vals>,
    bits: Option<Vec<u8>>,
}

#[derive(Debug, Clone)]
struct Tab {
    name: Option<String>,
    cols: Option<Vec<Col>>,
    rows: u64,
}

#[derive(Debug, Clone)]
struct Pts {
    db: Option<String>,
    tables: Option<Vec<Tab>>,
}

fn gen_pts(g: &mut G, missing: bool) -> Pts {
    let opt = |g: &mut G| !missing || !g.chance(1, 6);
    let db = opt(g).then(|| g.text(8));
    let tables = opt(g).then(|| {
        g.vec(0, 3, |g| {
            let rows = g.below(10);
            let name = opt(g).then(|| g.text(8));
            let cols = opt(g).then(|| {
                g.vec(0, 5, |g| {
                    let present: Vec<bool> = (0..rows).map(|_| g.chance(3, 4)).collect();
                    let n = rows as usize;
                    let (vals, ft) = match g.below(6) {
                        0 => (Vals::F((0..n).map(|_| g.f64_any(true)).collect()), FieldType::Float),
                        1 => (Vals::I((0..n).map(|_| g.i64_any()).collect()), FieldType::Integer),
                        2 => (Vals::U((0..n).map(|_| g.u64_any()).collect()), FieldType::Unsigned),
                        3 => (Vals::B((0..n).map(|_| g.bool()).collect()), FieldType::Boolean),
                        4 => (Vals::S((0..n).map(|_| g.text(6)).collect()), FieldType::String),
                        _ => (Vals::Empty, FieldType::Unknown),
                    };
                    let mut bits = vec![0u8; n.div_ceil(8)];
                    for (i, p) in present.iter().enumerate() {
                        if *p {
                            bits[i / 8] |= 1 << (i % 8);
                        }
                    }
                    Col {
                        name: opt(g).then(|| g.text(6)),
                        ct: *g.pick(&[ColumnType::Time, ColumnType::Tag, ColumnType::Field, ColumnType::Unknown]),
                        ft,
                        vals: opt(g).then_some(vals),
                        bits: opt(g).then_some(bits),
                    }
                })
            });
            Tab { name, cols, rows }
        })
    });
    Pts { db, tables }
}

fn build(p: &Pts) -> Vec<u8> {
    let mut fbb = FlatBufferBuilder::new();
    let db = p.db.as_ref().map(|s| fbb.create_string(s));
    let tables = p.tables.as_ref().map(|ts| {
        let mut out = vec![];
        for t in ts {
            let name = t.name.as_ref().map(|s| fbb.create_string(s));
            let cols = t.cols.as_ref().map(|cs| {
                let mut out = vec![];
                for c in cs {
                    let name = c.name.as_ref().map(|s| fbb.create_string(s));
                    let bits = c.bits.as_ref().map(|b| fbb.create_vector(b));
                    let vals = c.vals.as_ref().map(|v| {
                        let mut a = ValuesArgs::default();
                        match v {
                            Vals::F(v) => a.float_value = Some(fbb.create_vector(v)),
                            Vals::I(v) => a.int_value = Some(fbb.create_vector(v)),
                            Vals::U(v) => a.uint_value = Some(fbb.create_vector(v)),
                            Vals::B(v) => a.bool_value = Some(fbb.create_vector(v)),
                            Vals::S(v) => {
                                let v: Vec<_> = v.iter().map(|s| fbb.create_string(s)).collect();
                                a.string_value = Some(fbb.create_vector(&v));
                            }
                            Vals::Empty => {}
                        }
                        Values::create(&mut fbb, &a)
                    });
                    out.push(Column::create(&mut fbb, &ColumnArgs { name, column_type: c.ct, field_type: c.ft, col_values: vals, nullbits: bits }));
                }
                fbb.create_vector(&out)
            });
            out.push(Table::create(&mut fbb, &TableArgs { tab: name, columns: cols, num_rows: t.rows }));
        }
        fbb.create_vector(&out)
    });
    let root = Points::create(&mut fbb, &PointsArgs { db, tables });
    fbb.finish(root, None);
    fbb.finished_data().to_vec()
}

fn same_f(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits())
}

fn check_col(c: &Column<'_>, m: &Col) -> R {
    ensure_eq!(c.name_ext().ok().map(|s| s.to_string()), m.name, "column name");
    ensure_eq!(c.column_type(), m.ct, "column type");
    ensure_eq!(c.field_type(), m.ft, "field type");
    ensure_eq!(c.nullbit_ext().ok().map(|v| v.iter().collect::<Vec<u8>>()), m.bits, "null bits");
    macro_rules! vals {
        ($variant:ident, $ty:ty, $len:ident, $get:ident, $what:expr) => {{
            let want: Option<Vec<$ty>> = m.vals.as_ref().map(|v| match v {
                Vals::$variant(v) => v.clone().into_iter().collect(),
                _ => vec![],
            });
            ensure_eq!(c.$len().ok(), want.as_ref().map(|v| v.len()), concat!($what, " length"));
            (c.$get().ok(), want)
        }};
    }
    let (got, want) = vals!(F, f64, float_values_len, float_values, "float");
    match (got, want) {
        (Some(g), Some(w)) => ensure!(same_f(&g.iter().collect::<Vec<_>>(), &w), "float values differ"),
        (None, None) => {}
        (a, b) => fail!("float values: {:?} vs {b:?}", a.is_some()),
    }
    let (got, want) = vals!(I, i64, int_values_len, int_values, "int");
    ensure_eq!(got.map(|v| v.iter().collect::<Vec<_>>()), want, "int values");
    let (got, want) = vals!(U, u64, uint_values_len, uint_values, "uint");
    ensure_eq!(got.map(|v| v.iter().collect::<Vec<_>>()), want, "uint values");
    let (got, want) = vals!(B, bool, bool_values_len, bool_values, "bool");
    ensure_eq!(got.map(|v| v.iter().collect::<Vec<_>>()), want, "bool values");
    let (got, want) = vals!(S, String, string_values_len, string_values, "string");
    ensure_eq!(got.map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>()), want, "string values");
    Ok(())
}

fn columns(g: &mut G) -> R {
    let p = gen_pts(g, true);
    g.show("batch", &p);
    let bytes = build(&p);
    let r = match flatbuffers::root::<Points>(&bytes) {
        Ok(r) => r,
        Err(e) => fail!("a batch that was built is refused: {e}"),
    };
    ensure_eq!(r.db_ext().ok().map(|s| s.to_string()), p.db, "database");
    let mut partial = false;
    let mut full = false;
    match (r.tables_iter_ext(), &p.tables) {
        (Ok(ts), Some(m)) => {
            let ts: Vec<_> = ts.collect();
            ensure_eq!(ts.len(), m.len(), "tables");
            for (t, m) in ts.iter().zip(m) {
                ensure_eq!(t.tab_ext().ok().map(|s| s.to_string()), m.name, "table name");
                ensure_eq!(t.num_rows(), m.rows, "rows");
                match (t.columns_iter_ext(), &m.cols) {
                    (Ok(cs), Some(m)) => {
                        let cs: Vec<_> = cs.collect();
                        ensure_eq!(cs.len(), m.len(), "columns");
                        for (c, m) in cs.iter().zip(m) {
                            check_col(c, m)?;
                            full |= m.vals.is_some() && m.bits.as_ref().is_some_and(|b| b.iter().any(|x| *x != 0xff));
                            partial |= m.vals.is_none() || m.name.is_none() || m.bits.is_none();
                        }
                    }
                    (Err(_), None) => {}
                    (a, b) => fail!("columns: {} vs {}", a.is_ok(), b.is_some()),
                }
            }
        }
        (Err(_), None) => {}
        (a, b) => fail!("tables: {} vs {}", a.is_ok(), b.is_some()),
    }
    let shown = r.to_string();
    let db = p.db.as_deref().unwrap_or("{!BAD_DB_NAME}");
    ensure!(shown.contains(&format!("Database: {db}\n")), "printed form has no database:\n{shown}");
    for t in p.tables.iter().flatten() {
        ensure!(shown.contains(&format!("Table: {}", t.name.as_deref().unwrap_or("{!BAD_TABLE_NAME}"))), "printed form has no table:\n{shown}");
        for c in t.cols.iter().flatten() {
            ensure!(shown.contains(&format!("Column: {}\n", c.name.as_deref().unwrap_or("{!BAD_COLUMN_NAME}"))), "printed form has no column:\n{shown}");
        }
    }
    if full && partial {
        g.nontrivial();
    }
    Ok(())
}

fn helpers(g: &mut G) -> R {
    let rows = g.usize(0, 20);
    let (db, tab) = (g.text(6), g.text(6));
    let names: Vec<String> = (0..8).map(|i| format!("{}{i}", g.ident(4))).collect();
    let nt = g.usize(0, 3);
    let nf = g.usize(0, 5);
    let constant = g.bool();
    let n = if constant { 1 } else { rows };
    let tags: BTreeMap<&str, Vec<String>> = names[..nt].iter().map(|k| (k.as_str(), (0..n).map(|_| g.text(5)).collect())).collect();
    let mut types: HashMap<&str, FieldType> = HashMap::new();
    let mut fields: BTreeMap<&str, (Vals, Vec<Vec<u8>>)> = BTreeMap::new();
    for k in &names[nt..nt + nf] {
        let (ft, v, raw): (FieldType, Vals, Vec<Vec<u8>>) = match g.below(5) {
            0 => {
                let v: Vec<f64> = (0..n).map(|_| g.f64_any(true)).collect();
                (FieldType::Float, Vals::F(v.clone()), v.iter().map(|x| x.to_be_bytes().to_vec()).collect())
            }
            1 => {
                let v: Vec<i64> = (0..n).map(|_| g.i64_any()).collect();
                (FieldType::Integer, Vals::I(v.clone()), v.iter().map(|x| x.to_be_bytes().to_vec()).collect())
            }
            2 => {
                let v: Vec<u64> = (0..n).map(|_| g.u64_any()).collect();
                (FieldType::Unsigned, Vals::U(v.clone()), v.iter().map(|x| x.to_be_bytes().to_vec()).collect())
            }
            3 => {
                let v: Vec<bool> = (0..n).map(|_| g.bool()).collect();
                (FieldType::Boolean, Vals::B(v.clone()), v.iter().map(|x| if *x { vec![if g.chance(1, 4) { 1 + g.below(255) as u8 } else { 1 }] } else { vec![0] }).collect())
            }
            _ => {
                let v: Vec<String> = (0..n).map(|_| g.text(5)).collect();
                (FieldType::String, Vals::S(v.clone()), v.iter().map(|x| x.clone().into_bytes()).collect())
            }
        };
        types.insert(k, ft);
        fields.insert(k, (v, raw));
    }
    let time: Vec<i64> = (0..rows).map(|_| g.i64_any()).collect();
    let start = g.range(-1000, 1000);
    g.show("batch", &(&db, &tab, rows, constant, &tags, &fields));
    if nt >= 2 && nf >= 3 && rows >= 2 {
        g.nontrivial();
    }
    let mut fbb = FlatBufferBuilder::new();
    let root = if constant {
        create_const_points(
            &mut fbb,
            &db,
            &tab,
            tags.iter().map(|(k, v)| (*k, v[0].as_str())).collect(),
            fields.iter().map(|(k, v)| (*k, v.1[0].as_slice())).collect(),
            types.clone(),
            start,
            rows,
        )
    } else {
        create_points(
            &mut fbb,
            &db,
            &tab,
            tags.iter().map(|(k, v)| (*k, v.iter().map(|s| s.as_str()).collect())).collect(),
            fields.iter().map(|(k, v)| (*k, v.1.iter().map(|s| s.as_slice()).collect())).collect(),
            types.clone(),
            &time,
            rows,
        )
    };
    fbb.finish(root, None);
    let r = flatbuffers::root::<Points>(fbb.finished_data()).map_err(|e| e.to_string())?;
    ensure_eq!(r.db_ext().map_err(|e| e.to_string())?, db.as_str(), "database");
    let ts: Vec<_> = r.tables_iter_ext().map_err(|e| e.to_string())?.collect();
    ensure_eq!(ts.len(), 1, "tables");
    ensure_eq!(ts[0].tab_ext().map_err(|e| e.to_string())?, tab.as_str(), "table");
    ensure_eq!(ts[0].num_rows(), rows as u64, "rows");
    let mut bits = vec![0u8; rows.div_ceil(8)];
    for i in 0..rows {
        bits[i / 8] |= 1 << (i % 8);
    }
    let rep = |v: &Vals| -> Vals {
        if !constant {
            return v.clone();
        }
        match v {
            Vals::F(v) => Vals::F(vec![v[0]; rows]),
            Vals::I(v) => Vals::I(vec![v[0]; rows]),
            Vals::U(v) => Vals::U(vec![v[0]; rows]),
            Vals::B(v) => Vals::B(vec![v[0]; rows]),
            Vals::S(v) => Vals::S(vec![v[0].clone(); rows]),
            Vals::Empty => Vals::Empty,
        }
    };
    let mut seen = 0;
    for c in ts[0].columns_iter_ext().map_err(|e| e.to_string())? {
        let name = c.name_ext().map_err(|e| e.to_string())?.to_string();
        seen += 1;
        // the bits beyond the last row mean nothing
        let got_bits: Vec<u8> = c.nullbit_ext().map_err(|e| e.to_string())?.iter().collect();
        ensure!(got_bits.len() >= bits.len(), "null bits of {name}");
        for i in 0..rows {
            ensure!(got_bits[i / 8] & (1 << (i % 8)) != 0, "row {i} of {name} is null");
        }
        let (vals, ct, ft) = if name == "time" {
            let v = if constant { vec![start + rows as i64; rows] } else { time.clone() };
            (Vals::I(v), c.column_type(), c.field_type())
        } else if let Some(v) = tags.get(name.as_str()) {
            (rep(&Vals::S(v.clone())), ColumnType::Tag, FieldType::String)
        } else if let Some(v) = fields.get(name.as_str()) {
            (rep(&v.0), ColumnType::Field, types[name.as_str()])
        } else {
            fail!("a column {name:?} nobody asked for");
        };
        check_col(&c, &Col { name: Some(name), ct, ft, vals: Some(vals), bits: Some(got_bits) })?;
    }
    ensure_eq!(seen, nt + nf + 1, "columns");
    Ok(())
}

fn mutate(g: &mut G, b: &mut Vec<u8>) {
    for _ in 0..g.usize(1, 4) {
        match g.below(5) {
            0 if !b.is_empty() => {
                let k = g.below(b.len() as u64) as usize;
                b.truncate(k);
            }
            1 => b.extend(g.bytes(1, 8)),
            2 if b.len() >= 4 => {
                let k = g.below(b.len() as u64 - 3) as usize;
                let v = *g.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 8, 64]);
                b[k..k + 4].copy_from_slice(&v.to_le_bytes());
            }
            _ if !b.is_empty() => {
                let k = g.below(b.len() as u64) as usize;
                b[k] = if g.bool() { b[k] ^ (1 << g.below(8)) } else { g.below(256) as u8 };
            }
            _ => {}
        }
    }
}

fn damage(g: &mut G) -> R {
    let p = gen_pts(g, false);
    let mut b = build(&p);
    mutate(g, &mut b);
    g.show("bytes", &b);
    match flatbuffers::root::<Points>(&b) {
        Err(_) => g.nontrivial(),
        Ok(r) => {
            let s = r.to_string();
            ensure!(!s.is_empty(), "no printed form");
            if let Ok(ts) = r.tables_iter_ext() {
                for t in ts {
                    let _ = t.tab_ext();
                    if let Ok(cs) = t.columns_iter_ext() {
                        for c in cs {
                            let _ = (c.name_ext().is_ok(), c.nullbit_ext().map(|v| v.iter().count()).unwrap_or(0));
                            let _ = c.float_values().map(|v| v.iter().count());
                            let _ = c.int_values().map(|v| v.iter().count());
                            let _ = c.uint_values().map(|v| v.iter().count());
                            let _ = c.bool_values().map(|v| v.iter().count());
                            let n: usize = c.string_values().map(|v| v.iter().map(|s| s.len()).sum()).unwrap_or(0);
                            let _ = n;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---- protobuf --------------------------------------------------------------

fn raft_cmd(g: &mut G) -> RaftWriteCommand {
    use raft_write_command::Command::*;
    let command = match g.below(6) {
        0 => None,
        1 => Some(WriteData(WriteDataRequest { data: g.bytes(0, 40), precision: g.below(4) as u32 })),
        2 => Some(DropTable(DropTableRequest { db: g.text(6), table: g.text(6) })),
        3 => Some(DropColumn(DropColumnRequest { db: g.text(6), table: g.text(6), column: g.text(6) })),
        4 => Some(DeleteFromTable(DeleteFromTableRequest { tenant: g.text(4), database: g.text(4), table: g.text(4), predicate: g.bytes(0, 20), vnode_id: g.u64_any() as u32 })),
        _ => Some(UpdateTags(UpdateTagsRequest {
            db: g.text(5),
            new_tags: g.vec(0, 3, |g| UpdateSetValue { key: g.bytes(0, 5), value: g.bool().then(|| g.bytes(0, 5)) }),
            matched_series: g.vec(0, 3, |g| g.bytes(0, 10)),
            dry_run: g.bool(),
        })),
    };
    RaftWriteCommand { tenant: g.text(6), db_name: g.text(6), replica_id: g.u64_any() as u32, command }
}

fn admin_cmd(g: &mut G) -> AdminCommand {
    use admin_command::Command::*;
    let n = |g: &mut G| g.u64_any() as u32;
    let command = match g.below(11) {
        0 => None,
        1 => Some(CompactVnode(CompactVnodeRequest { vnode_ids: g.vec(0, 4, n) })),
        2 => Some(OpenRaftNode(OpenRaftNodeRequest { tenant: g.text(4), db_name: g.text(4), vnode_id: n(g), replica_id: n(g) })),
        3 => Some(DropRaftNode(DropRaftNodeRequest { tenant: g.text(4), db_name: g.text(4), vnode_id: n(g), replica_id: n(g) })),
        4 => Some(FetchChecksum(FetchChecksumRequest { vnode_id: n(g) })),
        5 => Some(AddRaftFollower(AddRaftFollowerRequest { db_name: g.text(4), replica_id: n(g), follower_nid: g.u64_any() })),
        6 => Some(RemoveRaftNode(RemoveRaftNodeRequest { db_name: g.text(4), replica_id: n(g), vnode_id: n(g) })),
        7 => Some(DestoryRaftGroup(DestoryRaftGroupRequest { db_name: g.text(4), replica_id: n(g) })),
        8 => Some(PromoteLeader(PromoteLeaderRequest { db_name: g.text(4), new_leader_id: n(g), replica_id: n(g) })),
        9 => Some(LearnerToFollower(LearnerToFollowerRequest { db_name: g.text(4), replica_id: n(g) })),
        _ => Some(BuildRaftGroup(BuildRaftGroupRequest { db_name: g.text(4), replica_id: n(g) })),
    };
    AdminCommand { tenant: g.text(6), command }
}

fn rt<T: Message + Default + PartialEq + Clone + std::fmt::Debug>(g: &mut G, m: T) -> R {
    g.show("message", &m);
    let b = to_prost_bytes(&m);
    ensure_eq!(b.len(), m.encoded_len(), "encoded_len");
    match parse_prost_bytes::<T>(&b) {
        Ok(p) => ensure_eq!(p, m, "parse(to_bytes(m))"),
        Err(e) => fail!("parse(to_bytes(m)): {e}"),
    }
    ensure_eq!(protos::models_helper::bincode::<T>(&b).ok(), Some(m.clone()), "bincode()");
    let mut d = b.clone();
    mutate(g, &mut d);
    if let Ok(p) = parse_prost_bytes::<T>(&d) {
        // whatever it is, it is a message
        let again = parse_prost_bytes::<T>(&to_prost_bytes(&p)).map_err(|e| e.to_string())?;
        ensure_eq!(again, p, "a parsed message");
    }
    Ok(())
}

/// The wire bytes by hand, from the .proto file: the format other versions read.
fn golden(m: &RaftWriteCommand) -> Option<Vec<u8>> {
    fn varint(out: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            out.push(v as u8 | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    fn bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
        varint(out, field << 3 | 2);
        varint(out, b.len() as u64);
        out.extend(b);
    }
    fn opt(out: &mut Vec<u8>, field: u64, b: &[u8]) {
        if !b.is_empty() {
            bytes(out, field, b)
        }
    }
    fn num(out: &mut Vec<u8>, field: u64, v: u64) {
        if v != 0 {
            varint(out, field << 3);
            varint(out, v);
        }
    }
    let mut o = vec![];
    opt(&mut o, 1, m.tenant.as_bytes());
    opt(&mut o, 2, m.db_name.as_bytes());
    num(&mut o, 3, m.replica_id as u64);
    use raft_write_command::Command::*;
    let mut s = vec![];
    let f = match m.command.as_ref()? {
        WriteData(w) => {
            opt(&mut s, 1, &w.data);
            num(&mut s, 2, w.precision as u64);
            4
        }
        DropTable(d) => {
            opt(&mut s, 1, d.db.as_bytes());
            opt(&mut s, 2, d.table.as_bytes());
            5
        }
        DropColumn(d) => {
            opt(&mut s, 1, d.db.as_bytes());
            opt(&mut s, 2, d.table.as_bytes());
            opt(&mut s, 3, d.column.as_bytes());
            6
        }
        DeleteFromTable(d) => {
            opt(&mut s, 1, d.tenant.as_bytes());
            opt(&mut s, 2, d.database.as_bytes());
            opt(&mut s, 3, d.table.as_bytes());
            opt(&mut s, 4, &d.predicate);
            num(&mut s, 5, d.vnode_id as u64);
            7
        }
        UpdateTags(u) => {
            opt(&mut s, 1, u.db.as_bytes());
            for t in &u.new_tags {
                let mut e = vec![];
                opt(&mut e, 1, &t.key);
                if let Some(v) = &t.value {
                    bytes(&mut e, 2, v);
                }
                bytes(&mut s, 2, &e);
            }
            for k in &u.matched_series {
                bytes(&mut s, 3, k);
            }
            num(&mut s, 4, u.dry_run as u64);
            8
        }
    };
    bytes(&mut o, f, &s);
    Some(o)
}

fn messages(g: &mut G) -> R {
    match g.below(8) {
        0 | 1 | 2 => {
            let m = raft_cmd(g);
            if let Some(b) = golden(&m) {
                g.nontrivial();
                ensure_eq!(to_prost_bytes(&m), b, "wire bytes of {m:?}");
            }
            rt(g, m)
        }
        3 | 4 => {
            let m = admin_cmd(g);
            if m.command.is_some() {
                g.nontrivial();
            }
            rt(g, m)
        }
        5 => {
            let m = QueryRecordBatchRequest { args: g.bytes(0, 20), expr: g.bytes(0, 20), aggs: g.bytes(0, 20) };
            rt(g, m)
        }
        6 => {
            let m = BatchBytesResponse { code: g.i64_any() as i32, data: g.bytes(0, 40) };
            rt(g, m)
        }
        _ => {
            let m = RaftAppendEntriesReq { group_id: g.u64_any() as u32, data: g.bytes(0, 40) };
            rt(g, m)?;
            let m = RaftVoteReq { group_id: g.u64_any() as u32, data: g.text(10) };
            rt(g, m)?;
            let m = RaftResponse { code: g.i64_any() as i32, data: g.text(10) };
            rt(g, m)
        }
    }
}

fn prom(g: &mut G) -> R {
    use protos::prompb::prometheus as p;
    let labels = |g: &mut G| -> Vec<p::Label> {
        g.vec(0, 4, |g| {
            let mut l = p::Label::default();
            l.name = g.text(5);
            l.value = g.text(5);
            l
        })
    };
    let mut w = p::WriteRequest::default();
    w.timeseries = g.vec(0, 4, |g| {
        let mut t = p::TimeSeries::default();
        t.labels = labels(g);
        t.samples = g.vec(0, 4, |g| {
            let mut s = p::Sample::default();
            s.value = g.f64_any(false);
            s.timestamp = g.i64_any();
            s
        });
        t
    });
    g.show("request", &w);
    if w.timeseries.iter().filter(|t| !t.labels.is_empty() && !t.samples.is_empty()).count() > 1 {
        g.nontrivial();
    }
    let b = to_prost_bytes(&w);
    let back = parse_prost_bytes::<p::WriteRequest>(&b).map_err(|e| e.to_string())?;
    ensure_eq!(back, w, "remote write request");
    let mut d = b.clone();
    mutate(g, &mut d);
    let _ = parse_prost_bytes::<p::WriteRequest>(&d).is_ok();
    let mut q = p::ReadRequest::default();
    q.queries = g.vec(0, 2, |g| {
        let mut q = p::Query::default();
        q.start_timestamp_ms = g.i64_any();
        q.end_timestamp_ms = g.i64_any();
        q.matchers = g.vec(0, 3, |g| {
            let mut m = p::LabelMatcher::default();
            m.name = g.text(4);
            m.value = g.text(4);
            m
        });
        q
    });
    let back = parse_prost_bytes::<p::ReadRequest>(&to_prost_bytes(&q)).map_err(|e| e.to_string())?;
    ensure_eq!(back, q, "remote read request");
    // the rust-protobuf pair
    let mut s = protobuf::well_known_types::wrappers::StringValue::new();
    s.value = g.text(10);
    let b = to_proto_bytes(s.clone()).map_err(|e| e.to_string())?;
    let back = parse_proto_bytes::<protobuf::well_known_types::wrappers::StringValue>(&b).map_err(|e| e.to_string())?;
    ensure_eq!(back, s, "parse_proto_bytes(to_proto_bytes)");
    Ok(())
}

// ---- clients ---------------------------------------------------------------

type Seen = Arc<Mutex<Vec<(Option<String>, RaftWriteCommand)>>>;

#[derive(Clone)]
struct Srv {
    seen: Seen,
}

type Out = Pin<Box<dyn Stream<Item = Result<BatchBytesResponse, tonic::Status>> + Send>>;

fn out(n: usize) -> Out {
    Box::pin(futures::stream::iter((0..n).map(|i| Ok(BatchBytesResponse { code: i as i32, data: vec![7; i] }))))
}

#[tonic::async_trait]
impl TskvService for Srv {
    async fn ping(&self, r: tonic::Request<PingRequest>) -> Result<tonic::Response<PingResponse>, tonic::Status> {
        let r = r.into_inner();
        Ok(tonic::Response::new(PingResponse { version: r.version, body: r.body }))
    }
    type DownloadFileStream = Out;
    async fn download_file(&self, r: tonic::Request<DownloadFileRequest>) -> Result<tonic::Response<Out>, tonic::Status> {
        Ok(tonic::Response::new(out(r.into_inner().filename.len())))
    }
    type TagScanStream = Out;
    async fn tag_scan(&self, r: tonic::Request<QueryRecordBatchRequest>) -> Result<tonic::Response<Out>, tonic::Status> {
        Ok(tonic::Response::new(out(r.into_inner().args.len())))
    }
    type QueryRecordBatchStream = Out;
    async fn query_record_batch(&self, r: tonic::Request<QueryRecordBatchRequest>) -> Result<tonic::Response<Out>, tonic::Status> {
        Ok(tonic::Response::new(out(r.into_inner().expr.len())))
    }
    async fn raft_write(&self, r: tonic::Request<RaftWriteCommand>) -> Result<tonic::Response<BatchBytesResponse>, tonic::Status> {
        let enc = r.metadata().get("grpc-encoding").map(|v| v.to_str().unwrap_or("?").to_string());
        let m = r.into_inner();
        let reply = m.replica_id as usize;
        let slow = m.db_name == "slow";
        self.seen.lock().unwrap().push((enc, m));
        if slow {
            tokio::time::sleep(Duration::from_secs(20)).await;
        }
        Ok(tonic::Response::new(BatchBytesResponse { code: 1, data: vec![5; reply] }))
    }
    async fn admin_request(&self, _: tonic::Request<AdminCommand>) -> Result<tonic::Response<BatchBytesResponse>, tonic::Status> {
        Ok(tonic::Response::new(BatchBytesResponse { code: 2, data: vec![] }))
    }
}

#[tonic::async_trait]
impl RaftService for Srv {
    async fn raft_vote(&self, r: tonic::Request<RaftVoteReq>) -> Result<tonic::Response<RaftResponse>, tonic::Status> {
        Ok(tonic::Response::new(RaftResponse { code: r.into_inner().group_id as i32, data: "vote".into() }))
    }
    async fn raft_snapshot(&self, _: tonic::Request<RaftSnapshotReq>) -> Result<tonic::Response<RaftResponse>, tonic::Status> {
        Ok(tonic::Response::new(RaftResponse { code: 0, data: "snapshot".into() }))
    }
    async fn raft_append_entries(&self, r: tonic::Request<RaftAppendEntriesReq>) -> Result<tonic::Response<RaftResponse>, tonic::Status> {
        let enc = r.metadata().get("grpc-encoding").map(|v| v.to_str().unwrap_or("?").to_string());
        let r = r.into_inner();
        self.seen.lock().unwrap().push((
            enc,
            RaftWriteCommand { tenant: String::new(), db_name: String::new(), replica_id: r.group_id, command: Some(raft_write_command::Command::WriteData(WriteDataRequest { data: r.data.clone(), precision: 0 })) },
        ));
        if r.group_id == 77 {
            tokio::time::sleep(Duration::from_secs(20)).await;
        }
        Ok(tonic::Response::new(RaftResponse { code: 0, data: "x".repeat(r.group_id as usize) }))
    }
}

struct Server {
    rt: tokio::runtime::Runtime,
    addr: String,
    seen: Seen,
}

fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
        let seen: Seen = Default::default();
        let srv = Srv { seen: seen.clone() };
        let l = rt.block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("bind");
        let addr = l.local_addr().unwrap().to_string();
        let incoming = futures::stream::unfold(l, |l| async {
            let r = l.accept().await.map(|x| x.0);
            Some((r, l))
        });
        let big = 64 << 20;
        rt.spawn(
            tonic::transport::Server::builder()
                .add_service(TskvServiceServer::new(srv.clone()).accept_compressed(CompressionEncoding::Gzip).send_compressed(CompressionEncoding::Gzip).max_decoding_message_size(big).max_encoding_message_size(big))
                .add_service(RaftServiceServer::new(srv).accept_compressed(CompressionEncoding::Gzip).send_compressed(CompressionEncoding::Gzip).max_decoding_message_size(big).max_encoding_message_size(big))
                .serve_with_incoming(incoming),
        );
        Server { rt, addr, seen }
    })
}

fn clients(g: &mut G) -> R {
    let s = server();
    let limit = if g.bool() { 200 + g.usize(0, 400) } else { 5_000_000 };
    let gzip = g.bool();
    let raft = g.bool();
    let slow = g.chance(1, 12);
    let near = |g: &mut G, over: usize| -> usize {
        match g.below(3) {
            0 => g.usize(0, 100),
            1 => (limit + g.usize(0, 64)).saturating_sub(32 + over).min(5_000_100),
            _ => {
                if limit < 10_000 {
                    g.usize(0, 2 * limit)
                } else {
                    4_200_000
                }
            }
        }
    };
    let (req_len, reply_len) = match g.below(3) {
        0 => (near(g, 10), 3),
        1 => (10, near(g, 8)),
        _ => (g.usize(0, 150), g.usize(0, 150)),
    };
    let data = if g.bool() { vec![9u8; req_len] } else { (0..req_len).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_right(29) as u8).collect() };
    let timeout = Duration::from_millis(if slow { 60 } else { 15_000 });
    g.show("limit, gzip, raft, slow, request, reply", &(limit, gzip, raft, slow, req_len, reply_len));
    s.seen.lock().unwrap().clear();
    let (sent_len, reply_enc_len, res, want_cmd): (usize, usize, Result<Vec<u8>, tonic::Status>, RaftWriteCommand) = s.rt.block_on(async {
        let channel = tonic::transport::Endpoint::from_shared(format!("http://{}", s.addr)).unwrap().connect().await.expect("connect");
        if raft {
            let reply_len = if slow { 77 } else { reply_len + 100 };
            let m = RaftAppendEntriesReq { group_id: reply_len as u32, data: data.clone() };
            let n = m.encoded_len();
            let rep = RaftResponse { code: 0, data: "x".repeat(reply_len) };
            let rl = rep.encoded_len();
            let want = RaftWriteCommand { tenant: String::new(), db_name: String::new(), replica_id: reply_len as u32, command: Some(raft_write_command::Command::WriteData(WriteDataRequest { data: data.clone(), precision: 0 })) };
            let mut c = protos::raft_service_time_out_client(channel, timeout, limit, gzip);
            let r = c.raft_append_entries(m).await.map(|r| r.into_inner().data.into_bytes());
            (n, rl, r, want)
        } else {
            let m = RaftWriteCommand {
                tenant: "t".into(),
                db_name: if slow { "slow".into() } else { "fast".into() },
                replica_id: reply_len as u32,
                command: Some(raft_write_command::Command::WriteData(WriteDataRequest { data: data.clone(), precision: 2 })),
            };
            let n = m.encoded_len();
            let rep = BatchBytesResponse { code: 1, data: vec![5; reply_len] };
            let rl = rep.encoded_len();
            let mut c = protos::tskv_service_time_out_client(channel, timeout, limit, gzip);
            let r = c.raft_write(m.clone()).await.map(|r| r.into_inner().data);
            (n, rl, r, m)
        }
    });
    let seen = s.seen.lock().unwrap().clone();
    if slow && sent_len + 200 < limit {
        g.nontrivial();
        ensure!(res.is_err(), "an answer after 20 s was waited for, the time-out is 60 ms");
        return Ok(());
    }
    if slow {
        return Ok(());
    }
    for l in [sent_len, reply_enc_len] {
        if l.abs_diff(limit) <= 64 {
            g.nontrivial();
        }
    }
    // the limit is on the encoded message; compressed ones are counted as sent
    let fits = |n: usize| {
        if gzip {
            // sizes after compression are the library's business: sure within, unsure beyond
            if n + 200 <= limit {
                Some(true)
            } else {
                None
            }
        } else {
            Some(n <= limit)
        }
    };
    match (fits(sent_len), fits(reply_enc_len), &res) {
        (Some(true), Some(true), Err(e)) => fail!("{sent_len}/{reply_enc_len} bytes with a limit of {limit}: {e}"),
        (Some(false), _, Ok(_)) => fail!("a request of {sent_len} bytes passed a limit of {limit}"),
        (_, Some(false), Ok(_)) => fail!("a reply of {reply_enc_len} bytes passed a limit of {limit}"),
        _ => {}
    }
    if let Ok(d) = &res {
        ensure_eq!(seen.len(), 1, "requests at the server");
        ensure!(seen[0].1 == want_cmd, "the request arrived changed");
        ensure_eq!(seen[0].0.as_deref() == Some("gzip"), gzip, "compressed");
        let want: Vec<u8> = if raft { vec![b'x'; reply_len + 100] } else { vec![5; reply_len] };
        ensure!(*d == want, "the reply arrived changed");
    }
    if g.chance(1, 10) {
        match s.rt.block_on(protos::tskv_service_ping(&s.addr)) {
            Ok(()) => {}
            Err(e) => fail!("ping of a live server: {e}"),
        }
        ensure!(s.rt.block_on(protos::tskv_service_ping("127.0.0.1:1")).is_err(), "ping of a port nobody listens on");
    }
    Ok(())
}
