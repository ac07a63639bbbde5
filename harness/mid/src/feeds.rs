//! OpenTSDB text, its TCP stream, JSON logs, Loki and OpenTelemetry requests.
use std::collections::{BTreeMap, BTreeSet};

use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};
use prost::Message;
use protocol_parser::json_protocol::parser::{
    parse_json_to_eslog, parse_json_to_lokilog, parse_json_to_ndjsonlog, parse_protobuf_to_lokilog, parse_protobuf_to_otlptrace, parse_to_line, JsonProtocol,
};
use protocol_parser::open_tsdb::open_tsdb_to_lines;
use protocol_parser::open_tsdb::parser::Parser;
use protocol_parser::{DataPoint, Line};
use protos::common::{any_value::Value as AV, AnyValue, ArrayValue, InstrumentationScope, KeyValue};
use protos::{logproto, resource, trace, trace_service, FieldValue};
use serde_json::{json, Map, Value};

use crate::line::{agrees, finite, Pt};

pub fn check() -> Check {
    Check {
        property: "C10",
        level: "exploration",
        assumptions: &["the server's TCP loop (read, parse, drain what was parsed) is repeated in the harness", "JSON text is read by serde_json"],
        subs: vec![
            Sub { name: "tsdb", rule: "1..5 generated data points written as OpenTSDB lines parse to exactly those, in order; damaged text parses or is refused without a crash; non-trivial: two lines, one with a fractional value", quick: 600_000, thorough: 4_000_000, serial: false, f: tsdb },
            Sub { name: "tsdb_json", rule: "an OpenTSDB JSON data point becomes the line of its metric, tags, time and value; non-trivial: two tags", quick: 200_000, thorough: 1_000_000, serial: false, f: tsdb_json },
            Sub { name: "tcp", rule: "a stream of put commands fed in random chunks gives exactly the points sent, each once, never more bytes used up than there are; non-trivial: a chunk ends inside a command", quick: 400_000, thorough: 3_000_000, serial: false, f: tcp },
            Sub { name: "json", rule: "random nested documents (ndjson, bulk, Loki JSON) flatten to one line each with every leaf under its path; tag and time columns as named; a value without a column type is refused; non-trivial: nesting and a tag", quick: 400_000, thorough: 2_000_000, serial: false, f: json_logs },
            Sub { name: "loki", rule: "a snappy-compressed Loki push request gives one log per entry with labels, time and line; a time that does not fit is refused; non-trivial: two streams", quick: 200_000, thorough: 1_000_000, serial: false, f: loki },
            Sub { name: "otlp", rule: "a trace export request gives one log per span holding exactly the fields of the span, its scope and its resource; non-trivial: two spans with different attributes", quick: 100_000, thorough: 800_000, serial: false, f: otlp },
        ],
    }
}

const TSDB: &[char] = &['a', 'b', 'Z', '0', '9', '_', '-', '.', '/', 'é', '中'];

fn word(g: &mut G) -> String {
    if g.chance(1, 2) {
        g.ident(4)
    } else {
        g.string_of(TSDB, 1, 6)
    }
}

fn num(g: &mut G) -> (f64, String) {
    let v = match g.below(4) {
        0 => g.range(-1000, 1000) as f64,
        1 => g.range(-100_000, 100_000) as f64 / 100.0,
        2 => g.below(1000) as f64 * 1.5,
        _ => finite(g),
    };
    let s = match g.below(3) {
        0 => format!("{v}"),
        1 => format!("{v:?}"),
        _ => format!("{v:e}"),
    };
    (v, s)
}

fn tsdb_pt(g: &mut G) -> (Pt, String, String) {
    let table = word(g);
    let mut tags = vec![];
    let mut seen = BTreeSet::new();
    for _ in 0..1 + g.few(3) {
        let k = word(g);
        if seen.insert(k.clone()) {
            tags.push((k, word(g)));
        }
    }
    let t = match g.below(3) {
        0 => g.range(0, 2_000_000_000),
        1 => g.range(-5, 2_000_000_000_000),
        _ => g.i64_any(),
    };
    let (v, vs) = num(g);
    let ts: Vec<String> = tags.iter().map(|(k, v)| format!("{k}={v}")).collect();
    (Pt { table: table.clone(), tags, fields: vec![("value".into(), FieldValue::F64(v))], time: Some(t) }, format!("{table} {t} {vs} "), ts.join(" "))
}

fn tsdb(g: &mut G) -> R {
    let n = 1 + g.few(4);
    let mut pts = vec![];
    let mut text = String::new();
    for i in 0..n {
        let (p, head, tags) = tsdb_pt(g);
        text.push_str(&head);
        text.push_str(&tags);
        pts.push(p);
        if i + 1 < n || g.bool() {
            text.push_str(if g.chance(1, 4) { "\r\n" } else { "\n" });
        }
        if g.chance(1, 10) {
            text.push('\n');
        }
    }
    g.show("text", &text);
    let got = match open_tsdb_to_lines(&text, 5) {
        Ok(l) => l,
        Err(e) => fail!("well-formed lines are refused: {e}"),
    };
    ensure_eq!(got.len(), pts.len(), "number of lines");
    for (i, (l, p)) in got.iter().zip(&pts).enumerate() {
        if let Err(e) = agrees(l, p, 5) {
            fail!("line {i}: {e}");
        }
    }
    if pts.len() > 1 && text.contains('.') {
        g.nontrivial();
    }
    // damage
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..1 + g.below(3) {
        let at = g.below(cs.len() as u64 + 1) as usize;
        match g.below(3) {
            0 if at < cs.len() => {
                cs.remove(at);
            }
            1 if at < cs.len() => cs[at] = *g.pick(&[' ', ',', '=', '\\', '\n', '1', '-', '中', '\u{3000}', '\t']),
            _ => cs.insert(at, *g.pick(&[' ', ',', '=', '\\', '\n', '0', '.', 'é'])),
        }
    }
    let bad: String = cs.into_iter().collect();
    g.show("damaged", &bad);
    let mut pieces = vec![];
    let mut refused = false;
    for l in bad.lines() {
        match open_tsdb_to_lines(l, 5) {
            Ok(x) => pieces.extend(x.iter().map(|x| format!("{x:?}"))),
            Err(_) => refused = true,
        }
    }
    match open_tsdb_to_lines(&bad, 5) {
        Ok(l) => {
            ensure!(!refused, "a line refused on its own is accepted among others: {l:?}");
            ensure_eq!(l.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), pieces, "lines read together and one by one");
            for l in &l {
                ensure!(!l.table.is_empty() && l.tags.iter().all(|(k, _)| !k.is_empty()), "an empty name: {l:?}");
            }
        }
        Err(e) => ensure!(refused, "every line is accepted on its own, together they are refused: {e}"),
    }
    Ok(())
}

fn tsdb_json(g: &mut G) -> R {
    let (mut p, _, _) = tsdb_pt(g);
    let FieldValue::F64(v) = p.fields[0].1 else { unreachable!() };
    let doc = json!({"metric": p.table, "timestamp": p.time.unwrap(), "value": v, "tags": p.tags.iter().cloned().collect::<BTreeMap<_, _>>()}).to_string();
    g.show("document", &doc);
    let d: DataPoint = match serde_json::from_str(&doc) {
        Ok(d) => d,
        Err(e) => fail!("refused: {e}"),
    };
    // the value as the JSON reader gives it
    let v = serde_json::from_str::<f64>(&json!(v).to_string()).unwrap();
    p.fields[0].1 = FieldValue::F64(v);
    let l = Line::from(d);
    if let Err(e) = agrees(&l, &p, 0) {
        fail!("{e}");
    }
    if p.tags.len() > 1 {
        g.nontrivial();
    }
    Ok(())
}

fn tcp(g: &mut G) -> R {
    let n = 1 + g.few(4);
    let mut pts = vec![];
    let mut stream = vec![];
    for _ in 0..n {
        let (mut p, head, tags) = tsdb_pt(g);
        if g.chance(1, 6) {
            stream.extend_from_slice(b"\r\n");
        }
        if g.chance(1, 10) {
            p.tags.clear();
            stream.extend_from_slice(format!("put {}\r\n", head.trim_end()).as_bytes());
        } else {
            stream.extend_from_slice(format!("put {head}{tags}{}", if g.chance(1, 5) { "\n" } else { "\r\n" }).as_bytes());
        }
        pts.push(p);
    }
    g.show("stream", &String::from_utf8_lossy(&stream));
    let parser = Parser::new(0);
    let mut buf: Vec<u8> = vec![];
    let mut got: Vec<String> = vec![];
    let mut at = 0;
    let mut ends = vec![];
    let mut inside = false;
    while at < stream.len() {
        let left = stream.len() - at;
        let k = match g.below(3) {
            0 => 1 + g.below(left.min(8) as u64) as usize,
            1 => 1 + g.below(left.min(40) as u64) as usize,
            _ => left,
        };
        buf.extend_from_slice(&stream[at..at + k]);
        at += k;
        ends.push(at);
        inside |= stream[at - 1] != b'\n';
        // as the server does
        if let Ok((lines, pos)) = parser.parse_tcp_opentsdb(&buf) {
            if lines.is_empty() {
                continue;
            }
            for l in &lines {
                let i = got.len();
                ensure!(i < pts.len(), "more points than were sent: {l:?}");
                if let Err(e) = agrees(l, &pts[i], 0) {
                    fail!("point {i} (chunks end at {ends:?}): {e}");
                }
                got.push(format!("{l:?}"));
            }
            ensure!(pos <= buf.len(), "{pos} bytes used of {} (chunks end at {ends:?})", buf.len());
            buf.drain(..pos);
        }
    }
    ensure_eq!(got.len(), pts.len(), "points received (chunks end at {ends:?})");
    if inside {
        g.nontrivial();
    }
    Ok(())
}

fn leaf(g: &mut G) -> Value {
    match g.below(5) {
        0 => Value::Bool(g.bool()),
        1 => json!(g.range(-1_000_000, 1_000_000)),
        2 => json!(g.range(-1_000_000, 1_000_000) as f64 / 64.0),
        3 => Value::String(g.text(8)),
        _ => Value::String(g.string_of(&['a', '"', '\\', '\n', ' ', '中', '\'', '/'], 0, 6)),
    }
}

fn doc(g: &mut G, depth: u64, null: bool) -> Value {
    if depth == 0 || g.chance(2, 3) {
        if null && g.chance(1, 20) {
            return Value::Null;
        }
        return leaf(g);
    }
    if g.bool() {
        let mut m = Map::new();
        for k in ["a", "b", "c d", "é", "x_1"] {
            if g.chance(2, 5) {
                m.insert(k.into(), doc(g, depth - 1, null));
            }
        }
        Value::Object(m)
    } else {
        Value::Array((0..g.few(3)).map(|_| doc(g, depth - 1, null)).collect())
    }
}

fn flat(path: &str, v: &Value, out: &mut BTreeMap<String, Value>) {
    let join = |k: &str| if path.is_empty() { k.to_string() } else { format!("{path}.{k}") };
    match v {
        Value::Object(m) => m.iter().for_each(|(k, v)| flat(&join(k), v, out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| flat(&join(&i.to_string()), v, out)),
        _ => {
            out.insert(path.to_string(), v.clone());
        }
    }
}

fn json_logs(g: &mut G) -> R {
    let n = 1 + g.few(3) as usize;
    let null = g.chance(1, 4);
    let mut docs: Vec<Value> = vec![];
    for _ in 0..n {
        let mut m = Map::new();
        for k in ["msg", "level", "req", "tags", "host"] {
            if g.chance(3, 5) {
                m.insert(k.into(), doc(g, 2, null));
            }
        }
        if g.chance(4, 5) {
            m.insert(
                "time".into(),
                match g.below(6) {
                    0 => json!(g.i64_any()),
                    1 => json!(1_700_000_000_000_000_000i64 + g.range(0, 1_000_000)),
                    2 => Value::String(format!("20{:02}-0{}-1{}T0{}:30:0{}.{:03}Z", g.below(70), 1 + g.below(9), g.below(9), g.below(9), g.below(9), g.below(1000))),
                    3 => Value::String(format!("2023-05-01T12:00:00+0{}:00", g.below(9))),
                    4 => Value::String("yesterday".into()),
                    _ => Value::Bool(true),
                },
            );
        }
        // numbers as the JSON reader gives them
        docs.push(serde_json::from_str(&Value::Object(m).to_string()).unwrap());
    }
    let form = g.below(3);
    let mut text: Vec<String> = vec![];
    for (i, d) in docs.iter().enumerate() {
        if form == 1 {
            text.push(if g.bool() { format!(r#"{{"index":{{"_index":"i","_id":"{i}"}}}}"#) } else { r#"{"create":{}}"#.to_string() });
        }
        text.push(d.to_string());
        if form == 1 && g.chance(1, 6) {
            text.push(String::new());
        }
    }
    g.show("text", &text);
    let chunk: Vec<&str> = text.iter().map(|s| s.as_str()).collect();
    let r = match form {
        0 => parse_json_to_ndjsonlog(chunk),
        1 => parse_json_to_eslog(chunk),
        _ => parse_json_to_lokilog(chunk),
    };
    let logs = match r {
        Ok(l) => l,
        Err(e) => fail!("well-formed documents are refused: {e}"),
    };
    ensure_eq!(logs.len(), docs.len(), "number of logs");
    let tag_cols = ["", "host", "level, host", "req.a,msg,tags.0"][g.usize(0, 3)];
    let tagset: Vec<&str> = tag_cols.split(',').map(|s| s.trim()).collect();
    g.show("tag columns", &tag_cols);
    for (i, (l, d)) in logs.iter().zip(&docs).enumerate() {
        let mut want = BTreeMap::new();
        flat("", d, &mut want);
        ensure_eq!(l.get_fields(), &want, "leaves of document {i}");
        let mut bad = false;
        let mut time = None;
        let mut tags = vec![];
        let mut fields = vec![];
        for (k, v) in &want {
            if tagset.contains(&k.as_str()) {
                tags.push((
                    k.clone(),
                    match v {
                        Value::String(s) => s.clone(),
                        v => v.to_string(),
                    },
                ));
            } else if k == "time" {
                match v {
                    Value::Number(n) => time = n.as_i64(),
                    Value::String(s) => match chrono::DateTime::parse_from_rfc3339(s) {
                        Ok(t) => time = t.timestamp_nanos_opt(),
                        Err(_) => bad = true,
                    },
                    _ => bad = true,
                }
                bad |= time.is_none();
            } else {
                match v {
                    Value::Bool(b) => fields.push((k.clone(), FieldValue::Bool(*b))),
                    Value::Number(n) => fields.push((k.clone(), FieldValue::F64(n.as_f64().unwrap()))),
                    Value::String(s) => fields.push((k.clone(), FieldValue::Str(s.as_bytes().to_vec()))),
                    _ => bad = true,
                }
            }
        }
        let before = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
        match parse_to_line(l, "logs", "time", tag_cols) {
            Err(e) => ensure!(bad, "document {i} is refused: {e}"),
            Ok(mut line) => {
                ensure!(!bad, "document {i} has a value without a meaning, read as {line:?}");
                if !want.contains_key("time") {
                    let after = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
                    ensure!(before <= line.timestamp && line.timestamp <= after, "no time given: {} is not the time of arrival {before}..{after}", line.timestamp);
                    time = Some(line.timestamp);
                }
                line.sort_dedup_and_hash();
                if tags.len() + 1 < want.len() && !tags.is_empty() && want.keys().any(|k| k.contains('.')) {
                    g.nontrivial();
                }
                let p = Pt { table: "logs".into(), tags, fields, time };
                if let Err(e) = agrees(&line, &p, 0) {
                    fail!("document {i}: {e}");
                }
            }
        }
    }
    // a document cut short is refused
    let first = text.last().unwrap();
    if form != 1 && first.len() > 2 {
        let cut = first.char_indices().map(|x| x.0).filter(|x| *x > 0).nth(g.below(first.chars().count() as u64 - 1) as usize).unwrap();
        ensure!(parse_json_to_ndjsonlog(vec![&first[..cut]]).is_err(), "a document cut short at {cut} is accepted");
    }
    Ok(())
}

fn loki(g: &mut G) -> R {
    let mut req = logproto::PushRequest::default();
    let mut want = vec![];
    let mut bad = false;
    for _ in 0..g.few(3) {
        let mut s = logproto::Stream { labels: g.text(6), ..Default::default() };
        for _ in 0..g.few(3) {
            let e = logproto::Entry {
                line: g.text(10),
                timestamp: if g.chance(1, 6) {
                    None
                } else {
                    Some(logproto::Timestamp { seconds: if g.chance(1, 8) { g.i64_any() } else { g.range(-10, 9_000_000_000) }, nanos: g.range(0, 999_999_999) as i32 })
                },
            };
            let t = e.timestamp.clone().unwrap_or_default();
            match i64::try_from(t.seconds as i128 * 1_000_000_000 + t.nanos as i128) {
                Ok(t) => want.push(BTreeMap::from([("lables".to_string(), json!(s.labels)), ("time".into(), json!(t)), ("msg".into(), json!(e.line))])),
                Err(_) => bad = true,
            }
            s.entries.push(e);
        }
        req.streams.push(s);
    }
    g.show("request", &req);
    let mut z = vec![];
    models::snappy::SnappyCodec::default().compress(&req.encode_to_vec(), &mut z).unwrap();
    match parse_protobuf_to_lokilog(z.into()) {
        Err(e) => ensure!(bad, "refused: {e}"),
        Ok(logs) => {
            ensure!(!bad, "an entry's time does not fit 64 bits, yet the request is accepted");
            let got: Vec<_> = logs.iter().map(|l| l.get_fields().clone()).collect();
            ensure_eq!(got, want, "logs");
            ensure!(logs.iter().all(|l| matches!(l, JsonProtocol::Loki(_))), "kind");
        }
    }
    if req.streams.iter().filter(|s| !s.entries.is_empty()).count() > 1 {
        g.nontrivial();
    }
    Ok(())
}

fn attrs(g: &mut G) -> Vec<KeyValue> {
    let mut out = vec![];
    let mut names: Vec<String> = ["service.name", "a", "b", "http.code", "é"].iter().filter(|_| g.chance(2, 5)).map(|s| s.to_string()).collect();
    if g.chance(1, 20) {
        names.extend((0..g.few(12)).map(|i| format!("n{i}")));
    }
    for k in names {
        let v = if k == "service.name" {
            Some(AV::StringValue(g.text(5)))
        } else {
            match g.below(6) {
                0 => Some(AV::StringValue(g.text(5))),
                1 => Some(AV::BoolValue(g.bool())),
                2 => Some(AV::IntValue(g.i64_any())),
                3 => Some(AV::DoubleValue(g.f64_any(false))),
                4 => None,
                _ => Some(AV::ArrayValue(ArrayValue { values: vec![AnyValue { value: Some(AV::IntValue(g.range(0, 9))) }] })),
            }
        };
        out.push(KeyValue { key: k.clone(), value: if g.chance(1, 10) && k != "service.name" { None } else { Some(AnyValue { value: v }) } });
    }
    out
}

/// The text of an attribute; `None`: anything will do (lists have no documented form).
fn attr_text(v: &AnyValue) -> Option<String> {
    match &v.value {
        Some(AV::StringValue(s)) => Some(s.clone()),
        Some(AV::BoolValue(b)) => Some(b.to_string()),
        Some(AV::IntValue(i)) => Some(i.to_string()),
        Some(AV::DoubleValue(d)) => Some(d.to_string()),
        Some(_) => None,
        None => Some(String::new()),
    }
}

type Want = BTreeMap<String, Option<Value>>;

fn put_attrs(m: &mut Want, prefix: &str, a: &[KeyValue]) {
    for kv in a {
        if let Some(v) = &kv.value {
            m.insert(format!("{prefix}attributes/{}", kv.key), attr_text(v).map(Value::String));
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn otlp(g: &mut G) -> R {
    let mut req = trace_service::ExportTraceServiceRequest::default();
    let mut want: Vec<Want> = vec![];
    for _ in 0..1 + g.few(1) {
        let mut rs = trace::ResourceSpans { schema_url: g.ident(3), ..Default::default() };
        let mut base: Want = BTreeMap::new();
        if g.chance(3, 4) {
            let r = resource::Resource { attributes: attrs(g), dropped_attributes_count: g.below(9) as u32 };
            put_attrs(&mut base, "ResourceSpans/Resource/", &r.attributes);
            base.insert("ResourceSpans/Resource/dropped_attributes_count".into(), Some(json!(r.dropped_attributes_count)));
            rs.resource = Some(r);
        }
        base.insert("ResourceSpans/schema_url".into(), Some(json!(rs.schema_url)));
        for _ in 0..g.few(2) {
            let mut ss = trace::ScopeSpans { schema_url: g.ident(3), ..Default::default() };
            let mut base = base.clone();
            if g.chance(3, 4) {
                let s = InstrumentationScope { name: g.ident(3), version: g.ident(2), attributes: attrs(g), dropped_attributes_count: g.below(9) as u32 };
                let p = "ResourceSpans/ScopeSpans/InstrumentationScope/";
                put_attrs(&mut base, p, &s.attributes);
                base.insert(format!("{p}name"), Some(json!(s.name)));
                base.insert(format!("{p}version"), Some(json!(s.version)));
                base.insert(format!("{p}dropped_attributes_count"), Some(json!(s.dropped_attributes_count)));
                ss.scope = Some(s);
            }
            base.insert("ResourceSpans/ScopeSpans/schema_url".into(), Some(json!(ss.schema_url)));
            for _ in 0..g.few(2) {
                let start = g.u64_any();
                let mut sp = trace::Span {
                    trace_id: g.bytes(0, 16),
                    span_id: g.bytes(0, 8),
                    trace_state: g.ident(2),
                    parent_span_id: g.bytes(0, 8),
                    flags: g.below(1 << 32) as u32,
                    name: g.text(4),
                    kind: g.below(6) as i32,
                    start_time_unix_nano: start,
                    end_time_unix_nano: if g.chance(1, 6) { g.u64_any() } else { start.saturating_add(g.below(1_000_000)) },
                    attributes: attrs(g),
                    dropped_attributes_count: g.below(9) as u32,
                    dropped_events_count: g.below(9) as u32,
                    dropped_links_count: g.below(9) as u32,
                    ..Default::default()
                };
                let p = "ResourceSpans/ScopeSpans/Span/";
                let mut m = base.clone();
                put_attrs(&mut m, p, &sp.attributes);
                for (k, v) in [
                    ("trace_id", json!(hex(&sp.trace_id))),
                    ("span_id", json!(hex(&sp.span_id))),
                    ("parent_span_id", json!(hex(&sp.parent_span_id))),
                    ("trace_state", json!(sp.trace_state)),
                    ("flags", json!(sp.flags)),
                    ("name", json!(sp.name)),
                    ("kind", json!(["SPAN_KIND_UNSPECIFIED", "SPAN_KIND_INTERNAL", "SPAN_KIND_SERVER", "SPAN_KIND_CLIENT", "SPAN_KIND_PRODUCER", "SPAN_KIND_CONSUMER"][sp.kind as usize])),
                    ("start_time_unix_nano", json!(sp.start_time_unix_nano)),
                    ("end_time_unix_nano", json!(sp.end_time_unix_nano)),
                    ("dropped_attributes_count", json!(sp.dropped_attributes_count)),
                    ("dropped_events_count", json!(sp.dropped_events_count)),
                    ("dropped_links_count", json!(sp.dropped_links_count)),
                ] {
                    m.insert(format!("{p}{k}"), Some(v));
                }
                // a span that ends before it starts has no duration to speak of
                m.insert(format!("{p}duration_nano"), sp.end_time_unix_nano.checked_sub(sp.start_time_unix_nano).map(|d| json!(d)));
                for i in 0..g.few(2) {
                    let e = trace::span::Event { time_unix_nano: g.u64_any(), name: g.ident(3), attributes: attrs(g), dropped_attributes_count: g.below(5) as u32 };
                    let q = format!("{p}Event_{i}/");
                    put_attrs(&mut m, &q, &e.attributes);
                    m.insert(format!("{q}time_unix_nano"), Some(json!(e.time_unix_nano)));
                    m.insert(format!("{q}name"), Some(json!(e.name)));
                    m.insert(format!("{q}dropped_attributes_count"), Some(json!(e.dropped_attributes_count)));
                    sp.events.push(e);
                }
                for i in 0..g.few(2) {
                    let e = trace::span::Link { trace_id: g.bytes(0, 16), span_id: g.bytes(0, 8), trace_state: g.ident(2), attributes: attrs(g), dropped_attributes_count: g.below(5) as u32, flags: g.below(99) as u32 };
                    let q = format!("{p}Link_{i}/");
                    put_attrs(&mut m, &q, &e.attributes);
                    m.insert(format!("{q}trace_id"), Some(json!(hex(&e.trace_id))));
                    m.insert(format!("{q}span_id"), Some(json!(hex(&e.span_id))));
                    m.insert(format!("{q}trace_state"), Some(json!(e.trace_state)));
                    m.insert(format!("{q}flags"), Some(json!(e.flags)));
                    m.insert(format!("{q}dropped_attributes_count"), Some(json!(e.dropped_attributes_count)));
                    sp.links.push(e);
                }
                if g.bool() {
                    let s = trace::Status { message: g.ident(3), code: g.below(3) as i32 };
                    m.insert(format!("{p}Status/code"), Some(json!(["STATUS_CODE_UNSET", "STATUS_CODE_OK", "STATUS_CODE_ERROR"][s.code as usize])));
                    m.insert(format!("{p}Status/message"), Some(json!(s.message)));
                    sp.status = Some(s);
                }
                want.push(m);
                ss.spans.push(sp);
            }
            rs.scope_spans.push(ss);
        }
        req.resource_spans.push(rs);
    }
    g.show("request", &req);
    let logs = match parse_protobuf_to_otlptrace(req.encode_to_vec().into()) {
        Ok(l) => l,
        Err(e) => fail!("refused: {e}"),
    };
    ensure_eq!(logs.len(), want.len(), "spans");
    for (i, (l, w)) in logs.iter().zip(&want).enumerate() {
        let f = l.get_fields();
        for (k, v) in w {
            match (f.get(k), v) {
                (None, _) => fail!("span {i}: {k} is missing"),
                (Some(a), Some(b)) => ensure!(a == b, "span {i}: {k} is {a}, was {b}"),
                _ => {}
            }
        }
        if let Some(k) = f.keys().find(|k| !w.contains_key(*k)) {
            fail!("span {i}: {k} = {} is not of this span", f[k]);
        }
    }
    if want.windows(2).any(|w| w[0].keys().ne(w[1].keys())) {
        g.nontrivial();
    }
    Ok(())
}
