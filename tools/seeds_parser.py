PARSER_DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for this input, nonzero when it is broken.
# Compiles the parsers of common/protocol_parser (without lines_convert, which
# needs the query engine) next to stand-ins for two number parsing crates.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
python3 /opt/vp/stage.py || exit 3
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/parser" "$d/models" "$d/atoi_simd" "$d/fast-float"
cp "$here/demo.rs" "$d/src/main.rs" && cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock"
cp -r /repo/common/protocol_parser/src "$d/parser/src"
sed -i '/^pub mod lines_convert;/d' "$d/parser/src/lib.rs"
cp "$here/atoi_simd.rs" "$d/atoi_simd/lib.rs"; cp "$here/fast_float.rs" "$d/fast-float/lib.rs"
cat > "$d/models/lib.rs" <<'RS'
pub mod utils { pub fn now_timestamp_nanos() -> i64 { 1 } }
pub mod snappy {
    pub struct SnappyCodec {}
    impl SnappyCodec {
        pub fn decompress(&self, i: &[u8], o: &mut Vec<u8>, _: Option<usize>) -> Result<usize, String> {
            *o = snap::raw::Decoder::new().decompress_vec(i).map_err(|e| e.to_string())?;
            Ok(o.len())
        }
    }
}
RS
pkg() { printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "%s"\n[dependencies]\n' "$1" "$2"; }
pkg models lib.rs > "$d/models/Cargo.toml"; echo 'snap = "1"' >> "$d/models/Cargo.toml"
pkg atoi_simd lib.rs > "$d/atoi_simd/Cargo.toml"
pkg fast-float lib.rs > "$d/fast-float/Cargo.toml"
pkg protocol_parser src/lib.rs > "$d/parser/Cargo.toml"
cat >> "$d/parser/Cargo.toml" <<'TOML'
protos = { path = "/opt/vp/ws/common/protos" }
utils = { path = "/opt/vp/ws/common/utils" }
models = { path = "../models" }
atoi_simd = { path = "../atoi_simd" }
fast-float = { path = "../fast-float" }
bytes = "1"
itertools = "*"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
snafu = "*"
chrono = "*"
prost = "0.11"
TOML
cat > "$d/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
members = ["parser"]
[dependencies]
protocol_parser = { path = "parser" }
protos = { path = "/opt/vp/ws/common/protos" }
serde_json = "1"
prost = "0.11"
TOML
cd "$d" && cargo build -q --offline 2> "$d/log" || { tail -40 "$d/log"; exit 3; }
timeout 120 /repo/target/debug/demo
'''
PARSER_FILES = {"atoi_simd.rs": open(os.path.join(VERIF, "shims/atoi_simd/src/lib.rs")).read(),
                "fast_float.rs": open(os.path.join(VERIF, "shims/fast-float/src/lib.rs")).read()}


def pseed(id, property, file, old, new, needs, breaks, demo, more=()):
    seed(id, property, "common/protocol_parser/src/" + file, old, new, needs, breaks, [], PARSER_DEMO, more)
    SEEDS[-1]["files"] = dict(PARSER_FILES, **{"demo.rs": demo.lstrip("\n")})


pseed("c09-dedup-order", "C09", "lib.rs",
"""        self.tags.sort_by(|a, b| a.0.cmp(&b.0));
        self.fields.sort_by(|a, b| a.0.cmp(&b.0));
        self.tags.dedup_by(|a, b| a.0 == b.0);
        self.fields.dedup_by(|a, b| a.0 == b.0);
""", """        self.tags.dedup_by(|a, b| a.0 == b.0);
        self.fields.dedup_by(|a, b| a.0 == b.0);
        self.tags.sort_by(|a, b| a.0.cmp(&b.0));
        self.fields.sort_by(|a, b| a.0.cmp(&b.0));
""", "a line that names a tag or field twice with another one in between", "the repeated name stays in the line twice",
r'''
fn main() {
    let p = protocol_parser::line_protocol::line_protocol_to_lines("m,b=1,a=2,b=1 y=1,x=2,y=1 5\n", 0).unwrap();
    assert_eq!(p[0].tags.len(), 2, "{:?}", p[0]);
    assert_eq!(p[0].fields.len(), 2, "{:?}", p[0]);
}
''')
pseed("c09-unescape-state", "C09", "line_protocol/parser.rs",
"""        ownd_bytes.push(v1);
        in_unescape = false;
""", """        ownd_bytes.push(v1);
        if v1 != b'\\\\' {
            in_unescape = false;
        }
""", "a quoted value with an escaped backslash directly followed by another escape", "the value keeps a backslash too many or is refused",
r'''
use protos::FieldValue;
fn main() {
    let text = "m f=\"a\\\\\\\\b\" 5\n"; // two escaped backslashes in a row
    let p = protocol_parser::line_protocol::line_protocol_to_lines(text, 0).unwrap();
    assert_eq!(p[0].fields[0].1, FieldValue::Str(b"a\\\\b".to_vec()), "{:?}", p[0]);
}
''')
pseed("c10-array-null", "C10", "json_protocol/parser.rs",
"            for (idx, value) in arr.iter().enumerate() {", "            for (idx, value) in arr.iter().filter(|v| !v.is_null()).enumerate() {",
"an array with a null before other elements", "the elements after the null move to other columns and the null is no longer refused",
r'''
fn main() {
    let v: serde_json::Value = serde_json::from_str(r#"{"a":[1,null,3]}"#).unwrap();
    let m = protocol_parser::json_protocol::parser::flatten_json(String::new(), v);
    assert_eq!(m.get("a.2"), Some(&serde_json::json!(3)), "{m:?}");
    assert_eq!(m.get("a.1"), Some(&serde_json::Value::Null), "{m:?}");
}
''')
pseed("c10-event-prefix", "C10", "json_protocol/parser.rs",
"""                    for attribute in event.attributes {
                        if let Some(ref value) = attribute.value {
""", """                    for attribute in event.attributes.into_iter().rev().take(8) {
                        if let Some(ref value) = attribute.value {
""", "a span event with more than eight attributes", "the attributes after the eighth are not stored",
r'''
use prost::Message;
use protos::common::{any_value::Value, AnyValue, KeyValue};
use protos::trace::{span::Event, ResourceSpans, ScopeSpans, Span};
fn main() {
    let attributes = (0..12).map(|i| KeyValue { key: format!("k{i}"), value: Some(AnyValue { value: Some(Value::IntValue(i)) }) }).collect();
    let span = Span { events: vec![Event { name: "e".into(), attributes, ..Default::default() }], ..Default::default() };
    let req = protos::trace_service::ExportTraceServiceRequest {
        resource_spans: vec![ResourceSpans { scope_spans: vec![ScopeSpans { spans: vec![span], ..Default::default() }], ..Default::default() }],
    };
    let logs = protocol_parser::json_protocol::parser::parse_protobuf_to_otlptrace(req.encode_to_vec().into()).unwrap();
    let text = format!("{:?}", logs.iter().map(|l| l.get_fields()).collect::<Vec<_>>());
    for i in 0..12 {
        assert!(text.contains(&format!("attributes/k{i}\"")), "attribute k{i} is missing");
    }
}
''')
