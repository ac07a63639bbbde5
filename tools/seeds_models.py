# planted bugs in common/models (C11, C12, ...); executed by plant.py
import base64, io, tarfile


def kit():
    """stage.py, the stand-ins and an empty harness, packed to lie beside a demo"""
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:xz") as t:
        for name in ("stage.py", "shims", "ws.Cargo.lock"):
            p = os.path.join(VERIF, name)
            if os.path.exists(p):
                t.add(p, name, filter=lambda i: None if "__pycache__" in i.name else i)
    return b.getvalue()


KIT_DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for this input, nonzero when it is broken.
# Compiles demo.rs against the repository's own crates, laid out next to
# stand-ins for third-party crates that are not here (kit.tar.xz).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
tar xJf "$here/kit.tar.xz" -C "$d" || exit 3
mkdir -p "$d/harness/@SET@/src" "$d/harness/pbt/src"
cp "$here/demo.rs" "$d/harness/@SET@/src/main.rs" && cp "$here/demo.toml" "$d/harness/@SET@/Cargo.toml"
printf '[package]\nname = "pbt"\nversion = "0.1.0"\nedition = "2021"\n' > "$d/harness/pbt/Cargo.toml"
touch "$d/harness/pbt/src/lib.rs"
python3 "$d/stage.py" --repo /repo --set @SET@ --out "$d/ws" || exit 3
cd "$d/ws" && sed -i '/^\[profile/,$d' Cargo.toml
cargo build -q --offline -p @SET@ 2> "$d/log" || { tail -40 "$d/log"; exit 3; }
cd "$d" && timeout 120 /repo/target/debug/@SET@
'''

MID_TOML = """[package]
name = "mid"
version = "0.1.0"
edition = "2021"

[dependencies]
models = { path = "../../common/models" }
utils = { path = "../../common/utils" }
datafusion = { workspace = true }
arrow-schema = { workspace = true }
bincode = { workspace = true }
serde_json = { workspace = true }
"""


def mseed(id, property, file, old, new, needs, breaks, demo, more=()):
    seed(id, property, "common/models/src/" + file, old, new, needs, breaks, [], KIT_DEMO.replace("@SET@", "mid"), more)
    SEEDS[-1]["files"] = {"demo.rs": demo.lstrip("\n"), "demo.toml": MID_TOML, "kit.tar.xz": kit()}


mseed("c11-flip-le", "C11", "predicate/transformation.rs",
"            Operator::LtEq => Operator::GtEq,\n            Operator::Gt => Operator::Lt,", "            Operator::LtEq => Operator::Gt,\n            Operator::Gt => Operator::Lt,",
"a filter or DELETE condition with the value on the left of <= and a row exactly at that value",
"the row at the bound is cut off by the pushed-down time range (or spared by the DELETE)", r'''
use datafusion::logical_expr::{binary_expr, Operator};
use datafusion::prelude::{col, lit};
use datafusion::scalar::ScalarValue;
use models::predicate::domain::TimeRanges;
use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor as D;
use models::predicate::utils::filter_to_time_ranges;

fn main() {
    let e = binary_expr(lit(ScalarValue::TimestampNanosecond(Some(7), None)), Operator::LtEq, col("time"));
    let (_, time) = D::expr_to_tag_and_time_domains(&e).unwrap();
    let r = TimeRanges::new(filter_to_time_ranges(&time));
    assert!(r.contains(7) && r.contains(8) && !r.contains(6), "7 <= time became {r}");
}
''')

mseed("c11-merge-three", "C11", "predicate/domain.rs",
"            new_range.1 = new_range.1.max(self.inner[&timestamps[0]]);", "            new_range.1 = new_range.1.max(self.inner[timestamps.last().unwrap()]);",
"a time range added to a set in which it touches two ranges, the later of which reaches beyond it",
"the end of the later range is lost from the set: a deletion recorded in it is forgotten", r'''
use models::predicate::domain::{TimeRange, TimeRanges};

fn main() {
    let mut s = TimeRanges::new(vec![TimeRange::new(0, 5), TimeRange::new(10, 20)]);
    s.push(TimeRange::new(3, 12));
    for t in 0..=20 {
        assert!(s.contains(t), "{t} was added but is not in {s}");
    }
}
''')
