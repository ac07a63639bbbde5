# planted bugs in tskv's column codecs (C02); executed by plant.py
CODEC_DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for this input, nonzero when it is broken.
# Compiles tskv/src/tsm/codec next to stand-ins for crates that are not here.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src/tsm" "$d/models"
cp "$here/demo.rs" "$d/src/main.rs"
cp -r /repo/tskv/src/tsm/codec "$d/src/tsm/codec"
cp /repo/tskv/src/byte_utils.rs "$d/src/byte_utils.rs"
printf 'pub mod codec;\n' > "$d/src/tsm/mod.rs"
printf 'pub mod codec;\n' > "$d/models/lib.rs"
cp /repo/common/models/src/codec.rs "$d/models/codec.rs"
pkg() { printf '[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n[lib]\npath = "lib.rs"\n[dependencies]\n' "$1" "$2"; }
pkg models 0.1.0 > "$d/models/Cargo.toml"; echo 'serde = { version = "1", features = ["derive"] }' >> "$d/models/Cargo.toml"
for s in pco bzip2 integer-encoding minivec; do
    mkdir "$d/$s"; cp "$here/$s.rs" "$d/$s/lib.rs"; pkg $s 0.1.0 > "$d/$s/Cargo.toml"
done
echo 'flate2 = "1"' >> "$d/bzip2/Cargo.toml"
echo 'serde = { version = "1", features = ["derive"] }' >> "$d/minivec/Cargo.toml"
cat > "$d/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
models = { path = "models" }
pco = { path = "pco" }
bzip2 = { path = "bzip2" }
integer-encoding = { path = "integer-encoding" }
minivec = { path = "minivec" }
arrow = { version = "=42.0.0", default-features = false }
arrow-array = "=42.0.0"
arrow-buffer = "=42.0.0"
arrow-schema = "=42.0.0"
snap = "1"
zstd = "0.13"
flate2 = "1"
TOML
cd "$d" && cargo build -q --offline 2> "$d/log" || { tail -40 "$d/log"; exit 3; }
timeout 120 "${CARGO_TARGET_DIR:-$d/target}/debug/demo"
'''
CODEC_FILES = {n + ".rs": open(os.path.join(VERIF, "shims", n, "src/lib.rs")).read() for n in ("pco", "bzip2", "integer-encoding", "minivec")}
CODEC_MAIN = '''#![allow(dead_code, unused_imports)]
mod byte_utils;
mod tsm;
use arrow_buffer::NullBuffer;
use models::codec::Encoding;
use tsm::codec::*;
'''


def cseed(id, file, old, new, needs, breaks, demo):
    seed(id, "C02", "tskv/src/tsm/codec/" + file, old, new, needs, breaks, [], CODEC_DEMO)
    SEEDS[-1]["files"] = dict(CODEC_FILES, **{"demo.rs": CODEC_MAIN + demo.lstrip("\n")})


cseed("c02-ts-scale", "timestamp.rs", """    let mut div: u64 = 1_000_000_000_000;
    for delta in deltas.iter().skip(1) {
        if div""", """    let mut div: u64 = 1_000_000_000_000;
    for delta in deltas.iter().skip(2) {
        if div""",
"timestamps whose first gap is irregular while all later gaps are different multiples of a power of ten",
"the first gap is divided without looking whether it can be: all times after the first are shifted", r'''
fn main() {
    let v: Vec<i64> = vec![1_000_003, 1_000_020, 1_001_020, 1_003_020, 1_003_030, 1_005_030];
    let c = get_ts_codec(Encoding::DeltaTs);
    let mut b = vec![];
    c.encode(&v, &mut b).unwrap();
    let a = c.decode_to_array(&b, &NullBuffer::new_valid(v.len())).unwrap();
    let got = a.as_any().downcast_ref::<arrow_array::Int64Array>().unwrap().values().to_vec();
    if got != v {
        println!("stored {v:?}, read {got:?}");
        std::process::exit(1);
    }
}
''')

cseed("c02-gorilla-window", "float.rs", "        if prev_leading != !0u64 && leading >= prev_leading && trailing >= prev_trailing {\n            n += 1; // write leading bit",
"        if prev_leading != !0u64 && leading >= prev_leading && trailing + 1 >= prev_trailing {\n            n += 1; // write leading bit",
"a float that differs from the one before in exactly one bit below the window the previous difference used",
"the lowest differing bit is lost: the value read is a neighbour of the one stored", r'''
fn main() {
    let x = 1.5f64.to_bits();
    let bits = [x, x ^ (0b11 << 20), x ^ (0b111 << 19) ^ (0b11 << 20), x];
    let v: Vec<f64> = bits.iter().map(|b| f64::from_bits(*b)).collect();
    let c = get_f64_codec(Encoding::Gorilla);
    let mut b = vec![];
    c.encode(&v, &mut b).unwrap();
    let a = c.decode_to_array(&b, &NullBuffer::new_valid(v.len())).unwrap();
    let got = a.as_any().downcast_ref::<arrow_array::Float64Array>().unwrap().values().to_vec();
    if got.iter().map(|x| x.to_bits()).collect::<Vec<_>>() != bits {
        println!("stored {v:?}, read {got:?}");
        std::process::exit(1);
    }
}
''')

cseed("c02-ones-run", "simple8b.rs", """            } else if k >= 120 {
                i += 120;""", """            } else if k >= 119 {
                i += 120;""",
"differences that are 1 for exactly 119 values and something else at the 120th, with at least 120 left",
"the 120th difference is stored as 1: every later value is shifted", r'''
fn main() {
    let mut v: Vec<i64> = (0..120).collect();
    v.extend([130, 133, 140]);
    let c = get_ts_codec(Encoding::DeltaTs);
    let mut b = vec![];
    c.encode(&v, &mut b).unwrap();
    let a = c.decode_to_array(&b, &NullBuffer::new_valid(v.len())).unwrap();
    let got = a.as_any().downcast_ref::<arrow_array::Int64Array>().unwrap().values().to_vec();
    if got != v {
        println!("stored {:?}, read {:?}", &v[115..], &got[115..]);
        std::process::exit(1);
    }
}
''')
