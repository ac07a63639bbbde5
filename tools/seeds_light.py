seed("c30-split-insert", "C30", "common/cache/src/sync_cache.rs",
"        self.cache.lock().insert(key, value)", """        // release the lock before the old value is returned
        let old = self.cache.lock().remove(&key);
        self.cache.lock().insert(key, value);
        old""",
"two threads insert under the same key at the same moment", "a value that was replaced is handed back to nobody",
["cache"], r"""
use cache::{LruWrap, SyncCache, SyncCacheWrap};
use std::num::NonZeroUsize;
fn main() {
    let c = SyncCacheWrap::new(LruWrap::new(NonZeroUsize::new(8).unwrap()));
    let mut all: Vec<u64> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64).map(|t| { let c = &c; s.spawn(move || (0..200_000u64).filter_map(|n| c.insert(1u32, t << 32 | n)).collect::<Vec<_>>()) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.extend(c.remove(&1));
    all.sort_unstable();
    all.dedup();
    assert_eq!(all.len(), 800_000, "values were lost");
}
""")
seed("c30-overwrite-age", "C30", "common/cache/src/lru_cache/mod.rs",
"        self.cache.put(key, value)", """        if let Some(old) = self.cache.peek_mut(&key) {
            return Some(std::mem::replace(old, value));
        }
        self.cache.put(key, value)""",
"an entry is overwritten and later has to be the one that stays when another is evicted",
"an entry that was just written again is evicted as the oldest",
["cache"], r"""
use cache::{Cache, LruWrap};
use std::num::NonZeroUsize;
fn main() {
    let mut c = LruWrap::new(NonZeroUsize::new(2).unwrap());
    c.insert(1, "a");
    c.insert(2, "b");
    assert_eq!(c.insert(1, "c"), Some("a"));
    c.insert(3, "d");
    assert_eq!(c.get(&1), Some("c"), "the entry written last was evicted");
    assert_eq!(c.get(&2), None);
}
""")
seed("c31-take-first", "C31", "common/limiter_bucket/src/rate_bucket.rs",
"""        if let Some(balance) = critical.balance.checked_sub(permits) {
            critical.balance = balance;
            Ok(())
        } else {
            Err("token is not enough".to_string())
        }
""", """        let granted = usize::min(critical.balance, permits);
        critical.balance -= granted;
        if granted == permits {
            Ok(())
        } else {
            Err("token is not enough".to_string())
        }
""",
"a request larger than the balance followed by one that fits",
"a refused request uses up the tokens that were left",
["limiter_bucket"], r'''
use limiter_bucket::RateBucketBuilder;
fn main() {
    let b: RateBucketBuilder = limiter();
    let b = b.build();
    assert!(b.acquire(11).is_err());
    assert!(b.acquire(10).is_ok(), "the refused request took tokens");
}
fn limiter() -> RateBucketBuilder {
    let cfg = config::common::RateBucketConfig { max: Some(10), initial: 10, refill: 1, interval: 3_600_000 };
    RateBucketBuilder::from(&cfg)
}
''')
SEEDS[-1]["deps"] = ["limiter_bucket", "config"]
seed("c33-multi-frame", "C33", "common/http_protocol/src/encoding.rs",
"""                zstd::stream::copy_decode(&bytes[..], &mut *buf)?;
                io::Result::Ok(Bytes::from(buf.clone()))
""", """                let mut decoder = zstd::stream::Decoder::new(&bytes[..])?.single_frame();
                decoder.read_to_end(buf)?;
                io::Result::Ok(Bytes::from(buf.clone()))
""",
"a body made of several zstd frames (as streaming clients and pzstd send it)",
"everything after the first frame is silently dropped",
["http_protocol", 'zstd = "0.13"', 'bytes = "1"'], r'''
use http_protocol::encoding::Encoding;
fn main() {
    let mut body = zstd::encode_all(&b"first "[..], 3).unwrap();
    body.extend(zstd::encode_all(&b"second"[..], 3).unwrap());
    let got = Encoding::Zstd.decode(body.into()).unwrap();
    assert_eq!(&got[..], b"first second");
}
''')
seed("c33-gzip-cut", "C33", "common/http_protocol/src/encoding.rs",
"""                let mut decoder = GzDecoder::new(buf);
                decoder.write_all(&bytes)?;
                decoder.finish().map(|res| Bytes::from(res.clone()))
""", """                let mut decoder = flate2::read::GzDecoder::new(&bytes[..]);
                let mut chunk = [0_u8; 4096];
                while let Ok(n) = decoder.read(&mut chunk) {
                    if n == 0 {
                        break;
                    }
                    buf.extend_from_slice(&chunk[..n]);
                }
                io::Result::Ok(Bytes::from(buf.clone()))
""",
"a gzip body that was cut short or changed on the way",
"the damaged body is accepted, shortened, instead of being refused",
["http_protocol", 'flate2 = "1"'], r'''
use http_protocol::encoding::Encoding;
fn main() {
    let body: Vec<u8> = (0..20_000u32).flat_map(|i| i.to_le_bytes()).collect();
    let enc = Encoding::Gzip.encode(body.clone()).unwrap();
    assert_eq!(&Encoding::Gzip.decode(enc.clone().into()).unwrap()[..], &body[..]);
    for cut in [enc.len() - 1, enc.len() / 2, 40] {
        assert!(Encoding::Gzip.decode(enc[..cut].to_vec().into()).is_err(), "cut at {cut} accepted");
    }
}
''')
seed("c34-bound", "C34", "common/metrics/src/histogram.rs",
"            .find(|bucket| value <= bucket.le)", "            .find(|bucket| value < bucket.le)",
"a recorded value equal to a bucket's bound", "it is counted in the next bucket, or not at all at the last one",
["metrics"], r'''
use metrics::histogram::{U64Histogram, U64HistogramOptions};
use metrics::metric_register::MetricsRegister;
fn main() {
    let r = MetricsRegister::default();
    let m = r.register_metric::<U64Histogram>("h", "h", U64HistogramOptions::new([1, 10, 20]));
    let h = m.recorder([("a", "b")]);
    h.record(10);
    h.record(20);
    let v = h.fetch();
    assert_eq!(v.buckets.iter().map(|b| b.count).collect::<Vec<_>>(), vec![0, 1, 1]);
    assert_eq!(v.total, 30);
}
''')
seed("c34-labels", "C34", "common/metrics/src/metric_register.rs",
"""        let mut register_labels = self.labels.clone();
        register_labels.extend(labels.into());
""", """        let mut register_labels: Labels = labels.into();
        register_labels.extend(self.labels.clone());
""",
"a sub-register that gives a label its register already has another value for", "its series are reported under the outer value, mixed with others",
["metrics"], r'''
use metrics::count::U64Counter;
use metrics::metric_register::MetricsRegister;
use metrics::prom_reporter::PromReporter;
fn main() {
    let r = MetricsRegister::new([("node", "1")]);
    let s = r.sub_register([("node", "2")]);
    s.metric::<U64Counter>("n", "n").recorder([("k", "v")]).inc(3);
    let mut buf = Vec::new();
    r.report(&mut PromReporter::new(&mut buf));
    let t = String::from_utf8(buf).unwrap();
    assert!(t.contains("node=\"2\""), "{t}");
}
''')
seed("c35-width", "C35", "common/trace/src/span_ctx_ext.rs",
"    u128::from_str_radix(s, 16).map_err(|source| DecodeError::ValueDecodeError { source })",
"""    let low = s.len().saturating_sub(16);
    let (high, low) = (s.get(..low).unwrap_or_default(), s.get(low..).unwrap_or(s));
    let low = parse_span(low)? as u128;
    if high.is_empty() {
        return Ok(low);
    }
    Ok(((parse_span(high)? as u128) << 64) + low)""",
"a header whose trace id has a sign or a part that is no number on its own, or is longer than 32 digits with leading zeros",
"header texts that were readable are refused, or unreadable ones accepted",
["trace"], r'''
use trace::span_ctx_ext::SpanContextExt;
use trace::SpanContext;
fn main() {
    // leading zeros do not change a number
    let long = format!("{}1f:2", "0".repeat(40));
    let c = SpanContext::from_str(&long).unwrap();
    assert_eq!(c.trace_id.0, 0x1f);
    // a sign inside the digits is no number
    assert!(SpanContext::from_str("1+0000000000000af:2").is_err());
}
''')
seed("c36-order", "C36", "common/utils/src/bloom_filter.rs",
"        (hash & self.mask) as usize", "        ((hash ^ (self.b[0] as u64 >> 7)) & self.mask) as usize",
"a key whose bit is the top bit of the first byte is inserted after others", "keys inserted earlier are no longer found: the filter denies members",
["utils"], r'''
use utils::BloomFilter;
fn main() {
    let mut f = BloomFilter::new(128);
    let mut keys = vec![];
    for i in 0..200u32 {
        f.insert(&i.to_be_bytes());
        keys.push(i);
        for k in &keys {
            assert!(f.maybe_contains(&k.to_be_bytes()), "denies {k} after inserting {i}");
        }
    }
}
''')
seed("c37-micros", "C37", "common/utils/src/duration.rs",
"            min(self.duration.as_micros(), i64::MAX as u128) as i64", "            self.duration.as_micros() as i64",
"a retention duration longer than 292471 years in microseconds", "the duration turns negative in microsecond databases",
["utils"], r'''
use utils::duration::CnosDuration;
use utils::precision::Precision;
fn main() {
    let d = CnosDuration::new_with_day(200_000_000);
    assert_eq!(d.to_precision(Precision::US), i64::MAX);
    assert_eq!(d.to_precision(Precision::NS), i64::MAX);
    assert_eq!(d.to_precision(Precision::MS), 200_000_000 * 86_400_000);
}
''')
seed("c37-neg-round", "C37", "common/utils/src/precision.rs",
"(Precision::NS, Precision::US) | (Precision::US, Precision::MS) => Some(ts / 1_000),",
"(Precision::NS, Precision::US) | (Precision::US, Precision::MS) => Some(ts.div_euclid(1_000)),",
"a timestamp before 1970 that is not a whole number of the coarser unit", "it is moved to the other side than nanoseconds to milliseconds, so converting in two steps differs from one",
["utils"], r'''
use utils::precision::{timestamp_convert, Precision};
fn main() {
    for ts in [-1i64, -999, -1_000_001, -1_999_999] {
        let one = timestamp_convert(Precision::NS, Precision::MS, ts);
        let us = timestamp_convert(Precision::NS, Precision::US, ts).unwrap();
        let two = timestamp_convert(Precision::US, Precision::MS, us);
        assert_eq!(one, two, "{ts} ns");
    }
}
''')
seed("c38-id-race", "C38", "common/utils/src/id_generator.rs",
"        self.id.fetch_add(1, Ordering::SeqCst)", """        let id = self.id.load(Ordering::Acquire);
        self.id.store(id.wrapping_add(1), Ordering::Release);
        id""",
"two threads drawing an id at the same moment", "both get the same id",
["utils"], r"""
use utils::id_generator::IDGenerator;
fn main() {
    let g = IDGenerator::new(7);
    let hs: Vec<_> = (0..4).map(|_| { let g = g.clone(); std::thread::spawn(move || (0..200_000).map(|_| g.next_id()).collect::<Vec<_>>()) }).collect();
    let mut all: Vec<u64> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    all.sort_unstable();
    assert!(all.windows(2).all(|w| w[1] == w[0] + 1), "an id was handed out twice");
}
""")
seed("c38-gap", "C38", "common/utils/src/dedup.rs",
"                let dropped = self.read.wrapping_sub(self.write);", "                let dropped = self.prev.wrapping_sub(self.write);",
"the comparison panics after at least one element was removed", "the vector keeps one element too many: it is seen and dropped twice",
["utils"], r"""
use std::cell::RefCell;
use utils::dedup_front_by;
thread_local! { static DROPS: RefCell<Vec<u32>> = RefCell::new(vec![0; 8]); }
#[derive(Debug)]
struct E(usize);
impl Drop for E {
    fn drop(&mut self) { DROPS.with(|d| d.borrow_mut()[self.0] += 1); }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // ManuallyDrop-like: plain numbers on the heap are not needed, only counts
    let mut v: Vec<E> = (0..8).map(E).collect();
    let mut n = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dedup_front_by(&mut v, |_, _| { n += 1; if n == 4 { panic!("x") } n <= 2 })));
    assert!(r.is_err());
    let mut ids: Vec<usize> = v.iter().map(|e| e.0).collect();
    drop(v);
    ids.dedup();
    assert!(DROPS.with(|d| d.borrow().iter().all(|n| *n <= 1)), "dropped twice");
}
""")
seed("c32-duration-print", "C32", "config/src/codec/duration.rs",
"    let s = format_duration(*date).to_string();", "    let s = format_duration(Duration::from_millis(date.as_millis() as u64)).to_string();",
"a duration option with a part below a millisecond is printed and read back", "the printed configuration is not the one that is in use",
["config", "serde = { version = \"1\", features = [\"derive\"] }", "toml = \"0.5\""], r"""
use std::time::Duration;
fn main() {
    let mut c = config::tskv::Config::default();
    c.storage.compact_trigger_cold_duration = Duration::from_micros(3_600_000_001);
    let t = c.to_string_pretty();
    let p = std::env::temp_dir().join(format!("c32-{}.toml", std::process::id()));
    std::fs::write(&p, &t).unwrap();
    let d = config::tskv::Config::new(Some(&p)).unwrap();
    std::fs::remove_file(&p).unwrap();
    assert_eq!(d.storage.compact_trigger_cold_duration, c.storage.compact_trigger_cold_duration);
}
""")
SEEDS[-1]["deps"] = ["config"]
seed("c39-bool-byte", "C39", "common/protos/src/models_helper.rs",
"                        col_values.push(field_value[0] != 0);\n                    }\n                    let values = fbb.create_vector(&col_values);",
"                        col_values.push(field_value[0] == 1);\n                    }\n                    let values = fbb.create_vector(&col_values);",
"a true boolean that is not encoded as 1", "it is sent as false",
["protos", 'flatbuffers = "24"'], r"""
use std::collections::HashMap;
use protos::models::{self, FieldType};
fn main() {
    let mut fbb = flatbuffers::FlatBufferBuilder::new();
    let p = protos::models_helper::create_const_points(&mut fbb, "d", "t", vec![("ta", "a")], vec![("f", &[2u8])], HashMap::from([("f", FieldType::Boolean)]), 0, 2);
    fbb.finish(p, None);
    let buf = fbb.finished_data();
    let pts = flatbuffers::root::<models::Points>(buf).unwrap();
    let t = pts.tables_iter_ext().unwrap().next().unwrap();
    let c = t.columns_iter_ext().unwrap().find(|c| c.name() == Some("f")).unwrap();
    assert_eq!(c.bool_values().unwrap().iter().collect::<Vec<_>>(), vec![true, true]);
}
""")
seed("c40-code-width", "C40", "common/derive_macros/src/error_code/parse.rs",
"""                    max_code = max_code.max(code.code_num);
                    if !used_codes.insert(code.code_num) {
""", """                    max_code = max_code.max(code.code_num);
                    if code.code_num < max_code && !used_codes.insert(code.code_num) {
""",
"two variants of one error type with the same code that is also the highest so far", "the clash is accepted: two different errors share a code",
["derive_traits"], r'''#!/bin/bash
# An enum with two equal error codes must be refused by the compiler.
. /opt/vp/env.sh
python3 /opt/vp/stage.py || exit 3
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
derive_traits = { path = "/opt/vp/ws/common/derive_traits" }
TOML
gen() {
cat > "$d/src/main.rs" <<RS
use derive_traits::ErrorCoder;
#[derive(Debug, ErrorCoder)]
#[error_code(mod_code = "07")]
pub enum E {
    #[error_code(code = 3)]
    A,
    #[error_code(code = $1)]
    B,
}
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "e") }
}
impl std::error::Error for E {}
fn main() {}
RS
}
cd "$d" || exit 3
gen 4; cargo build -q --offline > "$d/log" 2>&1 || { tail -20 "$d/log"; exit 3; }
gen 3; if cargo build -q --offline > "$d/log" 2>&1; then echo "equal codes accepted"; exit 1; fi
exit 0
''')
