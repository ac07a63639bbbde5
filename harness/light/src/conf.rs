//! Configuration: what is written is what is read.
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;
use std::time::Duration;

use config::tskv::Config;
use pbt::{ensure, ensure_eq, fail, Check, Sub, G, R};
use utils::byte_nums::CnosByteNumber;

pub fn check() -> Check {
    Check {
        property: "C32",
        level: "exploration",
        assumptions: &[
            "numbers stay within TOML's 64-bit signed range; strings given by environment do not look like numbers or lists",
            "host names are numeric addresses (no resolver in the sandbox)",
        ],
        subs: vec![
            Sub { name: "file_env", rule: "a random subset of all keys is set in a TOML file (in varied notations), another by CNOSDB_* variables; every field must be the environment's value, else the file's, else the default; non-trivial: a key set in both places and one in neither", quick: 10_000, thorough: 800_000, serial: true, f: file_env },
            Sub { name: "meta_opt", rule: "same for the meta node's Opt with CNOSDB_META_*; non-trivial as above", quick: 10_000, thorough: 800_000, serial: true, f: meta_opt },
            Sub { name: "print_read", rule: "Config with random values → to_string_pretty → Config::new; every field equal; non-trivial: three or more non-default fields", quick: 15_000, thorough: 1_200_000, serial: true, f: print_read },
            Sub { name: "sizes", rule: "byte sizes and durations: parse(notation) = amount × unit, parse(format(n)) = n; non-trivial: a value that is not a whole unit", quick: 250_000, thorough: 20_000_000, serial: false, f: sizes },
            Sub { name: "reject", rule: "one field gets text of the wrong type: loading fails; non-trivial: always", quick: 5_000, thorough: 400_000, serial: true, f: reject },
            Sub { name: "check_report", rule: "check_config prints exactly the entries whose values are invalid (errors) or questionable (warnings, on request); non-trivial: at least one error and one valid section", quick: 5_000, thorough: 400_000, serial: true, f: check_report },
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Bytes,
    Dur,
    /// unsigned up to 2^n-1
    U(u32),
    Bool,
    Str,
    Strs,
    OptU(u32),
    OptStr,
}

struct F<C> {
    key: &'static str,
    kind: K,
    get: fn(&C) -> String,
    set: fn(&mut C, &V),
}

#[derive(Clone, Debug)]
struct V {
    n: u64,
    d: Duration,
    b: bool,
    s: String,
    v: Vec<String>,
    none: bool,
    /// TOML text
    toml: String,
    /// environment text
    env: String,
}

fn canon(k: K, v: &V) -> String {
    match k {
        K::Bytes | K::U(_) => v.n.to_string(),
        K::Dur => format!("{}ns", v.d.as_nanos()),
        K::Bool => v.b.to_string(),
        K::Str => v.s.clone(),
        K::Strs => format!("{:?}", v.v),
        K::OptU(_) => {
            if v.none {
                "None".into()
            } else {
                format!("Some({})", v.n)
            }
        }
        K::OptStr => {
            if v.none {
                "None".into()
            } else {
                format!("Some({:?})", v.s)
            }
        }
    }
}

macro_rules! getset {
    ($c:ty, $a:ident . $b:ident, Bytes) => { (K::Bytes, |c: &$c| c.$a.$b.to_string(), |c: &mut $c, v: &V| c.$a.$b = v.n) };
    ($c:ty, $a:ident . $b:ident, Dur) => { (K::Dur, |c: &$c| format!("{}ns", c.$a.$b.as_nanos()), |c: &mut $c, v: &V| c.$a.$b = v.d) };
    ($c:ty, $a:ident . $b:ident, U($n:expr)) => { (K::U($n), |c: &$c| c.$a.$b.to_string(), |c: &mut $c, v: &V| c.$a.$b = v.n as _) };
    ($c:ty, $a:ident . $b:ident, Bool) => { (K::Bool, |c: &$c| c.$a.$b.to_string(), |c: &mut $c, v: &V| c.$a.$b = v.b) };
    ($c:ty, $a:ident . $b:ident, Str) => { (K::Str, |c: &$c| c.$a.$b.clone(), |c: &mut $c, v: &V| c.$a.$b = v.s.clone()) };
    ($c:ty, $a:ident . $b:ident, Strs) => { (K::Strs, |c: &$c| format!("{:?}", c.$a.$b), |c: &mut $c, v: &V| c.$a.$b = v.v.clone()) };
    ($c:ty, $a:ident . $b:ident, OptU($n:expr)) => { (K::OptU($n), |c: &$c| format!("{:?}", c.$a.$b), |c: &mut $c, v: &V| c.$a.$b = if v.none { None } else { Some(v.n as _) }) };
    ($c:ty, $a:ident . $b:ident, OptStr) => { (K::OptStr, |c: &$c| format!("{:?}", c.$a.$b), |c: &mut $c, v: &V| c.$a.$b = if v.none { None } else { Some(v.s.clone()) }) };
}

macro_rules! fields {
    ($c:ty; $( $a:ident . $b:ident : $k:ident $(($n:expr))? ; )*) => {
        vec![ $( { let (kind, get, set) = getset!($c, $a . $b, $k $(($n))?); F::<$c> { key: concat!(stringify!($a), ".", stringify!($b)), kind, get, set } } ),* ]
    };
}

fn tskv_fields() -> Vec<F<Config>> {
    fields! { Config;
        global.node_id: U(63); global.host: Str; global.cluster_name: Str; global.store_metrics: Bool; global.pre_create_bucket: Bool;
        deployment.mode: Str; deployment.cpu: U(63); deployment.memory: U(63);
        meta.service_addr: Strs; meta.report_time_interval: Dur; meta.usage_schema_cache_size: Bytes; meta.cluster_schema_cache_size: Bytes; meta.system_database_replica: U(63);
        query.max_server_connections: U(32); query.query_sql_limit: Bytes; query.write_sql_limit: Bytes; query.auth_enabled: Bool;
        query.read_timeout: Dur; query.write_timeout: Dur; query.stream_trigger_cpu: U(63); query.stream_executor_cpu: U(63); query.sql_record_timeout: Dur;
        storage.path: Str; storage.max_summary_size: Bytes; storage.base_file_size: Bytes; storage.flush_req_channel_cap: U(63);
        storage.max_cached_readers: U(63); storage.max_level: U(16); storage.compact_trigger_file_num: U(32); storage.compact_trigger_cold_duration: Dur;
        storage.max_compact_size: Bytes; storage.max_concurrent_compaction: U(16); storage.collect_compaction_metrics: Bool; storage.strict_write: Bool;
        storage.reserve_space: Bytes; storage.copyinto_trigger_flush_size: Bytes; storage.max_datablock_size: Bytes; storage.index_cache_capacity: U(63);
        storage.tsm_meta_compress: Str;
        wal.path: Str; wal.wal_req_channel_cap: U(63); wal.max_file_size: Bytes; wal.sync: Bool; wal.compress: Str;
        cache.max_buffer_size: Bytes; cache.partition: U(63);
        log.level: Str; log.path: Str; log.max_file_count: OptU(63); log.file_rotation: Str;
        service.http_listen_port: OptU(16); service.grpc_listen_port: OptU(16); service.grpc_enable_gzip: Bool; service.flight_rpc_listen_port: OptU(16);
        service.tcp_listen_port: OptU(16); service.enable_report: Bool; service.jaeger_rpc_listen_port: OptU(16);
        cluster.raft_logs_to_keep: U(63); cluster.snapshot_holding_time: Dur; cluster.trigger_snapshot_interval: Dur; cluster.lmdb_max_map_size: Bytes;
        cluster.heartbeat_interval: Dur; cluster.send_append_entries_timeout: Dur; cluster.install_snapshot_timeout: Dur;
        trace.auto_generate_span: Bool; trace.max_spans_per_trace: OptU(63); trace.batch_report_interval: Dur; trace.batch_report_max_spans: OptU(63);
        trace.otlp_endpoint: OptStr; trace.trace_log_path: OptStr;
    }
}

fn opt_fields() -> Vec<F<config::meta::Opt>> {
    fields! { config::meta::Opt;
        global.node_id: U(63); global.cluster_name: Str; global.raft_node_host: Str; global.listen_port: U(16); global.grpc_enable_gzip: Bool; global.data_path: Str;
        cluster.lmdb_max_map_size: U(63); cluster.heartbeat_interval: U(63); cluster.raft_logs_to_keep: U(63); cluster.install_snapshot_timeout: U(63); cluster.send_append_entries_timeout: U(63);
        sys_config.usage_schema_cache_size: U(63); sys_config.cluster_schema_cache_size: U(63); sys_config.system_database_replica: U(63);
        log.level: Str; log.path: Str; log.max_file_count: OptU(63); log.file_rotation: Str;
        heartbeat.heartbeat_recheck_interval: U(63); heartbeat.heartbeat_expired_interval: U(63);
    }
}

fn bytes_text(g: &mut G) -> (u64, String) {
    const UNITS: &[(&str, u64)] = &[
        ("", 1), ("B", 1), ("K", 1000), ("k", 1000), ("KB", 1000), ("kb", 1000), ("KiB", 1 << 10), ("kib", 1 << 10), ("M", 1_000_000), ("MB", 1_000_000),
        ("mib", 1 << 20), ("MiB", 1 << 20), ("G", 1_000_000_000), ("gb", 1_000_000_000), ("GiB", 1 << 30), ("TiB", 1 << 40), ("TB", 1_000_000_000_000),
    ];
    let (u, m) = *g.pick(UNITS);
    let n = match g.below(4) {
        0 => g.below(10),
        1 => g.below(2000),
        2 => 1 << g.below(20),
        _ => g.below(4_000_000),
    };
    let mut t = n.to_string();
    if t.len() > 3 && g.bool() {
        let k = t.len() - 3;
        t.insert(k, '_');
    }
    if g.chance(1, 4) {
        t.push(' ');
    }
    (n * m, format!("{t}{u}"))
}

fn dur_text(g: &mut G) -> (Duration, String) {
    const UNITS: &[(&str, u64)] = &[
        ("s", 1_000_000_000), ("ms", 1_000_000), ("us", 1000), ("ns", 1), ("m", 60_000_000_000), ("min", 60_000_000_000), ("h", 3_600_000_000_000),
        ("d", 86_400_000_000_000), ("day", 86_400_000_000_000), ("w", 604_800_000_000_000), ("sec", 1_000_000_000), ("hours", 3_600_000_000_000),
    ];
    let mut total = 0u128;
    let mut s = String::new();
    for i in 0..1 + g.below(3) {
        let (u, m) = *g.pick(UNITS);
        let n = if g.bool() { g.below(100) } else { g.below(10_000) };
        total += n as u128 * m as u128;
        if i > 0 && g.bool() {
            s.push(' ');
        }
        s.push_str(&format!("{n}{u}"));
    }
    (Duration::new((total / 1_000_000_000) as u64, (total % 1_000_000_000) as u32), s)
}

fn word(g: &mut G) -> String {
    // starts with a letter; not true/false/null-like
    const A: &[char] = &['a', 'z', 'Q', '0', '7', '_', '-', '.', '/', ':', 'é', '中'];
    format!("x{}", g.string_of(A, 0, 8))
}

fn value(g: &mut G, k: K) -> V {
    let mut v = V { n: 0, d: Duration::ZERO, b: false, s: String::new(), v: vec![], none: false, toml: String::new(), env: String::new() };
    match k {
        K::Bytes => {
            let (n, t) = bytes_text(g);
            v.n = n;
            v.toml = format!("{t:?}");
            // a bare number in the environment would be an integer, not a string
            v.env = if t.trim().chars().all(|c| c.is_ascii_digit() || c == '_') { format!("{}B", t.trim()) } else { t };
        }
        K::Dur => {
            let (d, t) = dur_text(g);
            v.d = d;
            v.toml = format!("{t:?}");
            v.env = t;
        }
        K::U(bits) | K::OptU(bits) => {
            let max = (1u64 << bits) - 1;
            v.n = match g.below(4) {
                0 => g.below(20),
                1 => g.below(70_000),
                2 => max,
                _ => g.bits(),
            }
            .min(max);
            v.toml = v.n.to_string();
            v.env = v.toml.clone();
        }
        K::Bool => {
            v.b = g.bool();
            v.toml = v.b.to_string();
            v.env = v.toml.clone();
        }
        K::Str | K::OptStr => {
            v.s = word(g);
            v.toml = toml::Value::String(v.s.clone()).to_string();
            v.env = v.s.clone();
        }
        K::Strs => {
            v.v = g.vec(0, 3, |g| format!("127.0.0.{}:{}", g.below(256), g.below(65536)));
            v.toml = toml::Value::Array(v.v.iter().map(|s| toml::Value::String(s.clone())).collect()).to_string();
            v.env = format!("[{}]", v.v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "));
        }
    }
    v
}

struct Env(Vec<String>);
impl Env {
    fn set(&mut self, k: String, v: &str) {
        std::env::set_var(&k, v);
        self.0.push(k);
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        for k in &self.0 {
            std::env::remove_var(k);
        }
    }
}

fn layered<C>(g: &mut G, fields: Vec<F<C>>, prefix: &str, load: impl Fn(Option<&std::path::Path>) -> Result<C, String>, default: C) -> R {
    let p_file = 1 + g.below(6);
    let p_env = 1 + g.below(10);
    let mut sections: std::collections::BTreeMap<&str, Vec<String>> = Default::default();
    let mut env = Env(vec![]);
    let mut want = Vec::new();
    let (mut both, mut neither, mut changed) = (false, false, 0);
    let mut desc = Vec::new();
    let shuffle = g.bool();
    for f in &fields {
        let in_file = g.below(p_file) == p_file - 1 && g.bool();
        let in_env = g.below(p_env) == p_env - 1 && g.chance(1, 3);
        let (sec, name) = f.key.split_once('.').unwrap();
        let mut w = (f.get)(&default);
        if in_file {
            let v = value(g, f.kind);
            w = canon(f.kind, &v);
            sections.entry(sec).or_default().push(format!("{name} = {}", v.toml));
            desc.push(format!("file {} = {}", f.key, v.toml));
            changed += 1;
        }
        if in_env {
            let v = value(g, f.kind);
            w = canon(f.kind, &v);
            let k = format!("{prefix}{}", f.key.replace('.', "_").to_uppercase());
            desc.push(format!("env {k}={}", v.env));
            env.set(k, &v.env);
            changed += 1;
        }
        both |= in_file && in_env;
        neither |= !in_file && !in_env;
        want.push(w);
    }
    let mut text = String::from("# generated\n");
    let mut secs: Vec<_> = sections.into_iter().collect();
    if shuffle {
        secs.reverse();
    }
    for (s, mut lines) in secs {
        if shuffle {
            lines.reverse();
        }
        text.push_str(&format!("[{s}]\n{}\n", lines.join("\n")));
    }
    g.note(|| desc.join("\n"));
    let path = g.scratch().join("c.toml");
    let with_file = changed > 0 || g.bool();
    if with_file {
        std::fs::write(&path, &text).unwrap();
    }
    let c = load(with_file.then_some(path.as_path())).map_err(|e| format!("loading failed: {e}"))?;
    for (f, w) in fields.iter().zip(&want) {
        ensure_eq!(&(f.get)(&c), w, "{}", f.key);
    }
    if both && neither {
        g.nontrivial();
    }
    if changed > 10 {
        g.label("more than 10 keys set");
    }
    Ok(())
}

fn file_env(g: &mut G) -> R {
    layered(g, tskv_fields(), "CNOSDB_", |p| Config::new(p).map_err(|e| e.to_string()), Config::default())
}

fn meta_opt(g: &mut G) -> R {
    layered(g, opt_fields(), "CNOSDB_META_", |p| config::meta::Opt::new(p).map_err(|e| e.to_string()), config::meta::Opt::default())
}

fn print_read(g: &mut G) -> R {
    let mut c = Config::default();
    let fs = tskv_fields();
    let mut n = 0;
    let p = 1 + g.below(8);
    for f in &fs {
        if g.below(p) == p - 1 {
            let mut v = value(g, f.kind);
            if f.kind == K::Bytes && g.bool() {
                v.n = g.u64_any() >> 1;
            }
            if f.kind == K::Dur && g.bool() {
                v.d = Duration::new(g.below(1 << 33), g.below(1_000_000_000) as u32);
            }
            if matches!(f.kind, K::Str | K::OptStr) {
                v.s = g.text(12);
            }
            (f.set)(&mut c, &v);
            n += 1;
            g.note(|| format!("{} = {}", f.key, canon(f.kind, &v)));
        }
    }
    if g.chance(1, 4) {
        c.security.tls_config = Some(config::tskv::TLSConfig { certificate: g.text(8), private_key: g.text(8) });
    }
    let text = c.to_string_pretty();
    let path = g.scratch().join("c.toml");
    std::fs::write(&path, &text).unwrap();
    let r = Config::new(Some(&path)).map_err(|e| format!("what was printed cannot be read: {e}\n{text}"))?;
    for f in &fs {
        // None cannot be written down: the key is left out and reads as the default
        let w = (f.get)(&c);
        if w == "None" {
            continue;
        }
        ensure_eq!((f.get)(&r), w, "{}", f.key);
    }
    ensure!(r.security == c.security, "security section: {:?} vs {:?}", r.security, c.security);
    if n >= 3 {
        g.nontrivial();
    }
    Ok(())
}

fn sizes(g: &mut G) -> R {
    if g.bool() {
        let (n, t) = bytes_text(g);
        g.show("size", &t);
        ensure_eq!(CnosByteNumber::parse_bytes(&t).map_err(|e| e.to_string()), Ok(n), "parse_bytes({t:?})");
        ensure_eq!(CnosByteNumber::new(&t.replace('_', "")).map(|b| b.as_bytes()).is_some(), true, "CnosByteNumber::new({t:?})");
    }
    let n = g.u64_any();
    let s = CnosByteNumber::format_bytes(n);
    g.show("format", &(n, &s));
    if s.contains('.') {
        g.nontrivial();
    }
    match CnosByteNumber::parse_bytes(&s) {
        Ok(m) => ensure_eq!(m, n, "parse(format({n}) = {s:?})"),
        Err(e) => fail!("format_bytes({n}) = {s:?} cannot be parsed: {e}"),
    }
    Ok(())
}

fn reject(g: &mut G) -> R {
    g.nontrivial();
    let fs = tskv_fields();
    let f = g.pick(&fs);
    let bad = match f.kind {
        K::Bytes => g.pick(&["\"12Q\"", "\"-5\"", "\"\"", "\"KiB\"", "true", "[]", "\"1 2 3\"", "\"99999999999999GiB\""]).to_string(),
        K::Dur => g.pick(&["\"12\"", "\"-5s\"", "\"\"", "\"5 parsecs\"", "true", "[]", "\"s\""]).to_string(),
        K::U(b) | K::OptU(b) => match g.below(4) {
            0 => "-1".into(),
            1 => "\"x\"".into(),
            2 => "[1]".into(),
            _ => {
                if b < 63 {
                    (1u64 << b).to_string()
                } else {
                    "\"many\"".into()
                }
            }
        },
        K::Bool => g.pick(&["\"maybe\"", "[]", "{}"]).to_string(),
        K::Str | K::OptStr => g.pick(&["[]", "{}", "[\"a\"]"]).to_string(),
        K::Strs => g.pick(&["\"127.0.0.1:1\"", "{}", "[{}]"]).to_string(),
    };
    let (sec, name) = f.key.split_once('.').unwrap();
    let text = format!("[{sec}]\n{name} = {bad}\n");
    g.show("file", &text);
    let path = g.scratch().join("c.toml");
    std::fs::write(&path, &text).unwrap();
    match Config::new(Some(&path)) {
        Err(_) => Ok(()),
        Ok(c) => fail!("{text:?} was accepted as {}", (f.get)(&c)),
    }
}

/// stdout of `f`
fn captured(dir: &std::path::Path, f: impl FnOnce()) -> String {
    std::io::stdout().flush().unwrap();
    let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join("out")).unwrap();
    unsafe {
        let saved = libc::dup(1);
        libc::dup2(file.as_raw_fd(), 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        std::io::stdout().flush().unwrap();
        libc::dup2(saved, 1);
        libc::close(saved);
        if let Err(p) = r {
            std::panic::resume_unwind(p);
        }
    }
    let mut s = String::new();
    file.rewind().unwrap();
    file.read_to_string(&mut s).unwrap();
    s
}

fn check_report(g: &mut G) -> R {
    let mut c = Config::default();
    c.global.host = "127.0.0.1".into();
    c.deployment.cpu = 4;
    c.deployment.memory = 16;
    c.cache.partition = 8;
    let (mut err, mut warn): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let p = 2 + g.below(12);
    let mut flip = |g: &mut G| g.below(p) == p - 1;
    macro_rules! bad {
        ($list:ident, $what:expr, $e:expr) => {
            if flip(g) {
                $e;
                $list.push($what.to_string());
            }
        };
    }
    bad!(warn, "global.name", c.global.cluster_name.clear());
    bad!(err, "deployment.mode", c.deployment.mode = g.pick(&["", "cluster", "Singleton", "query-tskv"]).to_string());
    if !err.iter().any(|e| e == "deployment.mode") {
        c.deployment.mode = g.pick(&["query_tskv", "tskv", "query", "singleton"]).to_string();
    }
    bad!(warn, "deployment.cpu", c.deployment.cpu = 0);
    bad!(warn, "deployment.memory", c.deployment.memory = 0);
    bad!(err, "meta.127.0.0.1", c.meta.service_addr.push("127.0.0.1".into()));
    bad!(err, "meta.heartbeat", c.meta.report_time_interval = Duration::ZERO);
    bad!(warn, "query.max_server_connections", c.query.max_server_connections = g.below(16) as u32);
    bad!(warn, "query.query_sql_limit", c.query.query_sql_limit = g.below(64));
    bad!(warn, "query.write_sql_limit", c.query.write_sql_limit = g.below(64));
    bad!(warn, "query.read_timeout", c.query.read_timeout = Duration::from_millis(g.below(10)));
    bad!(warn, "query.write_timeout", c.query.write_timeout = Duration::from_millis(g.below(10)));
    bad!(warn, "query.stream_executor_cpu", c.query.stream_executor_cpu = 1025 + g.below(9) as usize);
    bad!(warn, "query.stream_trigger_cpu", c.query.stream_trigger_cpu = 1025 + g.below(9) as usize);
    bad!(warn, "query.sql_record_timeout", c.query.sql_record_timeout = Duration::from_millis(g.below(1000)));
    bad!(err, "storage.path", c.storage.path.clear());
    bad!(warn, "storage.max_summary_size", c.storage.max_summary_size = g.below(1024));
    bad!(warn, "storage.base_file_size", c.storage.base_file_size = g.below(1 << 20));
    bad!(warn, "storage.flush_req_channel_cap", c.storage.flush_req_channel_cap = g.below(16) as usize);
    bad!(warn, "storage.max_level", c.storage.max_level = g.below(4) as u16);
    bad!(warn, "storage.compact_trigger_cold_duration", c.storage.compact_trigger_cold_duration = Duration::from_millis(g.below(1000)));
    bad!(warn, "storage.max_compact_size", c.storage.max_compact_size = g.below(1 << 20));
    bad!(err, "storage.compress_tsm_meta_algo", c.storage.tsm_meta_compress = g.pick(&["", "gzip", "ZSTD", "none"]).to_string());
    if !err.iter().any(|e| e == "storage.compress_tsm_meta_algo") {
        c.storage.tsm_meta_compress = g.pick(&["zstd", "snappy", "null"]).to_string();
    }
    bad!(err, "wal.path", c.wal.path.clear());
    bad!(warn, "wal.wal_req_channel_cap", c.wal.wal_req_channel_cap = g.below(16) as usize);
    bad!(err, "wal.compress", c.wal.compress = g.pick(&["", "lz4", "null"]).to_string());
    if !err.iter().any(|e| e == "wal.compress") {
        c.wal.compress = g.pick(&["zstd", "snappy", "gzip", "bzip", "zlib"]).to_string();
    }
    bad!(warn, "cache.max_buffer_size", c.cache.max_buffer_size = g.below(1 << 20));
    bad!(warn, "cache.partition", c.cache.partition = 1025 + g.below(9) as usize);
    bad!(warn, "log.path", c.log.path.clear());
    if g.bool() {
        c.security.tls_config = Some(Default::default());
        bad!(err, "security.tls.certificate", c.security.tls_config.as_mut().unwrap().certificate.clear());
        bad!(err, "security.tls.private_key", c.security.tls_config.as_mut().unwrap().private_key.clear());
    }
    if flip(g) {
        c.global.host = "not an address".into();
        for p in [c.service.http_listen_port, c.service.grpc_listen_port, c.service.flight_rpc_listen_port, c.service.tcp_listen_port].into_iter().flatten() {
            err.push(format!("service.not an address:{p}"));
        }
    }
    let show = g.bool();
    g.show("errors, warnings, show_warnings", &(&err, &warn, show));
    let dir = g.scratch();
    let path = dir.join("c.toml");
    std::fs::write(&path, c.to_string_pretty()).unwrap();
    let out = captured(&dir, || config::tskv::check_config(&path, show));
    let grab = |kind: &str| -> Vec<String> {
        let mut v: Vec<String> = out
            .lines()
            .filter_map(|l| l.strip_prefix(&format!("{kind} in entry '")).and_then(|l| l.strip_suffix("':")).map(|s| s.to_string()))
            .collect();
        v.sort();
        v
    };
    err.sort();
    warn.sort();
    ensure_eq!(grab("Error"), err, "errors reported\n{out}");
    ensure_eq!(grab("Warn"), if show { warn.clone() } else { vec![] }, "warnings reported\n{out}");
    ensure_eq!(out.contains("There are no errors"), err.is_empty(), "'There are no errors' in\n{out}");
    if !err.is_empty() && err.len() < 6 {
        g.nontrivial();
    }
    Ok(())
}
