//! The derives of error codes and configuration keys, on generated types
//! (gen_derive.py writes them and what is expected of them).
#![allow(dead_code, clippy::all)]
use derive_traits::error_code::{ErrorCode, UnknownCodeWithMessage};
use derive_traits::FieldKeys;
use pbt::{ensure, ensure_eq, Check, Sub, G, R};

pub struct Err1 {
    pub name: &'static str,
    pub code: &'static str,
    pub make: fn(u64, &str) -> Box<dyn ErrorCode>,
    pub message: fn(u64, &str) -> String,
    pub method: Option<fn() -> &'static str>,
    /// tuple, named or unit
    pub shape: &'static str,
}

pub struct Keys1 {
    pub name: &'static str,
    pub keys: fn() -> Vec<String>,
    pub want: &'static [&'static str],
    pub depth: u32,
}

mod gen {
    use super::{Err1, Keys1};
    use derive_traits::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../gen/derive_gen.rs"));
}

fn main() {
    pbt::main(vec![Check {
        property: "C40",
        level: "exploration",
        assumptions: &["types are generated from the seed before the harness is compiled; each is then exercised with random values"],
        subs: vec![
            Sub { name: "codes", rule: "generated error enums (unit, tuple, named variants; with and without codes and module codes): code, message, per-variant code function, through &dyn and source_error_code, with random field values; non-trivial: a variant with fields and a code", quick: 40_000, thorough: 400_000, serial: false, f: codes },
            Sub { name: "unique", rule: "within one enum the codes given differ and have 6 characters, the module code first; non-trivial: always", quick: 2_000, thorough: 20_000, serial: false, f: unique },
            Sub { name: "keys", rule: "generated nested structs (Option, Vec, primitives): field_keys in order vs the expected list; non-trivial: nesting of depth ≥ 2", quick: 10_000, thorough: 50_000, serial: false, f: keys },
        ],
    }])
}

fn codes(g: &mut G) -> R {
    let e = g.pick(gen::ERRORS);
    let n = g.u64_any();
    let s = g.text(10);
    g.show("error", &(e.name, n, &s));
    let err = (e.make)(n, &s);
    let want = (e.message)(n, &s);
    if e.shape != "unit" && e.method.is_some() {
        g.nontrivial();
    }
    ensure_eq!(err.code(), e.code, "code of {}", e.name);
    ensure_eq!(err.message(), want, "message of {}", e.name);
    ensure_eq!(err.to_string(), want, "display of {}", e.name);
    if let Some(m) = e.method {
        ensure_eq!(m(), e.code, "code function of {}", e.name);
    }
    let u = UnknownCodeWithMessage(s.clone());
    ensure_eq!(u.message(), s, "message of an unknown error");
    ensure_eq!(u.code(), "000000", "code of an unknown error");
    ensure_eq!(u.source_error_code().code(), u.code(), "source_error_code");
    Ok(())
}

fn unique(g: &mut G) -> R {
    g.nontrivial();
    let e = g.pick(gen::ERRORS);
    g.show("error", &e.name);
    let en = e.name.split("::").next().unwrap();
    let mut seen = std::collections::HashMap::new();
    for x in gen::ERRORS.iter().filter(|x| x.name.split("::").next() == Some(en)) {
        let err = (x.make)(1, "x");
        let c = err.code();
        ensure_eq!(c.len(), e.code.len(), "length of the code of {}", x.name);
        ensure_eq!(&c[..2], &e.code[..2], "module code of {}", x.name);
        if x.method.is_some() {
            if let Some(y) = seen.insert(c, x.name) {
                ensure!(false, "{} and {y} have the code {c}", x.name);
            }
        }
    }
    Ok(())
}

fn keys(g: &mut G) -> R {
    let k = g.pick(gen::KEYS);
    g.show("struct", &k.name);
    if k.depth >= 2 {
        g.nontrivial();
    }
    let got = (k.keys)();
    let want: Vec<String> = k.want.iter().map(|s| s.to_string()).collect();
    ensure_eq!(got, want, "keys of {}", k.name);
    let prim = match g.below(6) {
        0 => <u64 as FieldKeys>::field_keys(),
        1 => <Option<String> as FieldKeys>::field_keys(),
        2 => <Vec<f32> as FieldKeys>::field_keys(),
        3 => <std::time::Duration as FieldKeys>::field_keys(),
        4 => <bool as FieldKeys>::field_keys(),
        _ => <Vec<Option<char>> as FieldKeys>::field_keys(),
    };
    ensure!(prim.is_empty(), "keys of a primitive");
    Ok(())
}
