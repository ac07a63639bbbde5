//! C02: column codecs and pages.
use arrow_array::Array;
use arrow_buffer::NullBuffer;
use models::codec::Encoding;
use pbt::{ensure, ensure_eq, fail, Check, Fail, Sub, G, R};
use tskv::tsm::codec::*;
use tskv::tsm::mutable_column::MutableColumn;
use tskv::tsm::mutable_column_ref::MutableColumnRef;
use tskv::tsm::page::Page;

use crate::cols::*;

pub fn check() -> Check {
    Check {
        property: "C02",
        level: "exploration",
        assumptions: &["pco and bzip2 are stand-ins: what is checked is cnosdb's framing around them", "the one NaN the Gorilla code reserves as its end mark is not generated"],
        subs: vec![
            Sub { name: "codec", rule: "values of a random type in shapes the codecs treat differently, with random nulls, encoded with every encoding of the type, decode to the same array bit for bit; the encoding byte says which; non-trivial: nulls and at least 3 values", quick: 1_000_000, thorough: 10_000_000, serial: false, f: codec },
            Sub { name: "page", rule: "an arrow array (whole or a slice of a larger one) becomes a page whose array, row count, null count, least and greatest value (a bound, for texts and booleans) are those of the array; a flipped data bit fails the checksum; non-trivial: a slice with nulls", quick: 500_000, thorough: 5_000_000, serial: false, f: page },
            Sub { name: "column", rule: "rows pushed into the write-side columns (owned and borrowed) become pages that decode to exactly the rows pushed, with their least and greatest value; non-trivial: nulls in between", quick: 500_000, thorough: 5_000_000, serial: false, f: column_page },
        ],
    }
}

fn any_ty(g: &mut G) -> Ty {
    match g.below(6) {
        0 => Ty::Time(g.below(4) as u8),
        i => FIELDS[i as usize - 1],
    }
}

fn len(g: &mut G) -> usize {
    match g.below(8) {
        0 => g.usize(0, 3),
        7 => *g.pick(&[119, 120, 121, 239, 240, 241, 250, 480, 600]),
        _ => g.few(16) as usize,
    }
}

fn nonnull(c: &Col) -> Vec<&V> {
    c.iter().flatten().collect()
}

fn err<E: std::fmt::Debug>(what: &str) -> impl FnOnce(E) -> Fail + '_ {
    move |e| Fail::new(format!("{what}: {e:?}"))
}

pub fn codec(g: &mut G) -> R {
    let t = any_ty(g);
    let n = len(g);
    let vals = values(g, t, n);
    let col = with_nulls(g, vals);
    let enc = *g.pick(encodings(t));
    g.show("type", &(t, enc));
    g.show("column", &col);
    let nulls = NullBuffer::from_iter(col.iter().map(|v| v.is_some()));
    let mut buf = Vec::new();
    let nn = nonnull(&col);
    macro_rules! run {
        ($get:ident, $pat:path, $map:expr) => {{
            let src: Vec<_> = nn.iter().map(|v| if let $pat(x) = v { ($map)(x) } else { unreachable!() }).collect();
            $get(enc).encode(&src, &mut buf).map_err(err("encode"))?;
            $get(if buf.is_empty() { enc } else { get_encoding(&buf) }).decode_to_array(&buf, &nulls).map_err(err("decode"))?
        }};
    }
    let array = match t {
        Ty::Time(_) => run!(get_ts_codec, V::I, |x: &i64| *x),
        Ty::I => run!(get_i64_codec, V::I, |x: &i64| *x),
        Ty::U => run!(get_u64_codec, V::U, |x: &u64| *x),
        Ty::F => run!(get_f64_codec, V::F, |x: &u64| f64::from_bits(*x)),
        Ty::B => run!(get_bool_codec, V::B, |x: &bool| *x),
        Ty::S => {
            let src: Vec<&[u8]> = nn.iter().map(|v| if let V::S(x) = v { x.as_bytes() } else { unreachable!() }).collect();
            get_str_codec(enc).encode(&src, &mut buf).map_err(err("encode"))?;
            let c = get_str_codec(if buf.is_empty() { enc } else { get_encoding(&buf) });
            let mut plain = Vec::new();
            c.decode(&buf, &mut plain).map_err(err("decode"))?;
            ensure_eq!(plain.iter().map(|s| s.as_slice().to_vec()).collect::<Vec<_>>(), src.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), "strings decoded one by one");
            c.decode_to_array(&buf, &nulls).map_err(err("decode"))?
        }
    };
    if !buf.is_empty() {
        let e = get_encoding(&buf);
        ensure!(e != Encoding::Unknown && e != Encoding::Default, "encoding byte says {e:?}");
        if enc != Encoding::Default && !(t == Ty::U && enc == Encoding::DeltaTs) {
            ensure_eq!(e, enc, "encoding byte");
        }
    }
    let got = from_arrow(&array).map_err(Fail::new)?;
    let at = (0..col.len().max(got.len())).find(|i| col.get(*i) != got.get(*i));
    if let Some(i) = at {
        fail!("row {i} of {} (decoded {}): got {:?}, expected {:?}", col.len(), got.len(), got.get(i), col.get(i));
    }
    if nn.len() >= 3 && nn.len() < col.len() {
        g.nontrivial();
    }
    Ok(())
}

/// Least and greatest as the statistics order them (floats by value).
fn min_max(c: &Col) -> Option<(V, V)> {
    let nn = nonnull(c);
    if nn.is_empty() || nn.iter().any(|v| matches!(v, V::F(b) if f64::from_bits(*b).is_nan())) {
        return None;
    }
    let key = |v: &V| match v {
        V::F(b) => {
            let f = f64::from_bits(*b);
            let f = if f == 0.0 { 0.0 } else { f };
            let i = f.to_bits() as i64;
            (if i < 0 { i ^ i64::MAX } else { i }, None)
        }
        _ => (0, Some(v.clone())),
    };
    let min = nn.iter().min_by_key(|v| key(v)).unwrap();
    let max = nn.iter().max_by_key(|v| key(v)).unwrap();
    Some(((*min).clone(), (*max).clone()))
}

fn close(a: &serde_json::Value, v: &V) -> bool {
    match v {
        V::I(x) => a.as_i64() == Some(*x),
        V::U(x) => a.as_u64() == Some(*x),
        V::F(x) => {
            let f = f64::from_bits(*x);
            f.is_infinite() && a.is_null() || a.as_f64().is_some_and(|y| y == f || (y - f).abs() <= f.abs() * 1e-15)
        }
        V::B(x) => a.as_bool() == Some(*x),
        V::S(x) => a.as_array().is_some_and(|s| s.iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<_>>() == x.as_bytes()),
    }
}

fn check_page(g: &mut G, p: &Page, col: &Col, t: Ty, stats: bool, nulls: bool) -> R {
    p.crc_validation().map_err(err("checksum of a fresh page"))?;
    let a = p.to_arrow_array().map_err(err("page to array"))?;
    ensure_eq!(a.len(), col.len(), "rows of the page");
    let got = from_arrow(&a).map_err(Fail::new)?;
    if let Some(i) = (0..col.len()).find(|i| col[*i] != got[*i]) {
        fail!("row {i} of {}: got {:?}, expected {:?}", col.len(), got[i], col[i]);
    }
    ensure_eq!(a.data_type().clone(), to_arrow(t, &vec![]).data_type().clone(), "type of the page's array");
    let m = serde_json::to_value(p.meta()).map_err(err("meta"))?;
    ensure_eq!(m["num_values"].as_u64(), Some(col.len() as u64), "row count in the meta data");
    let s = &m["statistics"];
    let s = s.as_object().and_then(|o| o.values().next()).cloned().unwrap_or_default();
    if nulls {
        ensure_eq!(s["null_count"].as_u64(), Some(col.iter().filter(|v| v.is_none()).count() as u64), "null count in {s}");
    }
    if let (true, Some((min, max))) = (stats, min_max(col)) {
        let ok = |a: &serde_json::Value, v: &V, least: bool| match v {
            // for these the write path keeps a bound, not the value itself
            V::B(x) => a.as_bool().is_some_and(|y| if least { y <= *x } else { y >= *x }),
            V::S(x) => a.as_array().is_some_and(|y| {
                let y = y.iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<_>>();
                if least { y.as_slice() <= x.as_bytes() } else { y.as_slice() >= x.as_bytes() }
            }),
            _ => close(a, v),
        };
        ensure!(ok(&s["min"], &min, true), "least value: {} for {min:?}", s["min"]);
        ensure!(ok(&s["max"], &max, false), "greatest value: {} for {max:?}", s["max"]);
    }
    // damage
    let data = p.data_buffer().len();
    if data > 0 {
        let mut b = p.bytes().to_vec();
        let at = b.len() - data + g.below(data as u64) as usize;
        b[at] ^= 1 << g.below(8);
        ensure!(Page::new(b.into(), p.meta().clone()).crc_validation().is_err(), "a flipped bit at byte {at} passes the checksum");
    }
    Ok(())
}

fn page(g: &mut G) -> R {
    let t = any_ty(g);
    let n = len(g);
    let vals = values(g, t, n);
    let col = with_nulls(g, vals);
    let enc = *g.pick(encodings(t));
    let mut a = to_arrow(t, &col);
    let mut col = col;
    let mut sliced = false;
    if g.bool() && !col.is_empty() {
        let o = g.below(col.len() as u64) as usize;
        let l = g.below((col.len() - o) as u64 + 1) as usize;
        a = a.slice(o, l);
        col = col[o..o + l].to_vec();
        sliced = o % 8 != 0;
    }
    g.show("type", &(t, enc));
    g.show("column", &col);
    g.show("slice", &sliced);
    if sliced && col.iter().any(|v| v.is_none()) && col.iter().any(|v| v.is_some()) {
        g.nontrivial();
    }
    let p = Page::arrow_array_to_page(a, column(1, "c", t, enc)).map_err(err("array to page"))?;
    check_page(g, &p, &col, t, t != Ty::B, true)
}

fn column_page(g: &mut G) -> R {
    let t = any_ty(g);
    let n = len(g);
    let vals = values(g, t, n);
    let col = if matches!(t, Ty::Time(_)) { vals.into_iter().map(Some).collect() } else { with_nulls(g, vals) };
    let enc = *g.pick(encodings(t));
    g.show("type", &(t, enc));
    g.show("column", &col);
    if col.iter().any(|v| v.is_none()) && nonnull(&col).len() > 1 {
        g.nontrivial();
    }
    let desc = column(1, "c", t, enc);
    let fv: Vec<_> = col.iter().map(|v| v.as_ref().map(field_val)).collect();
    if g.bool() {
        g.label("borrowed");
        let mut c = MutableColumnRef::empty(desc).map_err(err("column"))?;
        for v in &fv {
            match (t, v) {
                (Ty::Time(_), Some(models::field_value::FieldVal::Integer(x))) => c.push_ts(*x).map_err(err("push"))?,
                _ => c.push(v.as_ref()).map_err(err("push"))?,
            }
        }
        let p = Page::colref_to_page(c).map_err(err("column to page"))?;
        check_page(g, &p, &col, t, true, true)
    } else {
        g.label("owned");
        let mut c = MutableColumn::empty(desc).map_err(err("column"))?;
        for v in &fv {
            c.push(v.clone()).map_err(err("push"))?;
        }
        let p = Page::col_to_page(&c).map_err(err("column to page"))?;
        check_page(g, &p, &col, t, true, false)
    }
}
