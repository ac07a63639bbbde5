//! Columns: one generator and one model for every physical type.
use std::sync::Arc;

use arrow_array::*;
use arrow_schema::TimeUnit;
use models::codec::Encoding;
use models::field_value::FieldVal;
use models::schema::tskv_table_schema::{ColumnType, TableColumn};
use models::ValueType;
use pbt::G;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Time(u8),
    I,
    U,
    F,
    B,
    S,
}

/// A value; floats by their bits so that equality is exact.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    I(i64),
    U(u64),
    F(u64),
    B(bool),
    S(String),
}

pub type Col = Vec<Option<V>>;

pub const FIELDS: [Ty; 5] = [Ty::I, Ty::U, Ty::F, Ty::B, Ty::S];

pub fn unit(u: u8) -> TimeUnit {
    match u {
        0 => TimeUnit::Nanosecond,
        1 => TimeUnit::Microsecond,
        2 => TimeUnit::Millisecond,
        _ => TimeUnit::Second,
    }
}

pub fn column_type(t: Ty) -> ColumnType {
    match t {
        Ty::Time(u) => ColumnType::Time(unit(u)),
        Ty::I => ColumnType::Field(ValueType::Integer),
        Ty::U => ColumnType::Field(ValueType::Unsigned),
        Ty::F => ColumnType::Field(ValueType::Float),
        Ty::B => ColumnType::Field(ValueType::Boolean),
        Ty::S => ColumnType::Field(ValueType::String),
    }
}

pub fn encodings(t: Ty) -> &'static [Encoding] {
    match t {
        Ty::Time(_) => &models::codec::TIMESTAMP_CODEC,
        Ty::I => &models::codec::BIGINT_CODEC,
        Ty::U => &models::codec::UNSIGNED_BIGINT_CODEC,
        Ty::F => &models::codec::DOUBLE_CODEC,
        Ty::B => &models::codec::BOOLEAN_CODEC,
        Ty::S => &models::codec::STRING_CODEC,
    }
}

pub fn column(id: u32, name: &str, t: Ty, e: Encoding) -> TableColumn {
    TableColumn::new(id, name.to_string(), column_type(t), e)
}

fn text(g: &mut G) -> String {
    match g.below(5) {
        0 => String::new(),
        1 => g.text(6),
        2 => {
            let n = g.few(40) as usize;
            "ab".repeat(n)
        }
        3 => g.ident(3),
        _ => g.pick(&["a", "aa", "b", "\0", "é", "日本"]).to_string(),
    }
}

/// Not the one NaN the Gorilla code keeps for itself.
fn float(g: &mut G, prev: Option<u64>) -> f64 {
    let v = match g.below(7) {
        0 => 0.0,
        1 => g.range(-100, 100) as f64,
        2 => g.range(-10_000, 10_000) as f64 / 100.0,
        3 => f64::from_bits(prev.unwrap_or(0)),
        4 => f64::from_bits(prev.unwrap_or(0) ^ (1u64 << g.below(64))),
        5 => f64::from_bits(g.bits()),
        _ => g.f64_any(true),
    };
    if v.to_bits() == 0x7ff8_0000_0000_00ff {
        1.0
    } else {
        v
    }
}

pub fn value(g: &mut G, t: Ty) -> V {
    match t {
        Ty::Time(_) | Ty::I => V::I(if g.chance(2, 3) { g.range(-20, 20) } else { g.i64_any() }),
        Ty::U => V::U(if g.chance(2, 3) { g.below(40) } else { g.u64_any() }),
        Ty::F => V::F(float(g, None).to_bits()),
        Ty::B => V::B(g.bool()),
        Ty::S => V::S(text(g)),
    }
}

/// Non-null values of one type in the shapes the codecs treat differently.
pub fn values(g: &mut G, t: Ty, n: usize) -> Vec<V> {
    let mut out = Vec::with_capacity(n);
    match t {
        Ty::Time(_) | Ty::I | Ty::U => {
            let style = g.below(7);
            let mut x = if g.chance(1, 3) { g.i64_any() } else { g.range(0, 2_000_000) };
            let pow = 10i64.pow(g.below(14) as u32);
            let step = if g.bool() { g.range(0, 20) } else { g.range(-1000, 1_000_000) }.wrapping_mul(pow);
            for _ in 0..n {
                out.push(x);
                x = match style {
                    0 => x.wrapping_add(step),
                    1 => x.wrapping_add(g.range(0, 3)),
                    2 => x.wrapping_add(if g.chance(1, 20) { step } else { 1 }),
                    3 => x.wrapping_add(g.range(0, 1000).wrapping_mul(pow)),
                    4 => x.wrapping_add(1i64.wrapping_shl(g.below(64) as u32).wrapping_add(g.range(-1, 1))),
                    5 => g.i64_any(),
                    _ => g.range(-30, 30),
                };
            }
            return out.into_iter().map(|x| if t == Ty::U { V::U(x as u64) } else { V::I(x) }).collect();
        }
        _ => {}
    }
    let same = g.chance(1, 6);
    let mut prev = None;
    let mut vs: Vec<V> = Vec::with_capacity(n);
    for i in 0..n {
        let v = match t {
            _ if same && i > 0 => vs[0].clone(),
            Ty::F => V::F(float(g, prev).to_bits()),
            _ => value(g, t),
        };
        if let V::F(b) = v {
            prev = Some(b);
        }
        vs.push(v);
    }
    vs
}

/// Puts nulls between values: a column of any length.
pub fn with_nulls(g: &mut G, vals: Vec<V>) -> Col {
    let style = g.below(4);
    let mut out = Vec::new();
    for v in vals {
        match style {
            0 => {}
            1 if g.chance(1, 8) => out.push(None),
            2 if g.bool() => out.push(None),
            3 => {
                while g.chance(2, 3) {
                    out.push(None)
                }
            }
            _ => {}
        }
        out.push(Some(v));
    }
    if style > 0 {
        for _ in 0..g.below(10) {
            out.push(None);
        }
    }
    out
}

fn i64s(c: &Col) -> Vec<Option<i64>> {
    c.iter().map(|v| v.as_ref().map(|v| if let V::I(x) = v { *x } else { unreachable!() })).collect()
}

pub fn to_arrow(t: Ty, c: &Col) -> ArrayRef {
    match t {
        Ty::Time(0) => Arc::new(TimestampNanosecondArray::from(i64s(c))),
        Ty::Time(1) => Arc::new(TimestampMicrosecondArray::from(i64s(c))),
        Ty::Time(2) => Arc::new(TimestampMillisecondArray::from(i64s(c))),
        Ty::Time(_) => Arc::new(TimestampSecondArray::from(i64s(c))),
        Ty::I => Arc::new(Int64Array::from(i64s(c))),
        Ty::U => Arc::new(UInt64Array::from_iter(c.iter().map(|v| v.as_ref().map(|v| if let V::U(x) = v { *x } else { unreachable!() })))),
        Ty::F => Arc::new(Float64Array::from_iter(c.iter().map(|v| v.as_ref().map(|v| if let V::F(x) = v { f64::from_bits(*x) } else { unreachable!() })))),
        Ty::B => Arc::new(BooleanArray::from_iter(c.iter().map(|v| v.as_ref().map(|v| if let V::B(x) = v { *x } else { unreachable!() })))),
        Ty::S => Arc::new(StringArray::from_iter(c.iter().map(|v| v.as_ref().map(|v| if let V::S(x) = v { x.clone() } else { unreachable!() })))),
    }
}

/// What an array holds, or a description of why it cannot be that.
pub fn from_arrow(a: &ArrayRef) -> Result<Col, String> {
    use arrow_schema::DataType as D;
    macro_rules! prim {
        ($t:ty, $f:expr) => {{
            let a = a.as_any().downcast_ref::<$t>().ok_or("array of another type")?;
            Ok(a.iter().map(|v| v.map($f)).collect())
        }};
    }
    match a.data_type() {
        D::Int64 => prim!(Int64Array, V::I),
        D::Timestamp(TimeUnit::Nanosecond, _) => prim!(TimestampNanosecondArray, V::I),
        D::Timestamp(TimeUnit::Microsecond, _) => prim!(TimestampMicrosecondArray, V::I),
        D::Timestamp(TimeUnit::Millisecond, _) => prim!(TimestampMillisecondArray, V::I),
        D::Timestamp(TimeUnit::Second, _) => prim!(TimestampSecondArray, V::I),
        D::UInt64 => prim!(UInt64Array, V::U),
        D::Float64 => prim!(Float64Array, |x: f64| V::F(x.to_bits())),
        D::Boolean => prim!(BooleanArray, V::B),
        D::Utf8 => prim!(StringArray, |s: &str| V::S(s.to_string())),
        d => Err(format!("unexpected type {d}")),
    }
}

pub fn field_val(v: &V) -> FieldVal {
    match v {
        V::I(x) => FieldVal::Integer(*x),
        V::U(x) => FieldVal::Unsigned(*x),
        V::F(x) => FieldVal::Float(f64::from_bits(*x)),
        V::B(x) => FieldVal::Boolean(*x),
        V::S(x) => FieldVal::Bytes(minivec::MiniVec::from(x.as_bytes())),
    }
}

pub fn from_field_val(v: &FieldVal) -> V {
    match v {
        FieldVal::Integer(x) => V::I(*x),
        FieldVal::Unsigned(x) => V::U(*x),
        FieldVal::Float(x) => V::F(x.to_bits()),
        FieldVal::Boolean(x) => V::B(*x),
        FieldVal::Bytes(x) => V::S(String::from_utf8_lossy(x.as_slice()).into_owned()),
    }
}
