//! Single values, with DataFusion 27's variants.
use crate::error::{DataFusionError, Result};
use arrow::array::*;
use arrow::datatypes::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone)]
pub enum ScalarValue {
    Null,
    Boolean(Option<bool>),
    Float32(Option<f32>),
    Float64(Option<f64>),
    Decimal128(Option<i128>, u8, i8),
    Int8(Option<i8>),
    Int16(Option<i16>),
    Int32(Option<i32>),
    Int64(Option<i64>),
    UInt8(Option<u8>),
    UInt16(Option<u16>),
    UInt32(Option<u32>),
    UInt64(Option<u64>),
    Utf8(Option<String>),
    LargeUtf8(Option<String>),
    Binary(Option<Vec<u8>>),
    FixedSizeBinary(i32, Option<Vec<u8>>),
    LargeBinary(Option<Vec<u8>>),
    List(Option<Vec<ScalarValue>>, FieldRef),
    Date32(Option<i32>),
    Date64(Option<i64>),
    Time32Second(Option<i32>),
    Time32Millisecond(Option<i32>),
    Time64Microsecond(Option<i64>),
    Time64Nanosecond(Option<i64>),
    TimestampSecond(Option<i64>, Option<Arc<str>>),
    TimestampMillisecond(Option<i64>, Option<Arc<str>>),
    TimestampMicrosecond(Option<i64>, Option<Arc<str>>),
    TimestampNanosecond(Option<i64>, Option<Arc<str>>),
    IntervalYearMonth(Option<i32>),
    IntervalDayTime(Option<i64>),
    IntervalMonthDayNano(Option<i128>),
    Struct(Option<Vec<ScalarValue>>, Fields),
    Dictionary(Box<DataType>, Box<ScalarValue>),
}

use ScalarValue::*;

impl ScalarValue {
    pub fn get_datatype(&self) -> DataType {
        match self {
            Null => DataType::Null,
            Boolean(_) => DataType::Boolean,
            Float32(_) => DataType::Float32,
            Float64(_) => DataType::Float64,
            Decimal128(_, p, s) => DataType::Decimal128(*p, *s),
            Int8(_) => DataType::Int8,
            Int16(_) => DataType::Int16,
            Int32(_) => DataType::Int32,
            Int64(_) => DataType::Int64,
            UInt8(_) => DataType::UInt8,
            UInt16(_) => DataType::UInt16,
            UInt32(_) => DataType::UInt32,
            UInt64(_) => DataType::UInt64,
            Utf8(_) => DataType::Utf8,
            LargeUtf8(_) => DataType::LargeUtf8,
            Binary(_) => DataType::Binary,
            FixedSizeBinary(n, _) => DataType::FixedSizeBinary(*n),
            LargeBinary(_) => DataType::LargeBinary,
            List(_, f) => DataType::List(f.clone()),
            Date32(_) => DataType::Date32,
            Date64(_) => DataType::Date64,
            Time32Second(_) => DataType::Time32(TimeUnit::Second),
            Time32Millisecond(_) => DataType::Time32(TimeUnit::Millisecond),
            Time64Microsecond(_) => DataType::Time64(TimeUnit::Microsecond),
            Time64Nanosecond(_) => DataType::Time64(TimeUnit::Nanosecond),
            TimestampSecond(_, z) => DataType::Timestamp(TimeUnit::Second, z.clone()),
            TimestampMillisecond(_, z) => DataType::Timestamp(TimeUnit::Millisecond, z.clone()),
            TimestampMicrosecond(_, z) => DataType::Timestamp(TimeUnit::Microsecond, z.clone()),
            TimestampNanosecond(_, z) => DataType::Timestamp(TimeUnit::Nanosecond, z.clone()),
            IntervalYearMonth(_) => DataType::Interval(IntervalUnit::YearMonth),
            IntervalDayTime(_) => DataType::Interval(IntervalUnit::DayTime),
            IntervalMonthDayNano(_) => DataType::Interval(IntervalUnit::MonthDayNano),
            Struct(_, f) => DataType::Struct(f.clone()),
            Dictionary(k, v) => DataType::Dictionary(k.clone(), Box::new(v.get_datatype())),
        }
    }
    pub fn is_null(&self) -> bool {
        match self {
            Null => true,
            Boolean(v) => v.is_none(),
            Float32(v) => v.is_none(),
            Float64(v) => v.is_none(),
            Decimal128(v, _, _) => v.is_none(),
            Int8(v) => v.is_none(),
            Int16(v) => v.is_none(),
            Int32(v) => v.is_none(),
            Int64(v) => v.is_none(),
            UInt8(v) => v.is_none(),
            UInt16(v) => v.is_none(),
            UInt32(v) => v.is_none(),
            UInt64(v) => v.is_none(),
            Utf8(v) | LargeUtf8(v) => v.is_none(),
            Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => v.is_none(),
            List(v, _) => v.is_none(),
            Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.is_none(),
            Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => v.is_none(),
            TimestampSecond(v, _)
            | TimestampMillisecond(v, _)
            | TimestampMicrosecond(v, _)
            | TimestampNanosecond(v, _) => v.is_none(),
            IntervalMonthDayNano(v) => v.is_none(),
            Struct(v, _) => v.is_none(),
            Dictionary(_, v) => v.is_null(),
        }
    }
    pub fn to_array(&self) -> ArrayRef {
        self.to_array_of_size(1)
    }
    pub fn to_array_of_size(&self, n: usize) -> ArrayRef {
        macro_rules! prim {
            ($A:ty, $v:expr) => {{
                let a: $A = std::iter::repeat(*$v).take(n).collect();
                Arc::new(a) as ArrayRef
            }};
        }
        macro_rules! ts {
            ($A:ty, $v:expr, $z:expr) => {{
                let a: $A = std::iter::repeat(*$v).take(n).collect();
                Arc::new(a.with_timezone_opt($z.clone())) as ArrayRef
            }};
        }
        match self {
            Null => new_null_array(&DataType::Null, n),
            Boolean(v) => prim!(BooleanArray, v),
            Float32(v) => prim!(Float32Array, v),
            Float64(v) => prim!(Float64Array, v),
            Decimal128(v, p, s) => {
                let a: Decimal128Array = std::iter::repeat(*v).take(n).collect();
                Arc::new(a.with_precision_and_scale(*p, *s).expect("decimal"))
            }
            Int8(v) => prim!(Int8Array, v),
            Int16(v) => prim!(Int16Array, v),
            Int32(v) => prim!(Int32Array, v),
            Int64(v) => prim!(Int64Array, v),
            UInt8(v) => prim!(UInt8Array, v),
            UInt16(v) => prim!(UInt16Array, v),
            UInt32(v) => prim!(UInt32Array, v),
            UInt64(v) => prim!(UInt64Array, v),
            Utf8(v) => Arc::new(std::iter::repeat(v.as_deref()).take(n).collect::<StringArray>()),
            LargeUtf8(v) => Arc::new(std::iter::repeat(v.as_deref()).take(n).collect::<LargeStringArray>()),
            Binary(v) => Arc::new(std::iter::repeat(v.as_deref()).take(n).collect::<BinaryArray>()),
            LargeBinary(v) => Arc::new(std::iter::repeat(v.as_deref()).take(n).collect::<LargeBinaryArray>()),
            Date32(v) => prim!(Date32Array, v),
            Date64(v) => prim!(Date64Array, v),
            Time32Second(v) => prim!(Time32SecondArray, v),
            Time32Millisecond(v) => prim!(Time32MillisecondArray, v),
            Time64Microsecond(v) => prim!(Time64MicrosecondArray, v),
            Time64Nanosecond(v) => prim!(Time64NanosecondArray, v),
            TimestampSecond(v, z) => ts!(TimestampSecondArray, v, z),
            TimestampMillisecond(v, z) => ts!(TimestampMillisecondArray, v, z),
            TimestampMicrosecond(v, z) => ts!(TimestampMicrosecondArray, v, z),
            TimestampNanosecond(v, z) => ts!(TimestampNanosecondArray, v, z),
            IntervalYearMonth(v) => prim!(IntervalYearMonthArray, v),
            IntervalDayTime(v) => prim!(IntervalDayTimeArray, v),
            IntervalMonthDayNano(v) => prim!(IntervalMonthDayNanoArray, v),
            FixedSizeBinary(..) | List(..) | Struct(..) | Dictionary(..) => {
                unimplemented!("datafusion stand-in: array of {:?}", self.get_datatype())
            }
        }
    }
    pub fn iter_to_array(values: impl IntoIterator<Item = ScalarValue>) -> Result<ArrayRef> {
        let v: Vec<ScalarValue> = values.into_iter().collect();
        let Some(first) = v.iter().find(|x| !matches!(x, Null)).or(v.first()) else {
            return Err(DataFusionError::Internal("Empty iterator passed to ScalarValue::iter_to_array".into()));
        };
        let dt = first.get_datatype();
        let mut arrays = Vec::with_capacity(v.len());
        for x in &v {
            if matches!(x, Null) {
                arrays.push(new_null_array(&dt, 1));
            } else if x.get_datatype() != dt {
                return Err(DataFusionError::Internal(format!(
                    "Inconsistent types in ScalarValue::iter_to_array. Expected {:?}, got {:?}",
                    dt, x
                )));
            } else {
                arrays.push(x.to_array());
            }
        }
        let refs: Vec<&dyn Array> = arrays.iter().map(|a| a.as_ref()).collect();
        Ok(arrow::compute::concat(&refs)?)
    }
    pub fn try_from_array(array: &dyn Array, i: usize) -> Result<Self> {
        if array.is_null(i) {
            return ScalarValue::try_from(array.data_type().clone());
        }
        macro_rules! get {
            ($A:ty) => {
                array.as_any().downcast_ref::<$A>().unwrap().value(i)
            };
        }
        Ok(match array.data_type() {
            DataType::Null => Null,
            DataType::Boolean => Boolean(Some(get!(BooleanArray))),
            DataType::Float32 => Float32(Some(get!(Float32Array))),
            DataType::Float64 => Float64(Some(get!(Float64Array))),
            DataType::Int8 => Int8(Some(get!(Int8Array))),
            DataType::Int16 => Int16(Some(get!(Int16Array))),
            DataType::Int32 => Int32(Some(get!(Int32Array))),
            DataType::Int64 => Int64(Some(get!(Int64Array))),
            DataType::UInt8 => UInt8(Some(get!(UInt8Array))),
            DataType::UInt16 => UInt16(Some(get!(UInt16Array))),
            DataType::UInt32 => UInt32(Some(get!(UInt32Array))),
            DataType::UInt64 => UInt64(Some(get!(UInt64Array))),
            DataType::Utf8 => Utf8(Some(get!(StringArray).to_string())),
            DataType::LargeUtf8 => LargeUtf8(Some(get!(LargeStringArray).to_string())),
            DataType::Binary => Binary(Some(get!(BinaryArray).to_vec())),
            DataType::Timestamp(TimeUnit::Second, z) => TimestampSecond(Some(get!(TimestampSecondArray)), z.clone()),
            DataType::Timestamp(TimeUnit::Millisecond, z) => TimestampMillisecond(Some(get!(TimestampMillisecondArray)), z.clone()),
            DataType::Timestamp(TimeUnit::Microsecond, z) => TimestampMicrosecond(Some(get!(TimestampMicrosecondArray)), z.clone()),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => TimestampNanosecond(Some(get!(TimestampNanosecondArray)), z.clone()),
            other => {
                return Err(DataFusionError::NotImplemented(format!("Can't create a scalar from array of type \"{other:?}\"")));
            }
        })
    }
    pub fn cast(&self, to: &DataType) -> Result<Self> {
        let a = arrow::compute::cast(&self.to_array(), to)?;
        Self::try_from_array(a.as_ref(), 0)
    }
    fn rank_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self, o) {
            (Null, Null) => Some(Ordering::Equal),
            (Boolean(a), Boolean(b)) => a.partial_cmp(b),
            (Float32(a), Float32(b)) => match (a, b) {
                (Some(a), Some(b)) => Some(a.total_cmp(b)),
                (a, b) => a.is_some().partial_cmp(&b.is_some()),
            },
            (Float64(a), Float64(b)) => match (a, b) {
                (Some(a), Some(b)) => Some(a.total_cmp(b)),
                (a, b) => a.is_some().partial_cmp(&b.is_some()),
            },
            (Decimal128(a, p, s), Decimal128(b, q, t)) if p == q && s == t => a.partial_cmp(b),
            (Int8(a), Int8(b)) => a.partial_cmp(b),
            (Int16(a), Int16(b)) => a.partial_cmp(b),
            (Int32(a), Int32(b)) => a.partial_cmp(b),
            (Int64(a), Int64(b)) => a.partial_cmp(b),
            (UInt8(a), UInt8(b)) => a.partial_cmp(b),
            (UInt16(a), UInt16(b)) => a.partial_cmp(b),
            (UInt32(a), UInt32(b)) => a.partial_cmp(b),
            (UInt64(a), UInt64(b)) => a.partial_cmp(b),
            (Utf8(a), Utf8(b)) | (LargeUtf8(a), LargeUtf8(b)) => a.partial_cmp(b),
            (Binary(a), Binary(b)) | (LargeBinary(a), LargeBinary(b)) => a.partial_cmp(b),
            (FixedSizeBinary(_, a), FixedSizeBinary(_, b)) => a.partial_cmp(b),
            (List(a, f), List(b, g)) if f == g => a.partial_cmp(b),
            (Date32(a), Date32(b))
            | (Time32Second(a), Time32Second(b))
            | (Time32Millisecond(a), Time32Millisecond(b))
            | (IntervalYearMonth(a), IntervalYearMonth(b)) => a.partial_cmp(b),
            (Date64(a), Date64(b))
            | (Time64Microsecond(a), Time64Microsecond(b))
            | (Time64Nanosecond(a), Time64Nanosecond(b))
            | (IntervalDayTime(a), IntervalDayTime(b)) => a.partial_cmp(b),
            (TimestampSecond(a, _), TimestampSecond(b, _))
            | (TimestampMillisecond(a, _), TimestampMillisecond(b, _))
            | (TimestampMicrosecond(a, _), TimestampMicrosecond(b, _))
            | (TimestampNanosecond(a, _), TimestampNanosecond(b, _)) => a.partial_cmp(b),
            (IntervalMonthDayNano(a), IntervalMonthDayNano(b)) => a.partial_cmp(b),
            (Struct(a, f), Struct(b, g)) if f == g => a.partial_cmp(b),
            (Dictionary(k, a), Dictionary(l, b)) if k == l => a.rank_cmp(b),
            _ => None,
        }
    }
}

impl PartialEq for ScalarValue {
    fn eq(&self, o: &Self) -> bool {
        self.rank_cmp(o) == Some(Ordering::Equal)
    }
}
impl Eq for ScalarValue {}
impl PartialOrd for ScalarValue {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.rank_cmp(o)
    }
}
impl Hash for ScalarValue {
    fn hash<H: Hasher>(&self, h: &mut H) {
        std::mem::discriminant(self).hash(h);
        match self {
            Null => {}
            Boolean(v) => v.hash(h),
            Float32(v) => v.map(|x| x.to_bits()).hash(h),
            Float64(v) => v.map(|x| x.to_bits()).hash(h),
            Decimal128(v, p, s) => (v, p, s).hash(h),
            Int8(v) => v.hash(h),
            Int16(v) => v.hash(h),
            Int32(v) => v.hash(h),
            Int64(v) => v.hash(h),
            UInt8(v) => v.hash(h),
            UInt16(v) => v.hash(h),
            UInt32(v) => v.hash(h),
            UInt64(v) => v.hash(h),
            Utf8(v) | LargeUtf8(v) => v.hash(h),
            Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => v.hash(h),
            List(v, _) => v.hash(h),
            Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.hash(h),
            Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => v.hash(h),
            TimestampSecond(v, _)
            | TimestampMillisecond(v, _)
            | TimestampMicrosecond(v, _)
            | TimestampNanosecond(v, _) => v.hash(h),
            IntervalMonthDayNano(v) => v.hash(h),
            Struct(v, _) => v.hash(h),
            Dictionary(_, v) => v.hash(h),
        }
    }
}

impl fmt::Display for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        macro_rules! opt {
            ($v:expr) => {
                match $v {
                    Some(v) => write!(f, "{v}"),
                    None => write!(f, "NULL"),
                }
            };
        }
        match self {
            Null => write!(f, "NULL"),
            Boolean(v) => opt!(v),
            Float32(v) => opt!(v),
            Float64(v) => opt!(v),
            Decimal128(v, p, s) => write!(f, "{v:?},{p},{s}"),
            Int8(v) => opt!(v),
            Int16(v) => opt!(v),
            Int32(v) => opt!(v),
            Int64(v) => opt!(v),
            UInt8(v) => opt!(v),
            UInt16(v) => opt!(v),
            UInt32(v) => opt!(v),
            UInt64(v) => opt!(v),
            Utf8(v) | LargeUtf8(v) => opt!(v),
            Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => match v {
                Some(b) => write!(f, "{}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                None => write!(f, "NULL"),
            },
            List(v, _) | Struct(v, _) => match v {
                Some(b) => write!(f, "{}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                None => write!(f, "NULL"),
            },
            Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => opt!(v),
            Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => opt!(v),
            TimestampSecond(v, _)
            | TimestampMillisecond(v, _)
            | TimestampMicrosecond(v, _)
            | TimestampNanosecond(v, _) => opt!(v),
            IntervalMonthDayNano(v) => opt!(v),
            Dictionary(k, v) => write!(f, "Dictionary({k:?}, {v})"),
        }
    }
}
impl fmt::Debug for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Utf8(Some(s)) => write!(f, "Utf8({s:?})"),
            Null => write!(f, "NULL"),
            other => write!(f, "{:?}({other})", other.get_datatype()),
        }
    }
}

macro_rules! from_prim {
    ($($t:ty => $v:ident),*) => {$(
        impl From<$t> for ScalarValue { fn from(x: $t) -> Self { $v(Some(x)) } }
        impl From<Option<$t>> for ScalarValue { fn from(x: Option<$t>) -> Self { $v(x) } }
        impl TryFrom<ScalarValue> for $t {
            type Error = DataFusionError;
            fn try_from(x: ScalarValue) -> Result<Self> {
                match x {
                    $v(Some(v)) => Ok(v),
                    other => Err(DataFusionError::Internal(format!("Cannot convert {other:?} to {}", stringify!($t)))),
                }
            }
        }
    )*};
}
from_prim!(bool => Boolean, f32 => Float32, f64 => Float64, i8 => Int8, i16 => Int16, i32 => Int32,
           u8 => UInt8, u16 => UInt16, u32 => UInt32, u64 => UInt64);
impl From<i64> for ScalarValue {
    fn from(x: i64) -> Self {
        Int64(Some(x))
    }
}
impl From<Option<i64>> for ScalarValue {
    fn from(x: Option<i64>) -> Self {
        Int64(x)
    }
}
impl TryFrom<ScalarValue> for i64 {
    type Error = DataFusionError;
    fn try_from(x: ScalarValue) -> Result<Self> {
        match x {
            Int64(Some(v))
            | Date64(Some(v))
            | Time64Microsecond(Some(v))
            | Time64Nanosecond(Some(v))
            | TimestampNanosecond(Some(v), _)
            | TimestampMicrosecond(Some(v), _)
            | TimestampMillisecond(Some(v), _)
            | TimestampSecond(Some(v), _) => Ok(v),
            other => Err(DataFusionError::Internal(format!("Cannot convert {other:?} to i64"))),
        }
    }
}
impl From<&str> for ScalarValue {
    fn from(x: &str) -> Self {
        Utf8(Some(x.to_string()))
    }
}
impl From<Option<&str>> for ScalarValue {
    fn from(x: Option<&str>) -> Self {
        Utf8(x.map(|s| s.to_string()))
    }
}
impl From<String> for ScalarValue {
    fn from(x: String) -> Self {
        Utf8(Some(x))
    }
}

impl TryFrom<DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(t: DataType) -> Result<Self> {
        ScalarValue::try_from(&t)
    }
}
impl TryFrom<&DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(t: &DataType) -> Result<Self> {
        Ok(match t {
            DataType::Null => Null,
            DataType::Boolean => Boolean(None),
            DataType::Float32 => Float32(None),
            DataType::Float64 => Float64(None),
            DataType::Decimal128(p, s) => Decimal128(None, *p, *s),
            DataType::Int8 => Int8(None),
            DataType::Int16 => Int16(None),
            DataType::Int32 => Int32(None),
            DataType::Int64 => Int64(None),
            DataType::UInt8 => UInt8(None),
            DataType::UInt16 => UInt16(None),
            DataType::UInt32 => UInt32(None),
            DataType::UInt64 => UInt64(None),
            DataType::Utf8 => Utf8(None),
            DataType::LargeUtf8 => LargeUtf8(None),
            DataType::Binary => Binary(None),
            DataType::LargeBinary => LargeBinary(None),
            DataType::FixedSizeBinary(n) => FixedSizeBinary(*n, None),
            DataType::Date32 => Date32(None),
            DataType::Date64 => Date64(None),
            DataType::Time32(TimeUnit::Second) => Time32Second(None),
            DataType::Time32(TimeUnit::Millisecond) => Time32Millisecond(None),
            DataType::Time64(TimeUnit::Microsecond) => Time64Microsecond(None),
            DataType::Time64(TimeUnit::Nanosecond) => Time64Nanosecond(None),
            DataType::Timestamp(TimeUnit::Second, z) => TimestampSecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Millisecond, z) => TimestampMillisecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Microsecond, z) => TimestampMicrosecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => TimestampNanosecond(None, z.clone()),
            DataType::Dictionary(k, v) => Dictionary(k.clone(), Box::new(ScalarValue::try_from(v.as_ref())?)),
            DataType::List(f) => List(None, f.clone()),
            DataType::Struct(f) => Struct(None, f.clone()),
            other => {
                return Err(DataFusionError::NotImplemented(format!("Can't create a scalar from data_type \"{other:?}\"")));
            }
        })
    }
}
