//! Stand-in for datafusion-proto: physical expressions and scalars <-> prost messages.
use datafusion::arrow::datatypes::{DataType, TimeUnit};
use datafusion::error::DataFusionError;
use datafusion::scalar::ScalarValue as SV;

pub mod protobuf {
    use super::*;
    use datafusion::logical_expr::Operator;
    use datafusion::physical_expr::expressions as x;
    use datafusion::physical_expr::PhysicalExpr;
    use std::sync::Arc;

    /// value: little-endian bytes of the value (absent = null); kind: JSON of the arrow data type
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct ScalarValue {
        #[prost(string, tag = "1")]
        pub kind: String,
        #[prost(bytes = "vec", optional, tag = "2")]
        pub value: Option<Vec<u8>>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct PhysicalExprNode {
        #[prost(oneof = "physical_expr_node::ExprType", tags = "1, 2, 3, 4")]
        pub expr_type: Option<physical_expr_node::ExprType>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct ColumnNode {
        #[prost(string, tag = "1")]
        pub name: String,
        #[prost(uint32, tag = "2")]
        pub index: u32,
    }
    /// op: the kind of node; extra: operator text / negation / cast type
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct OpNode {
        #[prost(string, tag = "1")]
        pub op: String,
        #[prost(string, tag = "2")]
        pub extra: String,
        #[prost(message, repeated, tag = "3")]
        pub args: Vec<PhysicalExprNode>,
    }
    pub mod physical_expr_node {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum ExprType {
            #[prost(message, tag = "1")]
            Column(super::ColumnNode),
            #[prost(message, tag = "2")]
            Literal(super::ScalarValue),
            #[prost(message, tag = "3")]
            Op(super::OpNode),
        }
    }
    use physical_expr_node::ExprType;

    impl TryFrom<Arc<dyn PhysicalExpr>> for PhysicalExprNode {
        type Error = DataFusionError;
        fn try_from(e: Arc<dyn PhysicalExpr>) -> Result<Self, DataFusionError> {
            let a = e.as_any();
            let node = |op: &str, extra: String| -> Result<ExprType, DataFusionError> {
                let args: Result<Vec<_>, _> = e.children().into_iter().map(PhysicalExprNode::try_from).collect();
                Ok(ExprType::Op(OpNode { op: op.into(), extra, args: args? }))
            };
            let t = if let Some(c) = a.downcast_ref::<x::Column>() {
                ExprType::Column(ColumnNode { name: c.name().into(), index: c.index() as u32 })
            } else if let Some(l) = a.downcast_ref::<x::Literal>() {
                ExprType::Literal(l.value().try_into()?)
            } else if let Some(b) = a.downcast_ref::<x::BinaryExpr>() {
                node("binary", b.op().text().into())?
            } else if a.downcast_ref::<x::NotExpr>().is_some() {
                node("not", String::new())?
            } else if a.downcast_ref::<x::IsNullExpr>().is_some() {
                node("is_null", String::new())?
            } else if a.downcast_ref::<x::IsNotNullExpr>().is_some() {
                node("is_not_null", String::new())?
            } else if let Some(i) = a.downcast_ref::<x::InListExpr>() {
                node("in_list", if i.negated() { "not" } else { "" }.into())?
            } else if let Some(c) = a.downcast_ref::<x::CastExpr>() {
                node("cast", serde_json::to_string(c.cast_type()).expect("type"))?
            } else if let Some(l) = a.downcast_ref::<x::LikeExpr>() {
                node("like", format!("{}{}", if l.negated { "n" } else { "" }, if l.case_insensitive { "i" } else { "" }))?
            } else {
                return Err(DataFusionError::Internal(format!("physical_plan::to_proto() unsupported expression {e:?}")));
            };
            Ok(PhysicalExprNode { expr_type: Some(t) })
        }
    }

    pub(crate) fn parse(n: &PhysicalExprNode) -> Result<Arc<dyn PhysicalExpr>, DataFusionError> {
        let bad = |m: &str| DataFusionError::Internal(format!("bad physical expression message: {m}"));
        Ok(match n.expr_type.as_ref().ok_or_else(|| bad("empty"))? {
            ExprType::Column(c) => Arc::new(x::Column::new(&c.name, c.index as usize)),
            ExprType::Literal(v) => Arc::new(x::Literal::new(SV::try_from(v)?)),
            ExprType::Op(o) => {
                let args: Result<Vec<_>, _> = o.args.iter().map(parse).collect();
                let mut args = args?.into_iter();
                let mut next = || args.next().ok_or_else(|| bad("missing argument"));
                match o.op.as_str() {
                    "binary" => {
                        let op = Operator::parse(&o.extra).ok_or_else(|| bad("operator"))?;
                        Arc::new(x::BinaryExpr::new(next()?, op, next()?))
                    }
                    "not" => Arc::new(x::NotExpr::new(next()?)),
                    "is_null" => Arc::new(x::IsNullExpr::new(next()?)),
                    "is_not_null" => Arc::new(x::IsNotNullExpr::new(next()?)),
                    "in_list" => {
                        let e = next()?;
                        Arc::new(x::InListExpr::new(e, args.collect(), o.extra == "not"))
                    }
                    "cast" => {
                        let t = serde_json::from_str(&o.extra).map_err(|_| bad("cast type"))?;
                        Arc::new(x::CastExpr::new(next()?, t, None))
                    }
                    "like" => Arc::new(x::LikeExpr {
                        negated: o.extra.contains('n'),
                        case_insensitive: o.extra.contains('i'),
                        expr: next()?,
                        pattern: next()?,
                    }),
                    _ => return Err(bad("kind")),
                }
            }
        })
    }

    impl TryFrom<&SV> for ScalarValue {
        type Error = DataFusionError;
        fn try_from(v: &SV) -> Result<Self, DataFusionError> {
            macro_rules! le {
                ($v:expr) => {
                    $v.as_ref().map(|v| v.to_le_bytes().to_vec())
                };
            }
            let value = match v {
                SV::Null => None,
                SV::Boolean(v) => v.map(|b| vec![b as u8]),
                SV::Float32(v) => le!(v),
                SV::Float64(v) => le!(v),
                SV::Decimal128(v, _, _) => le!(v),
                SV::Int8(v) => le!(v),
                SV::Int16(v) => le!(v),
                SV::Int32(v) => le!(v),
                SV::Int64(v) => le!(v),
                SV::UInt8(v) => le!(v),
                SV::UInt16(v) => le!(v),
                SV::UInt32(v) => le!(v),
                SV::UInt64(v) => le!(v),
                SV::Utf8(v) | SV::LargeUtf8(v) => v.as_ref().map(|s| s.as_bytes().to_vec()),
                SV::Binary(v) | SV::LargeBinary(v) | SV::FixedSizeBinary(_, v) => v.clone(),
                SV::Date32(v) | SV::Time32Second(v) | SV::Time32Millisecond(v) | SV::IntervalYearMonth(v) => le!(v),
                SV::Date64(v) | SV::Time64Microsecond(v) | SV::Time64Nanosecond(v) | SV::IntervalDayTime(v) => le!(v),
                SV::TimestampSecond(v, _)
                | SV::TimestampMillisecond(v, _)
                | SV::TimestampMicrosecond(v, _)
                | SV::TimestampNanosecond(v, _) => le!(v),
                SV::IntervalMonthDayNano(v) => le!(v),
                other => return Err(DataFusionError::NotImplemented(format!("scalar {other:?} to protobuf"))),
            };
            Ok(ScalarValue { kind: serde_json::to_string(&v.get_datatype()).expect("type"), value })
        }
    }
    impl TryFrom<&ScalarValue> for SV {
        type Error = DataFusionError;
        fn try_from(p: &ScalarValue) -> Result<Self, DataFusionError> {
            let bad = |m: &str| DataFusionError::Internal(format!("bad scalar message: {m}"));
            let t: DataType = serde_json::from_str(&p.kind).map_err(|_| bad("type"))?;
            let Some(b) = p.value.as_ref() else { return SV::try_from(&t) };
            macro_rules! le {
                ($t:ty) => {
                    Some(<$t>::from_le_bytes(b.as_slice().try_into().map_err(|_| bad("length"))?))
                };
            }
            Ok(match &t {
                DataType::Null => SV::Null,
                DataType::Boolean => SV::Boolean(Some(*b.first().ok_or_else(|| bad("length"))? != 0)),
                DataType::Float32 => SV::Float32(le!(f32)),
                DataType::Float64 => SV::Float64(le!(f64)),
                DataType::Decimal128(p, s) => SV::Decimal128(le!(i128), *p, *s),
                DataType::Int8 => SV::Int8(le!(i8)),
                DataType::Int16 => SV::Int16(le!(i16)),
                DataType::Int32 => SV::Int32(le!(i32)),
                DataType::Int64 => SV::Int64(le!(i64)),
                DataType::UInt8 => SV::UInt8(le!(u8)),
                DataType::UInt16 => SV::UInt16(le!(u16)),
                DataType::UInt32 => SV::UInt32(le!(u32)),
                DataType::UInt64 => SV::UInt64(le!(u64)),
                DataType::Utf8 => SV::Utf8(Some(String::from_utf8(b.clone()).map_err(|_| bad("utf8"))?)),
                DataType::LargeUtf8 => SV::LargeUtf8(Some(String::from_utf8(b.clone()).map_err(|_| bad("utf8"))?)),
                DataType::Binary => SV::Binary(Some(b.clone())),
                DataType::LargeBinary => SV::LargeBinary(Some(b.clone())),
                DataType::FixedSizeBinary(n) => SV::FixedSizeBinary(*n, Some(b.clone())),
                DataType::Date32 => SV::Date32(le!(i32)),
                DataType::Date64 => SV::Date64(le!(i64)),
                DataType::Time32(TimeUnit::Second) => SV::Time32Second(le!(i32)),
                DataType::Time32(_) => SV::Time32Millisecond(le!(i32)),
                DataType::Time64(TimeUnit::Nanosecond) => SV::Time64Nanosecond(le!(i64)),
                DataType::Time64(_) => SV::Time64Microsecond(le!(i64)),
                DataType::Timestamp(TimeUnit::Second, z) => SV::TimestampSecond(le!(i64), z.clone()),
                DataType::Timestamp(TimeUnit::Millisecond, z) => SV::TimestampMillisecond(le!(i64), z.clone()),
                DataType::Timestamp(TimeUnit::Microsecond, z) => SV::TimestampMicrosecond(le!(i64), z.clone()),
                DataType::Timestamp(TimeUnit::Nanosecond, z) => SV::TimestampNanosecond(le!(i64), z.clone()),
                other => return Err(DataFusionError::NotImplemented(format!("scalar of type {other:?} from protobuf"))),
            })
        }
    }
}

pub mod physical_plan {
    pub mod from_proto {
        use datafusion::arrow::datatypes::Schema;
        use datafusion::error::Result;
        use datafusion::execution::FunctionRegistry;
        use datafusion::physical_expr::PhysicalExpr;
        use std::sync::Arc;
        pub fn parse_physical_expr(
            n: &crate::protobuf::PhysicalExprNode,
            _r: &dyn FunctionRegistry,
            _s: &Schema,
        ) -> Result<Arc<dyn PhysicalExpr>> {
            crate::protobuf::parse(n)
        }
    }
}
