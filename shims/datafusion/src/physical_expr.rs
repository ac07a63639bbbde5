//! Physical expressions: column, literal, binary, not, is [not] null, in-list, cast, like, between (lowered).
use crate::dfschema::DFSchema;
use crate::error::{DataFusionError, Result};
use crate::logical_expr::{Expr, Operator};
use crate::scalar::ScalarValue;
use crate::tree_node::{TreeNode, VisitRecursion};
use arrow::array::*;
use arrow::compute;
use arrow::datatypes::{DataType, Schema};
use arrow::record_batch::RecordBatch;
use std::any::Any;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;

pub mod execution_props {
    #[derive(Debug, Clone, Default)]
    pub struct ExecutionProps;
    impl ExecutionProps {
        pub fn new() -> Self {
            Self
        }
    }
}

pub enum ColumnarValue {
    Array(ArrayRef),
    Scalar(ScalarValue),
}
impl ColumnarValue {
    pub fn into_array(self, n: usize) -> ArrayRef {
        match self {
            Self::Array(a) => a,
            Self::Scalar(s) => s.to_array_of_size(n),
        }
    }
    pub fn data_type(&self) -> DataType {
        match self {
            Self::Array(a) => a.data_type().clone(),
            Self::Scalar(s) => s.get_datatype(),
        }
    }
}

pub trait PhysicalExpr: Send + Sync + Display + Debug {
    fn as_any(&self) -> &dyn Any;
    fn data_type(&self, schema: &Schema) -> Result<DataType>;
    fn evaluate(&self, batch: &RecordBatch) -> Result<ColumnarValue>;
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>>;
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>>;
}
pub type PhysicalExprRef = Arc<dyn PhysicalExpr>;

impl TreeNode for Arc<dyn PhysicalExpr> {
    fn apply_children<F: FnMut(&Self) -> Result<VisitRecursion>>(&self, op: &mut F) -> Result<VisitRecursion> {
        for c in self.children() {
            match op(&c)? {
                VisitRecursion::Continue => {}
                VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
                VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
            }
        }
        Ok(VisitRecursion::Continue)
    }
    fn map_children<F: FnMut(Self) -> Result<Self>>(self, op: F) -> Result<Self> {
        let c = self.children();
        if c.is_empty() {
            return Ok(self);
        }
        let c: Result<Vec<_>> = c.into_iter().map(op).collect();
        self.with_new_children(c?)
    }
}

pub mod expressions {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Column {
        name: String,
        index: usize,
    }
    impl Column {
        pub fn new(name: &str, index: usize) -> Self {
            Self { name: name.to_owned(), index }
        }
        pub fn new_with_schema(name: &str, schema: &Schema) -> Result<Self> {
            Ok(Self::new(name, schema.index_of(name)?))
        }
        pub fn name(&self) -> &str {
            &self.name
        }
        pub fn index(&self) -> usize {
            self.index
        }
    }
    impl Display for Column {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}@{}", self.name, self.index)
        }
    }
    impl PhysicalExpr for Column {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn data_type(&self, s: &Schema) -> Result<DataType> {
            self.check(s)?;
            Ok(s.field(self.index).data_type().clone())
        }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            self.check(b.schema().as_ref())?;
            Ok(ColumnarValue::Array(b.column(self.index).clone()))
        }
        fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
            vec![]
        }
        fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
            Ok(self)
        }
    }
    impl Column {
        fn check(&self, s: &Schema) -> Result<()> {
            if self.index < s.fields.len() {
                Ok(())
            } else {
                Err(DataFusionError::Internal(format!(
                    "PhysicalExpr Column references column '{}' at index {} (zero-based) but input schema only has {} columns",
                    self.name, self.index, s.fields.len()
                )))
            }
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct Literal {
        value: ScalarValue,
    }
    impl Literal {
        pub fn new(value: ScalarValue) -> Self {
            Self { value }
        }
        pub fn value(&self) -> &ScalarValue {
            &self.value
        }
    }
    impl Display for Literal {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.value)
        }
    }
    impl PhysicalExpr for Literal {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn data_type(&self, _: &Schema) -> Result<DataType> {
            Ok(self.value.get_datatype())
        }
        fn evaluate(&self, _: &RecordBatch) -> Result<ColumnarValue> {
            Ok(ColumnarValue::Scalar(self.value.clone()))
        }
        fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
            vec![]
        }
        fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
            Ok(self)
        }
    }
    pub fn lit(v: impl Into<ScalarValue>) -> Arc<dyn PhysicalExpr> {
        Arc::new(Literal::new(v.into()))
    }
    pub fn col(name: &str, schema: &Schema) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(Arc::new(Column::new_with_schema(name, schema)?))
    }

    #[derive(Debug)]
    pub struct BinaryExpr {
        left: Arc<dyn PhysicalExpr>,
        op: Operator,
        right: Arc<dyn PhysicalExpr>,
    }
    impl BinaryExpr {
        pub fn new(left: Arc<dyn PhysicalExpr>, op: Operator, right: Arc<dyn PhysicalExpr>) -> Self {
            Self { left, op, right }
        }
        pub fn left(&self) -> &Arc<dyn PhysicalExpr> {
            &self.left
        }
        pub fn right(&self) -> &Arc<dyn PhysicalExpr> {
            &self.right
        }
        pub fn op(&self) -> &Operator {
            &self.op
        }
    }
    impl Display for BinaryExpr {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let side = |e: &Arc<dyn PhysicalExpr>| {
                if e.as_any().downcast_ref::<BinaryExpr>().is_some() {
                    format!("({e})")
                } else {
                    format!("{e}")
                }
            };
            write!(f, "{} {} {}", side(&self.left), self.op, side(&self.right))
        }
    }
    impl PhysicalExpr for BinaryExpr {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn data_type(&self, s: &Schema) -> Result<DataType> {
            use Operator::*;
            match self.op {
                Plus | Minus | Multiply | Divide | Modulo => self.left.data_type(s),
                StringConcat => Ok(DataType::Utf8),
                _ => Ok(DataType::Boolean),
            }
        }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            let l = self.left.evaluate(b)?.into_array(b.num_rows());
            let r = self.right.evaluate(b)?.into_array(b.num_rows());
            Ok(ColumnarValue::Array(eval_binary(&l, self.op, &r)?))
        }
        fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
            vec![self.left.clone(), self.right.clone()]
        }
        fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
            Ok(Arc::new(BinaryExpr::new(c[0].clone(), self.op, c[1].clone())))
        }
    }
    fn common_type(l: &DataType, r: &DataType) -> Option<DataType> {
        use DataType::*;
        if l == r {
            return Some(l.clone());
        }
        let num = |t: &DataType| t.is_numeric();
        match (l, r) {
            (Null, t) | (t, Null) => Some(t.clone()),
            (Timestamp(a, z), Timestamp(b, _)) => Some(Timestamp(if a >= b { a.clone() } else { b.clone() }, z.clone())),
            (Timestamp(u, z), Utf8 | Int64) | (Utf8 | Int64, Timestamp(u, z)) => Some(Timestamp(u.clone(), z.clone())),
            (Utf8, t) | (t, Utf8) if num(t) => Some(Utf8),
            (Utf8, Boolean) | (Boolean, Utf8) => Some(Utf8),
            (a, b) if num(a) && num(b) => {
                if a.is_floating() || b.is_floating() {
                    Some(Float64)
                } else {
                    Some(Int64)
                }
            }
            _ => None,
        }
    }
    pub(crate) fn coerce(l: &ArrayRef, r: &ArrayRef) -> Result<(ArrayRef, ArrayRef)> {
        if l.data_type() == r.data_type() {
            return Ok((l.clone(), r.clone()));
        }
        let t = common_type(l.data_type(), r.data_type()).ok_or_else(|| {
            DataFusionError::Internal(format!("Cannot evaluate binary expression with types {:?} and {:?}", l.data_type(), r.data_type()))
        })?;
        Ok((compute::cast(l, &t)?, compute::cast(r, &t)?))
    }
    pub(crate) fn eval_binary(l: &ArrayRef, op: Operator, r: &ArrayRef) -> Result<ArrayRef> {
        use Operator::*;
        if matches!(op, And | Or) {
            let to_bool = |a: &ArrayRef| -> Result<BooleanArray> {
                Ok(compute::cast(a, &DataType::Boolean)?.as_any().downcast_ref::<BooleanArray>().unwrap().clone())
            };
            let (l, r) = (to_bool(l)?, to_bool(r)?);
            return Ok(Arc::new(match op {
                And => compute::and_kleene(&l, &r)?,
                _ => compute::or_kleene(&l, &r)?,
            }));
        }
        let (l, r) = coerce(l, r)?;
        let (l, r): (&dyn Array, &dyn Array) = (l.as_ref(), r.as_ref());
        if matches!(l.data_type(), DataType::Null) {
            return Ok(new_null_array(&DataType::Boolean, l.len()));
        }
        Ok(match op {
            Eq => Arc::new(arrow_ord::comparison::eq_dyn(l, r)?),
            NotEq => Arc::new(arrow_ord::comparison::neq_dyn(l, r)?),
            Lt => Arc::new(arrow_ord::comparison::lt_dyn(l, r)?),
            LtEq => Arc::new(arrow_ord::comparison::lt_eq_dyn(l, r)?),
            Gt => Arc::new(arrow_ord::comparison::gt_dyn(l, r)?),
            GtEq => Arc::new(arrow_ord::comparison::gt_eq_dyn(l, r)?),
            other => return Err(DataFusionError::NotImplemented(format!("binary operator {other}"))),
        })
    }
    pub fn binary(l: Arc<dyn PhysicalExpr>, op: Operator, r: Arc<dyn PhysicalExpr>, s: &Schema) -> Result<Arc<dyn PhysicalExpr>> {
        let (lt, rt) = (l.data_type(s)?, r.data_type(s)?);
        if !matches!(op, Operator::And | Operator::Or) && common_type(&lt, &rt).is_none() {
            return Err(DataFusionError::Internal(format!("The type of {lt:?} {op} {rt:?} of binary physical should be same")));
        }
        Ok(Arc::new(BinaryExpr::new(l, op, r)))
    }

    macro_rules! unary {
        ($name:ident, $text:expr, |$a:ident| $eval:expr) => {
            #[derive(Debug)]
            pub struct $name {
                arg: Arc<dyn PhysicalExpr>,
            }
            impl $name {
                pub fn new(arg: Arc<dyn PhysicalExpr>) -> Self {
                    Self { arg }
                }
                pub fn arg(&self) -> &Arc<dyn PhysicalExpr> {
                    &self.arg
                }
            }
            impl Display for $name {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, $text, self.arg)
                }
            }
            impl PhysicalExpr for $name {
                fn as_any(&self) -> &dyn Any {
                    self
                }
                fn data_type(&self, _: &Schema) -> Result<DataType> {
                    Ok(DataType::Boolean)
                }
                fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
                    let $a = self.arg.evaluate(b)?.into_array(b.num_rows());
                    let out: BooleanArray = $eval;
                    Ok(ColumnarValue::Array(Arc::new(out)))
                }
                fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
                    vec![self.arg.clone()]
                }
                fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
                    Ok(Arc::new($name::new(c[0].clone())))
                }
            }
        };
    }
    fn as_bool(a: &ArrayRef) -> Result<BooleanArray> {
        Ok(compute::cast(a, &DataType::Boolean)?.as_any().downcast_ref::<BooleanArray>().unwrap().clone())
    }
    unary!(NotExpr, "NOT {}", |a| compute::not(&as_bool(&a)?)?);
    unary!(IsNullExpr, "{} IS NULL", |a| compute::is_null(a.as_ref())?);
    unary!(IsNotNullExpr, "{} IS NOT NULL", |a| compute::is_not_null(a.as_ref())?);

    #[derive(Debug)]
    pub struct InListExpr {
        expr: Arc<dyn PhysicalExpr>,
        list: Vec<Arc<dyn PhysicalExpr>>,
        negated: bool,
    }
    impl InListExpr {
        pub fn new(expr: Arc<dyn PhysicalExpr>, list: Vec<Arc<dyn PhysicalExpr>>, negated: bool) -> Self {
            Self { expr, list, negated }
        }
        pub fn expr(&self) -> &Arc<dyn PhysicalExpr> {
            &self.expr
        }
        pub fn list(&self) -> &[Arc<dyn PhysicalExpr>] {
            &self.list
        }
        pub fn negated(&self) -> bool {
            self.negated
        }
    }
    impl Display for InListExpr {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{} {}IN ({:?})", self.expr, if self.negated { "NOT " } else { "" }, self.list)
        }
    }
    impl PhysicalExpr for InListExpr {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn data_type(&self, _: &Schema) -> Result<DataType> {
            Ok(DataType::Boolean)
        }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            let v = self.expr.evaluate(b)?.into_array(b.num_rows());
            let mut out = BooleanArray::from(vec![false; b.num_rows()]);
            for e in &self.list {
                let r = e.evaluate(b)?.into_array(b.num_rows());
                let m = eval_binary(&v, Operator::Eq, &r)?;
                out = compute::or_kleene(&out, m.as_any().downcast_ref().unwrap())?;
            }
            if self.negated {
                out = compute::not(&out)?;
            }
            Ok(ColumnarValue::Array(Arc::new(out)))
        }
        fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
            let mut v = vec![self.expr.clone()];
            v.extend(self.list.iter().cloned());
            v
        }
        fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
            Ok(Arc::new(InListExpr::new(c[0].clone(), c[1..].to_vec(), self.negated)))
        }
    }

    #[derive(Debug)]
    pub struct CastExpr {
        expr: Arc<dyn PhysicalExpr>,
        cast_type: DataType,
    }
    impl CastExpr {
        pub fn new(expr: Arc<dyn PhysicalExpr>, cast_type: DataType, _opts: Option<()>) -> Self {
            Self { expr, cast_type }
        }
        pub fn expr(&self) -> &Arc<dyn PhysicalExpr> {
            &self.expr
        }
        pub fn cast_type(&self) -> &DataType {
            &self.cast_type
        }
    }
    impl Display for CastExpr {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "CAST({} AS {:?})", self.expr, self.cast_type)
        }
    }
    impl PhysicalExpr for CastExpr {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn data_type(&self, _: &Schema) -> Result<DataType> {
            Ok(self.cast_type.clone())
        }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            let v = self.expr.evaluate(b)?.into_array(b.num_rows());
            Ok(ColumnarValue::Array(compute::cast(&v, &self.cast_type)?))
        }
        fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
            vec![self.expr.clone()]
        }
        fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
            Ok(Arc::new(CastExpr { expr: c[0].clone(), cast_type: self.cast_type.clone() }))
        }
    }

    #[derive(Debug)]
    pub struct LikeExpr {
        pub negated: bool,
        pub case_insensitive: bool,
        pub expr: Arc<dyn PhysicalExpr>,
        pub pattern: Arc<dyn PhysicalExpr>,
    }
    impl Display for LikeExpr {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{} {}{}LIKE {}", self.expr, if self.negated { "NOT " } else { "" }, if self.case_insensitive { "I" } else { "" }, self.pattern)
        }
    }
    impl PhysicalExpr for LikeExpr {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn data_type(&self, _: &Schema) -> Result<DataType> {
            Ok(DataType::Boolean)
        }
        fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
            let v = self.expr.evaluate(b)?.into_array(b.num_rows());
            let p = self.pattern.evaluate(b)?.into_array(b.num_rows());
            use arrow_string::like::*;
            let out = match (self.negated, self.case_insensitive) {
                (false, false) => like_dyn(v.as_ref(), p.as_ref())?,
                (true, false) => nlike_dyn(v.as_ref(), p.as_ref())?,
                (false, true) => ilike_dyn(v.as_ref(), p.as_ref())?,
                (true, true) => nilike_dyn(v.as_ref(), p.as_ref())?,
            };
            Ok(ColumnarValue::Array(Arc::new(out)))
        }
        fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
            vec![self.expr.clone(), self.pattern.clone()]
        }
        fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
            Ok(Arc::new(LikeExpr { negated: self.negated, case_insensitive: self.case_insensitive, expr: c[0].clone(), pattern: c[1].clone() }))
        }
    }
}

pub fn create_physical_expr(
    e: &Expr,
    df: &DFSchema,
    schema: &Schema,
    props: &execution_props::ExecutionProps,
) -> Result<Arc<dyn PhysicalExpr>> {
    use expressions as x;
    let sub = |e: &Expr| create_physical_expr(e, df, schema, props);
    let bin = |l: Arc<dyn PhysicalExpr>, op, r| -> Arc<dyn PhysicalExpr> { Arc::new(x::BinaryExpr::new(l, op, r)) };
    let not = |a| -> Arc<dyn PhysicalExpr> { Arc::new(x::NotExpr::new(a)) };
    Ok(match e {
        Expr::Alias(e, _) => sub(e)?,
        Expr::Column(c) => Arc::new(x::Column::new(&c.name, df.index_of_column(c)?)),
        Expr::Literal(v) => Arc::new(x::Literal::new(v.clone())),
        Expr::BinaryExpr(b) => x::binary(sub(&b.left)?, b.op, sub(&b.right)?, schema)?,
        Expr::Not(e) => not(sub(e)?),
        Expr::IsNull(e) | Expr::IsUnknown(e) => Arc::new(x::IsNullExpr::new(sub(e)?)),
        Expr::IsNotNull(e) | Expr::IsNotUnknown(e) => Arc::new(x::IsNotNullExpr::new(sub(e)?)),
        Expr::InList(i) => {
            let l: Result<Vec<_>> = i.list.iter().map(sub).collect();
            Arc::new(x::InListExpr::new(sub(&i.expr)?, l?, i.negated))
        }
        Expr::Between(b) => {
            let v = sub(&b.expr)?;
            let e = bin(
                bin(v.clone(), Operator::GtEq, sub(&b.low)?),
                Operator::And,
                bin(v, Operator::LtEq, sub(&b.high)?),
            );
            if b.negated { not(e) } else { e }
        }
        Expr::Cast(c) => Arc::new(x::CastExpr::new(sub(&c.expr)?, c.data_type.clone(), None)),
        Expr::Like(l) => Arc::new(x::LikeExpr { negated: l.negated, case_insensitive: false, expr: sub(&l.expr)?, pattern: sub(&l.pattern)? }),
        Expr::ILike(l) => Arc::new(x::LikeExpr { negated: l.negated, case_insensitive: true, expr: sub(&l.expr)?, pattern: sub(&l.pattern)? }),
        other => return Err(DataFusionError::NotImplemented(format!("Physical plan does not support logical expression {other:?}"))),
    })
}
