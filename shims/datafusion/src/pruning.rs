//! Which containers may hold matching rows, from min/max statistics (never drops one that may match).
use crate::error::Result;
use crate::logical_expr::{Column as LColumn, Operator};
use crate::physical_expr::expressions::*;
use crate::physical_expr::PhysicalExpr;
use arrow::array::*;
use arrow::compute;
use arrow::datatypes::{DataType, SchemaRef};
use std::sync::Arc;

pub trait PruningStatistics {
    fn min_values(&self, column: &LColumn) -> Option<ArrayRef>;
    fn max_values(&self, column: &LColumn) -> Option<ArrayRef>;
    fn num_containers(&self) -> usize;
    fn null_counts(&self, column: &LColumn) -> Option<ArrayRef>;
}

#[derive(Debug, Clone)]
pub struct PruningPredicate {
    expr: Arc<dyn PhysicalExpr>,
    schema: SchemaRef,
}

impl PruningPredicate {
    pub fn try_new(expr: Arc<dyn PhysicalExpr>, schema: SchemaRef) -> Result<Self> {
        Ok(Self { expr, schema })
    }
    pub fn prune<S: PruningStatistics>(&self, s: &S) -> Result<Vec<bool>> {
        let n = s.num_containers();
        if n == 0 {
            return Ok(vec![]);
        }
        Ok(self.keep(&self.expr, s, n))
    }
    fn keep<S: PruningStatistics>(&self, e: &Arc<dyn PhysicalExpr>, s: &S, n: usize) -> Vec<bool> {
        let all = vec![true; n];
        if let Some(l) = e.as_any().downcast_ref::<Literal>() {
            return match l.value() {
                crate::scalar::ScalarValue::Boolean(Some(false)) => vec![false; n],
                _ => all,
            };
        }
        if let Some(i) = e.as_any().downcast_ref::<InListExpr>() {
            if i.negated() || i.list().is_empty() {
                return all;
            }
            let mut out = vec![false; n];
            for v in i.list() {
                let b: Arc<dyn PhysicalExpr> = Arc::new(BinaryExpr::new(i.expr().clone(), Operator::Eq, v.clone()));
                for (o, k) in out.iter_mut().zip(self.keep(&b, s, n)) {
                    *o |= k;
                }
            }
            return out;
        }
        let Some(b) = e.as_any().downcast_ref::<BinaryExpr>() else { return all };
        match b.op() {
            Operator::And => {
                let (x, y) = (self.keep(b.left(), s, n), self.keep(b.right(), s, n));
                return x.into_iter().zip(y).map(|(a, b)| a && b).collect();
            }
            Operator::Or => {
                let (x, y) = (self.keep(b.left(), s, n), self.keep(b.right(), s, n));
                return x.into_iter().zip(y).map(|(a, b)| a || b).collect();
            }
            _ => {}
        }
        let (c, op, v) = match (b.left().as_any().downcast_ref::<Column>(), b.right().as_any().downcast_ref::<Literal>()) {
            (Some(c), Some(v)) => (c, *b.op(), v),
            _ => match (b.left().as_any().downcast_ref::<Literal>(), b.right().as_any().downcast_ref::<Column>()) {
                (Some(v), Some(c)) => (
                    c,
                    match b.op() {
                        Operator::Lt => Operator::Gt,
                        Operator::LtEq => Operator::GtEq,
                        Operator::Gt => Operator::Lt,
                        Operator::GtEq => Operator::LtEq,
                        o => *o,
                    },
                    v,
                ),
                _ => return all,
            },
        };
        let Ok(field) = self.schema.field_with_name(c.name()) else { return all };
        let lc = LColumn::from_name(c.name());
        let stat = |a: Option<ArrayRef>| a.filter(|a| a.len() == n).and_then(|a| compute::cast(&a, field.data_type()).ok());
        let (min, max) = (stat(s.min_values(&lc)), stat(s.max_values(&lc)));
        let lit = v.value().to_array_of_size(n);
        // a null or missing answer keeps the container
        let test = |a: &Option<ArrayRef>, op: Operator| -> Vec<bool> {
            let Some(a) = a else { return vec![true; n] };
            match eval_binary(a, op, &lit) {
                Ok(m) => {
                    let m = m.as_any().downcast_ref::<BooleanArray>().unwrap().clone();
                    (0..n).map(|i| m.is_null(i) || m.value(i)).collect()
                }
                Err(_) => vec![true; n],
            }
        };
        if matches!(field.data_type(), DataType::Boolean) && !matches!(op, Operator::Eq | Operator::NotEq) {
            return all;
        }
        let both = |x: Vec<bool>, y: Vec<bool>| x.into_iter().zip(y).map(|(a, b)| a && b).collect::<Vec<_>>();
        let either = |x: Vec<bool>, y: Vec<bool>| x.into_iter().zip(y).map(|(a, b)| a || b).collect::<Vec<_>>();
        match op {
            Operator::Eq => both(test(&min, Operator::LtEq), test(&max, Operator::GtEq)),
            Operator::NotEq => either(test(&min, Operator::NotEq), test(&max, Operator::NotEq)),
            Operator::Lt | Operator::LtEq => test(&min, op),
            Operator::Gt | Operator::GtEq => test(&max, op),
            _ => all,
        }
    }
}
