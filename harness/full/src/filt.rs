//! Filters over tags, time and fields: generated, evaluated by the harness in
//! SQL's three-valued logic, and given to the engine as physical expressions.
use std::cmp::Ordering;
use std::sync::Arc;

use arrow_schema::{DataType, SchemaRef, TimeUnit};
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::PhysicalExpr;
use datafusion::physical_plan::expressions::{BinaryExpr, Column, InListExpr, IsNotNullExpr, IsNullExpr, Literal, NotExpr};
use datafusion::scalar::ScalarValue;
use models::schema::tskv_table_schema::{ColumnType, TskvTableSchema};
use models::schema::TIME_FIELD_NAME;
use models::ValueType;
use pbt::{Fail, G};

use crate::cols::V;
use crate::engine::*;

#[derive(Clone, Debug)]
pub enum F {
    Cmp(String, Operator, V, bool),
    In(String, Vec<V>, bool),
    Null(String, bool),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
    Not(Box<F>),
    NullOf(Box<F>, bool),
}

const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq];

fn cmp(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::F(a), V::F(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)).expect("no NaN is generated"),
        _ => a.cmp(b),
    }
}

fn literal(g: &mut G, t: &ColumnType, known: &[V]) -> V {
    if !known.is_empty() && g.bool() {
        return g.pick(known).clone();
    }
    let n = g.range(-20, 20);
    match t {
        ColumnType::Tag => V::S(g.pick(&["a", "b", "aa", "c"]).to_string()),
        ColumnType::Time(_) => V::I(n),
        ColumnType::Field(ValueType::Float) => V::F((n as f64).to_bits()),
        ColumnType::Field(ValueType::Unsigned) => V::U(n.unsigned_abs()),
        ColumnType::Field(ValueType::Boolean) => V::B(n > 0),
        ColumnType::Field(ValueType::String) => V::S(g.pick(&["", "a", "b"]).to_string()),
        _ => V::I(n),
    }
}

impl F {
    /// Over the columns of a table; `values` are those the table ever held.
    pub fn any(g: &mut G, s: &TskvTableSchema, values: &dyn Fn(&str) -> Vec<V>, depth: u64) -> F {
        if depth > 0 && g.chance(1, 2) {
            let a = Box::new(F::any(g, s, values, depth - 1));
            return match g.weighted(&[5, 5, 2, 1]) {
                0 => F::And(a, Box::new(F::any(g, s, values, depth - 1))),
                1 => F::Or(a, Box::new(F::any(g, s, values, depth - 1))),
                2 => F::Not(a),
                _ => F::NullOf(a, g.bool()),
            };
        }
        let cols = s.columns();
        let fields: Vec<&_> = cols.iter().filter(|c| matches!(c.column_type, ColumnType::Field(_))).collect();
        let col = if !fields.is_empty() && g.chance(2, 3) { *g.pick(&fields) } else { g.pick(cols) };
        let name = col.name.clone();
        let known = values(&name);
        let ordered = !matches!(col.column_type, ColumnType::Field(ValueType::Boolean));
        match g.weighted(&[8, 2, 2]) {
            0 => {
                let op = *g.pick(&OPS[..if ordered { 6 } else { 2 }]);
                let v = literal(g, &col.column_type, &known);
                F::Cmp(name, op, v, g.chance(1, 4))
            }
            1 => {
                let n = 1 + g.below(3);
                let vs = (0..n).map(|_| literal(g, &col.column_type, &known)).collect();
                F::In(name, vs, g.chance(1, 3))
            }
            _ => F::Null(name, g.bool()),
        }
    }

    pub fn columns(&self, out: &mut Vec<String>) {
        match self {
            F::Cmp(n, ..) | F::In(n, ..) | F::Null(n, _) => out.push(n.clone()),
            F::And(a, b) | F::Or(a, b) => {
                a.columns(out);
                b.columns(out);
            }
            F::Not(a) | F::NullOf(a, _) => a.columns(out),
        }
    }

    pub fn eval(&self, tags: &Tags, ts: i64, row: &Row) -> Option<bool> {
        let get = |n: &str| -> Option<V> {
            if n == TIME_FIELD_NAME {
                return Some(V::I(ts));
            }
            tags.get(n).map(|t| V::S(t.clone())).or_else(|| row.get(n).cloned())
        };
        match self {
            F::Cmp(n, op, v, flip) => {
                let x = get(n)?;
                let o = if *flip { cmp(v, &x) } else { cmp(&x, v) };
                Some(match op {
                    Operator::Eq => o.is_eq(),
                    Operator::NotEq => o.is_ne(),
                    Operator::Lt => o.is_lt(),
                    Operator::LtEq => o.is_le(),
                    Operator::Gt => o.is_gt(),
                    _ => o.is_ge(),
                })
            }
            F::In(n, vs, neg) => {
                let x = get(n)?;
                Some(vs.iter().any(|v| cmp(&x, v).is_eq()) != *neg)
            }
            F::Null(n, yes) => Some(get(n).is_none() == *yes),
            F::And(a, b) => match (a.eval(tags, ts, row), b.eval(tags, ts, row)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            F::Or(a, b) => match (a.eval(tags, ts, row), b.eval(tags, ts, row)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            F::Not(a) => a.eval(tags, ts, row).map(|x| !x),
            F::NullOf(a, yes) => Some(a.eval(tags, ts, row).is_none() == *yes),
        }
    }

    pub fn physical(&self, s: &SchemaRef) -> Result<Arc<dyn PhysicalExpr>, Fail> {
        let col = |n: &str| -> Result<(Arc<dyn PhysicalExpr>, DataType), Fail> {
            let i = s.index_of(n).map_err(ferr("filter column"))?;
            Ok((Arc::new(Column::new(n, i)), s.field(i).data_type().clone()))
        };
        let lit = |v: &V, t: &DataType| -> Arc<dyn PhysicalExpr> {
            let v = match v {
                V::I(i) => match t {
                    DataType::Timestamp(TimeUnit::Nanosecond, _) => ScalarValue::TimestampNanosecond(Some(*i), None),
                    DataType::Timestamp(TimeUnit::Microsecond, _) => ScalarValue::TimestampMicrosecond(Some(*i), None),
                    DataType::Timestamp(TimeUnit::Millisecond, _) => ScalarValue::TimestampMillisecond(Some(*i), None),
                    DataType::Timestamp(TimeUnit::Second, _) => ScalarValue::TimestampSecond(Some(*i), None),
                    _ => ScalarValue::Int64(Some(*i)),
                },
                V::U(u) => ScalarValue::UInt64(Some(*u)),
                V::F(f) => ScalarValue::Float64(Some(f64::from_bits(*f))),
                V::B(b) => ScalarValue::Boolean(Some(*b)),
                V::S(s) => ScalarValue::Utf8(Some(s.clone())),
            };
            Arc::new(Literal::new(v))
        };
        Ok(match self {
            F::Cmp(n, op, v, flip) => {
                let (c, t) = col(n)?;
                let l = lit(v, &t);
                Arc::new(if *flip { BinaryExpr::new(l, *op, c) } else { BinaryExpr::new(c, *op, l) })
            }
            F::In(n, vs, neg) => {
                let (c, t) = col(n)?;
                Arc::new(InListExpr::new(c, vs.iter().map(|v| lit(v, &t)).collect(), *neg))
            }
            F::Null(n, true) => Arc::new(IsNullExpr::new(col(n)?.0)),
            F::Null(n, false) => Arc::new(IsNotNullExpr::new(col(n)?.0)),
            F::And(a, b) => Arc::new(BinaryExpr::new(a.physical(s)?, Operator::And, b.physical(s)?)),
            F::Or(a, b) => Arc::new(BinaryExpr::new(a.physical(s)?, Operator::Or, b.physical(s)?)),
            F::Not(a) => Arc::new(NotExpr::new(a.physical(s)?)),
            F::NullOf(a, true) => Arc::new(IsNullExpr::new(a.physical(s)?)),
            F::NullOf(a, false) => Arc::new(IsNotNullExpr::new(a.physical(s)?)),
        })
    }
}
