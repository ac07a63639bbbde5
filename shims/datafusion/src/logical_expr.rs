use crate::error::Result;
use crate::scalar::ScalarValue;
use crate::tree_node::{TreeNode, VisitRecursion};
use arrow::datatypes::DataType;
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column {
    pub relation: Option<String>,
    pub name: String,
}
impl Column {
    pub fn new(relation: Option<impl Into<String>>, name: impl Into<String>) -> Self {
        Self { relation: relation.map(|r| r.into()), name: name.into() }
    }
    pub fn from_name(name: impl Into<String>) -> Self {
        Self { relation: None, name: name.into() }
    }
    pub fn from_qualified_name(s: impl Into<String>) -> Self {
        let s = s.into();
        match s.split_once('.') {
            Some((r, n)) => Self { relation: Some(r.into()), name: n.into() },
            None => Self::from_name(s),
        }
    }
    pub fn flat_name(&self) -> String {
        match &self.relation {
            Some(r) => format!("{}.{}", r, self.name),
            None => self.name.clone(),
        }
    }
}
impl From<&str> for Column {
    fn from(s: &str) -> Self {
        Self::from_qualified_name(s)
    }
}
impl fmt::Display for Column {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.flat_name())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Operator {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
    Plus,
    Minus,
    Multiply,
    Divide,
    Modulo,
    And,
    Or,
    IsDistinctFrom,
    IsNotDistinctFrom,
    RegexMatch,
    RegexIMatch,
    RegexNotMatch,
    RegexNotIMatch,
    BitwiseAnd,
    BitwiseOr,
    BitwiseXor,
    BitwiseShiftRight,
    BitwiseShiftLeft,
    StringConcat,
}
impl Operator {
    pub fn text(&self) -> &'static str {
        use Operator::*;
        match self {
            Eq => "=",
            NotEq => "!=",
            Lt => "<",
            LtEq => "<=",
            Gt => ">",
            GtEq => ">=",
            Plus => "+",
            Minus => "-",
            Multiply => "*",
            Divide => "/",
            Modulo => "%",
            And => "AND",
            Or => "OR",
            IsDistinctFrom => "IS DISTINCT FROM",
            IsNotDistinctFrom => "IS NOT DISTINCT FROM",
            RegexMatch => "~",
            RegexIMatch => "~*",
            RegexNotMatch => "!~",
            RegexNotIMatch => "!~*",
            BitwiseAnd => "&",
            BitwiseOr => "|",
            BitwiseXor => "#",
            BitwiseShiftRight => ">>",
            BitwiseShiftLeft => "<<",
            StringConcat => "||",
        }
    }
    pub fn parse(s: &str) -> Option<Self> {
        use Operator::*;
        [Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom,
         RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftRight,
         BitwiseShiftLeft, StringConcat].into_iter().find(|o| o.text() == s)
    }
}
impl fmt::Display for Operator {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct BinaryExpr {
    pub left: Box<Expr>,
    pub op: Operator,
    pub right: Box<Expr>,
}
impl BinaryExpr {
    pub fn new(left: Box<Expr>, op: Operator, right: Box<Expr>) -> Self {
        Self { left, op, right }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Like {
    pub negated: bool,
    pub expr: Box<Expr>,
    pub pattern: Box<Expr>,
    pub escape_char: Option<char>,
}
impl Like {
    pub fn new(negated: bool, expr: Box<Expr>, pattern: Box<Expr>, escape_char: Option<char>) -> Self {
        Self { negated, expr, pattern, escape_char }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Between {
    pub expr: Box<Expr>,
    pub negated: bool,
    pub low: Box<Expr>,
    pub high: Box<Expr>,
}
impl Between {
    pub fn new(expr: Box<Expr>, negated: bool, low: Box<Expr>, high: Box<Expr>) -> Self {
        Self { expr, negated, low, high }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Cast {
    pub expr: Box<Expr>,
    pub data_type: DataType,
}
impl Cast {
    pub fn new(expr: Box<Expr>, data_type: DataType) -> Self {
        Self { expr, data_type }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct InList {
    pub expr: Box<Expr>,
    pub list: Vec<Expr>,
    pub negated: bool,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum BuiltinScalarFunction {
    Random,
    Abs,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ScalarFunction {
    pub fun: BuiltinScalarFunction,
    pub args: Vec<Expr>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Expr {
    Alias(Box<Expr>, String),
    Column(Column),
    Literal(ScalarValue),
    BinaryExpr(BinaryExpr),
    Like(Like),
    ILike(Like),
    SimilarTo(Like),
    Not(Box<Expr>),
    IsNotNull(Box<Expr>),
    IsNull(Box<Expr>),
    IsTrue(Box<Expr>),
    IsFalse(Box<Expr>),
    IsUnknown(Box<Expr>),
    IsNotTrue(Box<Expr>),
    IsNotFalse(Box<Expr>),
    IsNotUnknown(Box<Expr>),
    Negative(Box<Expr>),
    Between(Between),
    Cast(Cast),
    TryCast(Cast),
    ScalarFunction(ScalarFunction),
    InList(InList),
    Wildcard,
}

impl Expr {
    fn children(&self) -> Vec<&Expr> {
        use Expr::*;
        match self {
            Alias(e, _) | Not(e) | IsNotNull(e) | IsNull(e) | IsTrue(e) | IsFalse(e) | IsUnknown(e) | IsNotTrue(e)
            | IsNotFalse(e) | IsNotUnknown(e) | Negative(e) => vec![e],
            Column(_) | Literal(_) | Wildcard => vec![],
            BinaryExpr(b) => vec![&b.left, &b.right],
            Like(l) | ILike(l) | SimilarTo(l) => vec![&l.expr, &l.pattern],
            Between(b) => vec![&b.expr, &b.low, &b.high],
            Cast(c) | TryCast(c) => vec![&c.expr],
            ScalarFunction(s) => s.args.iter().collect(),
            InList(i) => std::iter::once(i.expr.as_ref()).chain(i.list.iter()).collect(),
        }
    }
    pub fn eq(self, o: Expr) -> Expr {
        binary_expr(self, Operator::Eq, o)
    }
    pub fn not_eq(self, o: Expr) -> Expr {
        binary_expr(self, Operator::NotEq, o)
    }
    pub fn lt(self, o: Expr) -> Expr {
        binary_expr(self, Operator::Lt, o)
    }
    pub fn lt_eq(self, o: Expr) -> Expr {
        binary_expr(self, Operator::LtEq, o)
    }
    pub fn gt(self, o: Expr) -> Expr {
        binary_expr(self, Operator::Gt, o)
    }
    pub fn gt_eq(self, o: Expr) -> Expr {
        binary_expr(self, Operator::GtEq, o)
    }
    pub fn and(self, o: Expr) -> Expr {
        binary_expr(self, Operator::And, o)
    }
    pub fn or(self, o: Expr) -> Expr {
        binary_expr(self, Operator::Or, o)
    }
}
impl std::ops::Not for Expr {
    type Output = Expr;
    fn not(self) -> Expr {
        Expr::Not(Box::new(self))
    }
}
impl TreeNode for Expr {
    fn apply_children<F: FnMut(&Self) -> Result<VisitRecursion>>(&self, op: &mut F) -> Result<VisitRecursion> {
        for c in self.children() {
            match op(c)? {
                VisitRecursion::Continue => {}
                VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
                VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
            }
        }
        Ok(VisitRecursion::Continue)
    }
    fn map_children<F: FnMut(Self) -> Result<Self>>(self, _op: F) -> Result<Self> {
        unimplemented!("datafusion stand-in: rewriting logical expressions")
    }
}
impl fmt::Display for Expr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use Expr::*;
        match self {
            Alias(e, a) => write!(f, "{e} AS {a}"),
            Column(c) => write!(f, "{c}"),
            Literal(v) => write!(f, "{v:?}"),
            BinaryExpr(b) => write!(f, "({} {} {})", b.left, b.op, b.right),
            Like(l) => write!(f, "{} {}LIKE {}", l.expr, if l.negated { "NOT " } else { "" }, l.pattern),
            ILike(l) => write!(f, "{} {}ILIKE {}", l.expr, if l.negated { "NOT " } else { "" }, l.pattern),
            SimilarTo(l) => write!(f, "{} {}SIMILAR TO {}", l.expr, if l.negated { "NOT " } else { "" }, l.pattern),
            Not(e) => write!(f, "NOT {e}"),
            IsNotNull(e) => write!(f, "{e} IS NOT NULL"),
            IsNull(e) => write!(f, "{e} IS NULL"),
            IsTrue(e) => write!(f, "{e} IS TRUE"),
            IsFalse(e) => write!(f, "{e} IS FALSE"),
            IsUnknown(e) => write!(f, "{e} IS UNKNOWN"),
            IsNotTrue(e) => write!(f, "{e} IS NOT TRUE"),
            IsNotFalse(e) => write!(f, "{e} IS NOT FALSE"),
            IsNotUnknown(e) => write!(f, "{e} IS NOT UNKNOWN"),
            Negative(e) => write!(f, "(- {e})"),
            Between(b) => write!(f, "{} {}BETWEEN {} AND {}", b.expr, if b.negated { "NOT " } else { "" }, b.low, b.high),
            Cast(c) => write!(f, "CAST({} AS {:?})", c.expr, c.data_type),
            TryCast(c) => write!(f, "TRY_CAST({} AS {:?})", c.expr, c.data_type),
            ScalarFunction(s) => write!(f, "{:?}({:?})", s.fun, s.args),
            InList(i) => write!(f, "{} {}IN ({:?})", i.expr, if i.negated { "NOT " } else { "" }, i.list),
            Wildcard => write!(f, "*"),
        }
    }
}

pub fn binary_expr(l: Expr, op: Operator, r: Expr) -> Expr {
    Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r)))
}
pub fn and(l: Expr, r: Expr) -> Expr {
    binary_expr(l, Operator::And, r)
}
pub fn or(l: Expr, r: Expr) -> Expr {
    binary_expr(l, Operator::Or, r)
}
pub fn col(name: &str) -> Expr {
    Expr::Column(Column::from(name))
}
pub fn lit(v: impl Into<ScalarValue>) -> Expr {
    Expr::Literal(v.into())
}
pub fn in_list(e: Expr, list: Vec<Expr>, negated: bool) -> Expr {
    Expr::InList(InList { expr: Box::new(e), list, negated })
}
pub fn random() -> Expr {
    Expr::ScalarFunction(ScalarFunction { fun: BuiltinScalarFunction::Random, args: vec![] })
}
pub mod expr_fn {
    pub use super::{and, col, in_list, or};
}
pub struct ScalarUDF;
pub struct AggregateUDF;
pub struct WindowUDF;
