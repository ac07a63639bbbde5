use std::borrow::Cow;
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TableReference<'a> {
    Bare { table: Cow<'a, str> },
    Partial { schema: Cow<'a, str>, table: Cow<'a, str> },
    Full { catalog: Cow<'a, str>, schema: Cow<'a, str>, table: Cow<'a, str> },
}
impl<'a> TableReference<'a> {
    pub fn bare(table: impl Into<Cow<'a, str>>) -> Self {
        Self::Bare { table: table.into() }
    }
    pub fn partial(schema: impl Into<Cow<'a, str>>, table: impl Into<Cow<'a, str>>) -> Self {
        Self::Partial { schema: schema.into(), table: table.into() }
    }
}
impl fmt::Display for TableReference<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Bare { table } => write!(f, "{table}"),
            Self::Partial { schema, table } => write!(f, "{schema}.{table}"),
            Self::Full { catalog, schema, table } => write!(f, "{catalog}.{schema}.{table}"),
        }
    }
}

pub mod sqlparser {
    pub mod ast {
        use std::fmt;
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum Value {
            Number(String, bool),
            SingleQuotedString(String),
            DoubleQuotedString(String),
            Boolean(bool),
            Null,
        }
        impl fmt::Display for Value {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    Self::Number(n, l) => write!(f, "{n}{}", if *l { "L" } else { "" }),
                    Self::SingleQuotedString(s) => write!(f, "'{}'", s.replace('\'', "''")),
                    Self::DoubleQuotedString(s) => write!(f, "\"{}\"", s.replace('"', "\"\"")),
                    Self::Boolean(b) => write!(f, "{b}"),
                    Self::Null => write!(f, "NULL"),
                }
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum ExactNumberInfo {
            None,
            Precision(u64),
            PrecisionAndScale(u64, u64),
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum TimezoneInfo {
            None,
            Tz,
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum DataType {
            Boolean,
            TinyInt(Option<u64>),
            SmallInt(Option<u64>),
            Int(Option<u64>),
            BigInt(Option<u64>),
            UnsignedTinyInt(Option<u64>),
            UnsignedSmallInt(Option<u64>),
            UnsignedInt(Option<u64>),
            UnsignedBigInt(Option<u64>),
            Float(Option<u64>),
            Double,
            Timestamp(Option<u64>, TimezoneInfo),
            Date,
            Time(Option<u64>, TimezoneInfo),
            Interval,
            Varbinary(Option<u64>),
            Binary(Option<u64>),
            Blob(Option<u64>),
            String,
            Decimal(ExactNumberInfo),
            BigDecimal(ExactNumberInfo),
        }
        impl fmt::Display for DataType {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let len = |f: &mut fmt::Formatter<'_>, n: &str, l: &Option<u64>, post: &str| match l {
                    Some(l) => write!(f, "{n}({l}){post}"),
                    None => write!(f, "{n}{post}"),
                };
                let tz = |z: &TimezoneInfo| if matches!(z, TimezoneInfo::Tz) { "TZ" } else { "" };
                let num = |e: &ExactNumberInfo| match e {
                    ExactNumberInfo::None => String::new(),
                    ExactNumberInfo::Precision(p) => format!("({p})"),
                    ExactNumberInfo::PrecisionAndScale(p, s) => format!("({p},{s})"),
                };
                match self {
                    Self::Boolean => write!(f, "BOOLEAN"),
                    Self::TinyInt(l) => len(f, "TINYINT", l, ""),
                    Self::SmallInt(l) => len(f, "SMALLINT", l, ""),
                    Self::Int(l) => len(f, "INT", l, ""),
                    Self::BigInt(l) => len(f, "BIGINT", l, ""),
                    Self::UnsignedTinyInt(l) => len(f, "TINYINT", l, " UNSIGNED"),
                    Self::UnsignedSmallInt(l) => len(f, "SMALLINT", l, " UNSIGNED"),
                    Self::UnsignedInt(l) => len(f, "INT", l, " UNSIGNED"),
                    Self::UnsignedBigInt(l) => len(f, "BIGINT", l, " UNSIGNED"),
                    Self::Float(l) => len(f, "FLOAT", l, ""),
                    Self::Double => write!(f, "DOUBLE"),
                    Self::Timestamp(l, z) => len(f, &format!("TIMESTAMP{}", tz(z)), l, ""),
                    Self::Date => write!(f, "DATE"),
                    Self::Time(l, z) => len(f, &format!("TIME{}", tz(z)), l, ""),
                    Self::Interval => write!(f, "INTERVAL"),
                    Self::Varbinary(l) => len(f, "VARBINARY", l, ""),
                    Self::Binary(l) => len(f, "BINARY", l, ""),
                    Self::Blob(l) => len(f, "BLOB", l, ""),
                    Self::String => write!(f, "STRING"),
                    Self::Decimal(e) => write!(f, "DECIMAL{}", num(e)),
                    Self::BigDecimal(e) => write!(f, "BIGDECIMAL{}", num(e)),
                }
            }
        }
    }
}
