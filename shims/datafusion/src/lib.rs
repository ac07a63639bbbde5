//! Stand-in for the parts of the datafusion fork that cnosdb's storage-side
//! crates use.  Without the feature `full` only what common/utils needs.
#[cfg(not(feature = "full"))]
pub mod arrow {
    pub mod datatypes {
        pub use arrow_schema::TimeUnit;
    }
}

#[cfg(feature = "full")]
pub mod dfschema;
#[cfg(feature = "full")]
pub mod error;
#[cfg(feature = "full")]
pub mod cursor;
#[cfg(feature = "full")]
pub mod file_format;
#[cfg(feature = "full")]
pub mod memory_pool;
#[cfg(feature = "full")]
pub mod metrics;
#[cfg(feature = "full")]
pub mod pruning;
#[cfg(feature = "full")]
pub mod tree_node;
#[cfg(feature = "full")]
pub mod logical_expr;
#[cfg(feature = "full")]
pub mod physical_expr;
#[cfg(feature = "full")]
pub mod scalar;
#[cfg(feature = "full")]
pub mod sql;

#[cfg(feature = "full")]
pub use full::*;
#[cfg(feature = "full")]
mod full {
    pub use arrow;
    pub mod common {
        pub use crate::dfschema::{DFField, DFSchema, DFSchemaRef};
        pub use crate::error::{DataFusionError, Result};
        pub use crate::logical_expr::Column;
        pub use crate::scalar::ScalarValue;
        pub use crate::tree_node;
        pub mod cast {
            use crate::error::{DataFusionError, Result};
            pub fn as_boolean_array(a: &dyn arrow::array::Array) -> Result<&arrow::array::BooleanArray> {
                a.as_any().downcast_ref().ok_or_else(|| {
                    DataFusionError::Internal(format!("could not cast value of type {:?} to BooleanArray", a.data_type()))
                })
            }
        }
    }
    pub mod prelude {
        pub use crate::logical_expr::{and, col, in_list, lit, or, random, Column, Expr};
    }
    pub mod datasource {
        pub use crate::file_format;
        pub mod listing {
            pub use crate::file_format::ListingOptions;
        }
    }
    pub mod parquet {
        pub mod data_type {
            pub trait AsBytes {
                fn as_bytes(&self) -> &[u8];
            }
            impl AsBytes for [u8] {
                fn as_bytes(&self) -> &[u8] {
                    self
                }
            }
            impl AsBytes for u32 {
                fn as_bytes(&self) -> &[u8] {
                    // native byte order, as parquet does
                    unsafe { std::slice::from_raw_parts(self as *const u32 as *const u8, 4) }
                }
            }
        }
    }
    pub mod physical_optimizer {
        pub use crate::pruning;
    }
    pub mod physical_plan {
        pub use crate::metrics;
        pub use crate::physical_expr::{expressions, PhysicalExpr};
        pub mod common {
            #[derive(Debug)]
            pub struct AbortOnDropMany<T>(pub Vec<tokio::task::JoinHandle<T>>);
            impl<T> Drop for AbortOnDropMany<T> {
                fn drop(&mut self) {
                    for h in &self.0 {
                        h.abort();
                    }
                }
            }
        }
        pub mod sorts {
            pub use crate::cursor;
        }
        pub trait RecordBatchStream: futures::Stream<Item = crate::error::Result<arrow::record_batch::RecordBatch>> {
            fn schema(&self) -> arrow::datatypes::SchemaRef;
        }
        pub type SendableRecordBatchStream = std::pin::Pin<Box<dyn RecordBatchStream + Send>>;
    }
    pub mod execution {
        pub use crate::memory_pool;
        use crate::error::Result;
        use crate::logical_expr::{AggregateUDF, ScalarUDF, WindowUDF};
        use std::collections::HashSet;
        use std::sync::Arc;
        pub trait FunctionRegistry {
            fn udfs(&self) -> HashSet<String>;
            fn udf(&self, name: &str) -> Result<Arc<ScalarUDF>>;
            fn udaf(&self, name: &str) -> Result<Arc<AggregateUDF>>;
            fn udwf(&self, name: &str) -> Result<Arc<WindowUDF>>;
        }
    }
}
