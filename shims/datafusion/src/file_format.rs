use crate::error::{DataFusionError, Result};
use std::str::FromStr;
use std::sync::Arc;

pub mod file_type {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum FileType {
        CSV,
        PARQUET,
        AVRO,
        JSON,
        ARROW,
    }
    impl FromStr for FileType {
        type Err = DataFusionError;
        fn from_str(s: &str) -> Result<Self> {
            match s.to_uppercase().as_str() {
                "ARROW" => Ok(Self::ARROW),
                "AVRO" => Ok(Self::AVRO),
                "PARQUET" => Ok(Self::PARQUET),
                "CSV" => Ok(Self::CSV),
                "JSON" | "NDJSON" => Ok(Self::JSON),
                _ => Err(DataFusionError::NotImplemented(format!("Unknown FileType: {s}"))),
            }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct FileCompressionType;
    impl FileCompressionType {
        pub const UNCOMPRESSED: Self = Self;
        pub const GZIP: Self = Self;
        pub const BZIP2: Self = Self;
        pub const XZ: Self = Self;
        pub const ZSTD: Self = Self;
    }
    impl FromStr for FileCompressionType {
        type Err = DataFusionError;
        fn from_str(_: &str) -> Result<Self> {
            Ok(Self)
        }
    }
}
use file_type::FileCompressionType;
pub trait FileFormat: Send + Sync + std::fmt::Debug {}
macro_rules! fmts {
    ($($m:ident $t:ident),*) => {$(
        pub mod $m {
            use super::*;
            #[derive(Debug, Default)]
            pub struct $t;
            impl FileFormat for $t {}
            impl $t {
                pub fn with_has_header(self, _: bool) -> Self { self }
                pub fn with_delimiter(self, _: u8) -> Self { self }
                pub fn with_file_compression_type(self, _: FileCompressionType) -> Self { self }
            }
        }
    )*};
}
fmts!(csv CsvFormat, parquet ParquetFormat, avro AvroFormat, json JsonFormat);

#[derive(Debug)]
pub struct ListingOptions {
    pub format: Arc<dyn FileFormat>,
    pub target_partitions: usize,
}
impl ListingOptions {
    pub fn new(format: Arc<dyn FileFormat>) -> Self {
        Self { format, target_partitions: 1 }
    }
    pub fn with_target_partitions(mut self, n: usize) -> Self {
        self.target_partitions = n;
        self
    }
}
