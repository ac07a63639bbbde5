use std::fmt;
use arrow::error::ArrowError;

pub type GenericError = Box<dyn std::error::Error + Send + Sync>;
pub type Result<T, E = DataFusionError> = std::result::Result<T, E>;

#[derive(Debug)]
pub enum DataFusionError {
    ArrowError(ArrowError),
    IoError(std::io::Error),
    NotImplemented(String),
    Internal(String),
    Plan(String),
    SchemaError(String),
    Execution(String),
    ResourcesExhausted(String),
    External(GenericError),
    Context(String, Box<DataFusionError>),
}

impl fmt::Display for DataFusionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::ArrowError(e) => write!(f, "Arrow error: {e}"),
            Self::IoError(e) => write!(f, "IO error: {e}"),
            Self::NotImplemented(e) => write!(f, "This feature is not implemented: {e}"),
            Self::Internal(e) => write!(f, "Internal error: {e}"),
            Self::Plan(e) => write!(f, "Error during planning: {e}"),
            Self::SchemaError(e) => write!(f, "Schema error: {e}"),
            Self::Execution(e) => write!(f, "Execution error: {e}"),
            Self::ResourcesExhausted(e) => write!(f, "Resources exhausted: {e}"),
            Self::External(e) => write!(f, "External error: {e}"),
            Self::Context(s, e) => write!(f, "{s}\ncaused by\n{e}"),
        }
    }
}
impl std::error::Error for DataFusionError {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match self {
            Self::ArrowError(e) => Some(e),
            Self::IoError(e) => Some(e),
            Self::External(e) => Some(e.as_ref()),
            Self::Context(_, e) => Some(e.as_ref()),
            _ => None,
        }
    }
}
impl DataFusionError {
    /// the innermost error that is still one of ours
    pub fn find_root(&self) -> &Self {
        match self {
            Self::Context(_, e) => e.find_root(),
            e => e,
        }
    }
    pub fn context(self, s: impl Into<String>) -> Self {
        Self::Context(s.into(), Box::new(self))
    }
}
impl From<std::io::Error> for DataFusionError {
    fn from(e: std::io::Error) -> Self {
        Self::IoError(e)
    }
}
impl From<ArrowError> for DataFusionError {
    fn from(e: ArrowError) -> Self {
        Self::ArrowError(e)
    }
}
impl From<DataFusionError> for ArrowError {
    fn from(e: DataFusionError) -> Self {
        match e {
            DataFusionError::ArrowError(e) => e,
            DataFusionError::External(e) => ArrowError::ExternalError(e),
            other => ArrowError::ExternalError(Box::new(other)),
        }
    }
}
impl From<GenericError> for DataFusionError {
    fn from(e: GenericError) -> Self {
        Self::External(e)
    }
}
