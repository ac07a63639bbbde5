use crate::error::{DataFusionError, Result};
use crate::logical_expr::Column;
use arrow::datatypes::{DataType, Field, FieldRef, Schema};
use std::collections::HashMap;
use std::sync::Arc;

pub type DFSchemaRef = Arc<DFSchema>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFField {
    qualifier: Option<String>,
    field: FieldRef,
}
impl DFField {
    pub fn from_qualified(q: impl ToString, field: impl Into<FieldRef>) -> Self {
        Self { qualifier: Some(q.to_string()), field: field.into() }
    }
    pub fn new_unqualified(name: &str, t: DataType, nullable: bool) -> Self {
        Self { qualifier: None, field: Arc::new(Field::new(name, t, nullable)) }
    }
    pub fn name(&self) -> &String {
        self.field.name()
    }
    pub fn data_type(&self) -> &DataType {
        self.field.data_type()
    }
    pub fn field(&self) -> &FieldRef {
        &self.field
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFSchema {
    fields: Vec<DFField>,
    metadata: HashMap<String, String>,
}
impl DFSchema {
    pub fn empty() -> Self {
        Self { fields: vec![], metadata: HashMap::new() }
    }
    pub fn new_with_metadata(fields: Vec<DFField>, metadata: HashMap<String, String>) -> Result<Self> {
        let mut seen = std::collections::HashSet::new();
        for f in &fields {
            if !seen.insert((f.qualifier.clone(), f.name().clone())) {
                return Err(DataFusionError::SchemaError(format!("Schema contains duplicate field name {}", f.name())));
            }
        }
        Ok(Self { fields, metadata })
    }
    pub fn fields(&self) -> &Vec<DFField> {
        &self.fields
    }
    pub fn metadata(&self) -> &HashMap<String, String> {
        &self.metadata
    }
    pub fn index_of_column(&self, c: &Column) -> Result<usize> {
        self.fields
            .iter()
            .position(|f| f.name() == &c.name && (c.relation.is_none() || f.qualifier.is_none() || c.relation == f.qualifier))
            .ok_or_else(|| DataFusionError::SchemaError(format!("No field named {}", c.name)))
    }
}
impl TryFrom<Schema> for DFSchema {
    type Error = DataFusionError;
    fn try_from(s: Schema) -> Result<Self> {
        Self::new_with_metadata(
            s.fields.iter().map(|f| DFField { qualifier: None, field: f.clone() }).collect(),
            s.metadata.clone(),
        )
    }
}
