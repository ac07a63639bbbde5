use arrow::array::*;
use arrow::datatypes::{ArrowNativeTypeOp, ArrowPrimitiveType};
use arrow_buffer::ScalarBuffer;
use std::cmp::Ordering;

pub trait Cursor: Ord {
    fn is_finished(&self) -> bool;
    fn advance(&mut self) -> usize;
}
pub trait FieldArray: Array + 'static {
    type Values: FieldValues;
    fn values(&self) -> Self::Values;
}
pub trait FieldValues: std::fmt::Debug + Send + Sync + 'static {
    type Value: ?Sized;
    fn len(&self) -> usize;
    fn compare(a: &Self::Value, b: &Self::Value) -> Ordering;
    fn value(&self, idx: usize) -> &Self::Value;
}
#[derive(Debug)]
pub struct PrimitiveValues<T: ArrowNativeTypeOp>(ScalarBuffer<T>);
impl<T: ArrowPrimitiveType> FieldArray for PrimitiveArray<T> {
    type Values = PrimitiveValues<T::Native>;
    fn values(&self) -> Self::Values {
        PrimitiveValues(PrimitiveArray::values(self).clone())
    }
}
impl<T: ArrowNativeTypeOp> FieldValues for PrimitiveValues<T> {
    type Value = T;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn compare(a: &T, b: &T) -> Ordering {
        T::compare(*a, *b)
    }
    fn value(&self, idx: usize) -> &T {
        &self.0[idx]
    }
}
