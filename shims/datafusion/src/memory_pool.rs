use crate::error::Result;
use std::sync::Arc;

pub trait MemoryPool: Send + Sync + std::fmt::Debug {
    fn register(&self, _consumer: &MemoryConsumer) {}
    fn unregister(&self, _consumer: &MemoryConsumer) {}
    fn grow(&self, reservation: &MemoryReservation, additional: usize);
    fn shrink(&self, reservation: &MemoryReservation, shrink: usize);
    fn try_grow(&self, reservation: &MemoryReservation, additional: usize) -> Result<()>;
    fn reserved(&self) -> usize;
}
#[derive(Debug)]
pub struct MemoryConsumer {
    name: String,
}
impl MemoryConsumer {
    pub fn new(name: impl Into<String>) -> Self {
        Self { name: name.into() }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn register(self, pool: &Arc<dyn MemoryPool>) -> MemoryReservation {
        pool.register(&self);
        MemoryReservation { consumer: self, size: 0, policy: pool.clone() }
    }
}
#[derive(Debug)]
pub struct MemoryReservation {
    consumer: MemoryConsumer,
    size: usize,
    policy: Arc<dyn MemoryPool>,
}
impl MemoryReservation {
    pub fn size(&self) -> usize {
        self.size
    }
    pub fn free(&mut self) -> usize {
        let s = self.size;
        if s != 0 {
            self.shrink(s)
        }
        s
    }
    pub fn shrink(&mut self, n: usize) {
        let new = self.size.checked_sub(n).unwrap();
        self.policy.shrink(self, n);
        self.size = new;
    }
    pub fn grow(&mut self, n: usize) {
        self.policy.grow(self, n);
        self.size += n;
    }
    pub fn try_grow(&mut self, n: usize) -> Result<()> {
        self.policy.try_grow(self, n)?;
        self.size += n;
        Ok(())
    }
    pub fn resize(&mut self, n: usize) {
        use std::cmp::Ordering::*;
        match n.cmp(&self.size) {
            Greater => self.grow(n - self.size),
            Less => self.shrink(self.size - n),
            Equal => {}
        }
    }
}
impl Drop for MemoryReservation {
    fn drop(&mut self) {
        self.free();
        self.policy.unregister(&self.consumer);
    }
}
