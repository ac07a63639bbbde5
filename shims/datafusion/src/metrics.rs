use arrow::record_batch::RecordBatch;
use chrono::{DateTime, Utc};
use parking_lot::Mutex;
use std::borrow::Cow;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Default)]
pub struct Count(Arc<AtomicUsize>);
impl Count {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&self, n: usize) {
        self.0.fetch_add(n, Ordering::Relaxed);
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
}
#[derive(Debug, Clone, Default)]
pub struct Gauge(Arc<AtomicUsize>);
impl Gauge {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&self, n: usize) {
        self.0.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sub(&self, n: usize) {
        self.0.fetch_sub(n, Ordering::Relaxed);
    }
    pub fn set(&self, n: usize) -> usize {
        self.0.swap(n, Ordering::Relaxed)
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
}
#[derive(Debug, Clone, Default)]
pub struct Time(Arc<AtomicUsize>);
pub struct ScopedTimerGuard<'a> {
    t: &'a Time,
    start: Option<Instant>,
}
impl Time {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
    pub fn add_duration(&self, d: Duration) {
        self.0.fetch_add((d.as_nanos() as usize).max(1), Ordering::Relaxed);
    }
    pub fn timer(&self) -> ScopedTimerGuard<'_> {
        ScopedTimerGuard { t: self, start: Some(Instant::now()) }
    }
}
impl ScopedTimerGuard<'_> {
    pub fn stop(&mut self) {
        if let Some(s) = self.start.take() {
            self.t.add_duration(s.elapsed());
        }
    }
    pub fn done(mut self) {
        self.stop()
    }
}
impl Drop for ScopedTimerGuard<'_> {
    fn drop(&mut self) {
        self.stop()
    }
}
#[derive(Debug, Clone, Default)]
pub struct Timestamp(Arc<Mutex<Option<DateTime<Utc>>>>);
impl Timestamp {
    pub fn record(&self) {
        *self.0.lock() = Some(Utc::now());
    }
    pub fn value(&self) -> Option<DateTime<Utc>> {
        *self.0.lock()
    }
}

#[derive(Debug, Clone)]
pub enum MetricValue {
    OutputRows(Count),
    ElapsedCompute(Time),
    Count { name: Cow<'static, str>, count: Count },
    Gauge { name: Cow<'static, str>, gauge: Gauge },
    Time { name: Cow<'static, str>, time: Time },
    StartTimestamp(Timestamp),
    EndTimestamp(Timestamp),
}
impl fmt::Display for MetricValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl MetricValue {
    pub fn name(&self) -> &str {
        match self {
            Self::OutputRows(_) => "output_rows",
            Self::ElapsedCompute(_) => "elapsed_compute",
            Self::Count { name, .. } | Self::Gauge { name, .. } | Self::Time { name, .. } => name,
            Self::StartTimestamp(_) => "start_timestamp",
            Self::EndTimestamp(_) => "end_timestamp",
        }
    }
}
#[derive(Debug)]
pub struct Metric {
    value: MetricValue,
}
impl Metric {
    pub fn value(&self) -> &MetricValue {
        &self.value
    }
}
#[derive(Debug, Clone, Default)]
pub struct MetricsSet {
    metrics: Vec<Arc<Metric>>,
}
impl MetricsSet {
    pub fn iter(&self) -> impl Iterator<Item = &Arc<Metric>> {
        self.metrics.iter()
    }
    pub fn aggregate_by_name(&self) -> Self {
        self.clone()
    }
    pub fn sorted_for_display(self) -> Self {
        self
    }
    pub fn timestamps_removed(mut self) -> Self {
        self.metrics.retain(|m| !matches!(m.value, MetricValue::StartTimestamp(_) | MetricValue::EndTimestamp(_)));
        self
    }
}
impl fmt::Display for MetricsSet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let v: Vec<String> = self
            .metrics
            .iter()
            .map(|m| {
                let n = match &m.value {
                    MetricValue::OutputRows(c) | MetricValue::Count { count: c, .. } => c.value(),
                    MetricValue::Gauge { gauge, .. } => gauge.value(),
                    MetricValue::ElapsedCompute(t) | MetricValue::Time { time: t, .. } => t.value(),
                    _ => 0,
                };
                format!("{}={}", m.value.name(), n)
            })
            .collect();
        write!(f, "{}", v.join(", "))
    }
}
#[derive(Debug, Clone, Default)]
pub struct ExecutionPlanMetricsSet {
    inner: Arc<Mutex<MetricsSet>>,
}
impl ExecutionPlanMetricsSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn clone_inner(&self) -> MetricsSet {
        self.inner.lock().clone()
    }
    fn push(&self, value: MetricValue) {
        self.inner.lock().metrics.push(Arc::new(Metric { value }));
    }
}
pub struct MetricBuilder<'a> {
    set: &'a ExecutionPlanMetricsSet,
}
impl<'a> MetricBuilder<'a> {
    pub fn new(set: &'a ExecutionPlanMetricsSet) -> Self {
        Self { set }
    }
    pub fn counter(self, name: impl Into<Cow<'static, str>>, _partition: usize) -> Count {
        let count = Count::new();
        self.set.push(MetricValue::Count { name: name.into(), count: count.clone() });
        count
    }
    pub fn gauge(self, name: impl Into<Cow<'static, str>>, _partition: usize) -> Gauge {
        let gauge = Gauge::new();
        self.set.push(MetricValue::Gauge { name: name.into(), gauge: gauge.clone() });
        gauge
    }
    pub fn subset_time(self, name: impl Into<Cow<'static, str>>, _partition: usize) -> Time {
        let time = Time::new();
        self.set.push(MetricValue::Time { name: name.into(), time: time.clone() });
        time
    }
}
#[derive(Debug, Clone)]
pub struct BaselineMetrics {
    end_time: Timestamp,
    elapsed_compute: Time,
    output_rows: Count,
}
impl BaselineMetrics {
    pub fn new(set: &ExecutionPlanMetricsSet, _partition: usize) -> Self {
        let (start, end_time, elapsed_compute, output_rows) = (Timestamp::default(), Timestamp::default(), Time::new(), Count::new());
        start.record();
        set.push(MetricValue::StartTimestamp(start));
        set.push(MetricValue::EndTimestamp(end_time.clone()));
        set.push(MetricValue::ElapsedCompute(elapsed_compute.clone()));
        set.push(MetricValue::OutputRows(output_rows.clone()));
        Self { end_time, elapsed_compute, output_rows }
    }
    pub fn elapsed_compute(&self) -> &Time {
        &self.elapsed_compute
    }
    pub fn output_rows(&self) -> &Count {
        &self.output_rows
    }
    pub fn done(&self) {
        self.end_time.record()
    }
    pub fn record_output(&self, n: usize) {
        self.output_rows.add(n)
    }
}
pub trait RecordOutput {
    fn record_output(self, bm: &BaselineMetrics) -> Self;
}
impl RecordOutput for &RecordBatch {
    fn record_output(self, bm: &BaselineMetrics) -> Self {
        bm.record_output(self.num_rows());
        self
    }
}
