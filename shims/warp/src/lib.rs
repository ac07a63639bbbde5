//! Stand-in for `warp`: the trait for rejections only.
pub mod reject {
    pub trait Reject: std::fmt::Debug + Send + Sync + 'static {}
}
