//! One binary for the checks of the crates that build on their own.  Each
//! property has a feature, so that a change of an interface one of them uses
//! does not take the others down with it (run.py falls back to a single one).
#[cfg(feature = "c30")]
mod caches;
#[cfg(feature = "c31")]
mod limiter;
#[cfg(feature = "c32")]
mod conf;
#[cfg(feature = "c33")]
mod http;
#[cfg(feature = "c34")]
mod metric;
#[cfg(feature = "c35")]
mod tracectx;
#[cfg(feature = "c39")]
mod wire;
#[allow(dead_code)]
mod clock;
#[cfg(any(feature = "c36", feature = "c37", feature = "c38"))]
mod util;

#[allow(unused_mut, clippy::vec_init_then_push)]
fn main() {
    let mut all = Vec::new();
    #[cfg(feature = "c30")]
    all.push(caches::check());
    #[cfg(feature = "c31")]
    all.push(limiter::check());
    #[cfg(feature = "c32")]
    all.push(conf::check());
    #[cfg(feature = "c33")]
    all.push(http::check());
    #[cfg(feature = "c34")]
    all.push(metric::check());
    #[cfg(feature = "c35")]
    all.push(tracectx::check());
    #[cfg(feature = "c36")]
    all.push(util::hashing());
    #[cfg(feature = "c37")]
    all.push(util::time());
    #[cfg(feature = "c38")]
    all.push(util::seqs());
    #[cfg(feature = "c39")]
    all.push(wire::check());
    pbt::main(all)
}
