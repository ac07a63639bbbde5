//! Checks of the storage engine, the metadata store and the replication log.
#[allow(dead_code)]
mod cols;
#[allow(dead_code)]
mod metasrv;
#[allow(dead_code)]
mod frozen;
#[allow(dead_code)]
mod engine;
#[allow(dead_code)]
mod filt;
#[allow(dead_code)]
mod store;
#[allow(dead_code)]
mod hist;
#[cfg(feature = "c02")]
mod codec;
#[allow(dead_code)]
mod pings;
#[allow(dead_code)]
mod catalog;
#[allow(dead_code)]
mod metas;

#[cfg(feature = "c23")]
mod raftlog;

#[allow(unused_mut, clippy::vec_init_then_push)]
fn main() {
    let mut all = Vec::new();
    #[cfg(feature = "c01")]
    all.push(hist::c01());
    #[cfg(feature = "c02")]
    all.push(codec::check());
    #[cfg(feature = "c04")]
    all.push(hist::c04());
    #[cfg(feature = "c05")]
    all.push(hist::c05());
    #[cfg(feature = "c06")]
    all.push(hist::c06());
    #[cfg(feature = "c07")]
    all.push(hist::c07());
    #[cfg(feature = "c08")]
    all.push(hist::c08());
    #[cfg(feature = "c13")]
    all.push(metas::c13());
    #[cfg(feature = "c14")]
    all.push(metas::c14());
    #[cfg(feature = "c15")]
    all.push(metas::c15());
    #[cfg(feature = "c16")]
    all.push(metas::c16());
    #[cfg(feature = "c17")]
    all.push(metas::c17());
    #[cfg(feature = "c18")]
    all.push(hist::c18());
    #[cfg(feature = "c22")]
    all.push(hist::c22());
    #[cfg(feature = "c23")]
    all.push(raftlog::c23());
    pbt::main(all)
}
