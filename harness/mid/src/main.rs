//! Checks of the crates that need the query engine's types.
#[cfg(any(feature = "c09", feature = "c10"))]
#[allow(dead_code)]
mod line;
#[cfg(feature = "c10")]
mod feeds;
#[cfg(feature = "c11")]
mod c11;

#[allow(unused_mut, clippy::vec_init_then_push)]
fn main() {
    let mut all = Vec::new();
    #[cfg(feature = "c09")]
    all.push(line::check());
    #[cfg(feature = "c10")]
    all.push(feeds::check());
    #[cfg(feature = "c11")]
    all.push(c11::check());
    pbt::main(all)
}
