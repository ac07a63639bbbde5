//! Stand-in for `bcrypt` (NOT cryptographic): salted, non-deterministic-looking, verifiable.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)]
pub struct BcryptError(pub String);
impl std::fmt::Display for BcryptError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for BcryptError {}
static SALT: AtomicU64 = AtomicU64::new(1);
fn h(salt: u64, p: &[u8]) -> u64 { let mut d = DefaultHasher::new(); salt.hash(&mut d); p.hash(&mut d); d.finish() }
pub fn hash<P: AsRef<[u8]>>(password: P, _cost: u32) -> Result<String, BcryptError> {
    let s = SALT.fetch_add(1, Ordering::Relaxed);
    Ok(format!("$2s$12${:016x}{:016x}", s, h(s, password.as_ref())))
}
pub fn verify<P: AsRef<[u8]>>(password: P, hash: &str) -> Result<bool, BcryptError> {
    let body = hash.strip_prefix("$2s$12$").filter(|b| b.len() == 32 && b.is_ascii()).ok_or_else(|| BcryptError("invalid hash".into()))?;
    let s = u64::from_str_radix(&body[..16], 16).map_err(|e| BcryptError(e.to_string()))?;
    Ok(format!("{:016x}", h(s, password.as_ref())) == body[16..])
}
