//! Stand-in for `openssl`: every RSA operation fails (RSA login is not exercised).
pub mod error {
    #[derive(Debug, Clone)] pub struct ErrorStack;
    impl std::fmt::Display for ErrorStack { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "openssl stand-in") } }
    impl std::error::Error for ErrorStack {}
}
pub mod rsa {
    use super::error::ErrorStack;
    pub struct Padding; impl Padding { pub const PKCS1: Padding = Padding; }
    pub struct Public; pub struct Private;
    pub struct Rsa<T>(std::marker::PhantomData<T>);
    impl Rsa<Public> {
        pub fn public_key_from_pem(_: &[u8]) -> Result<Rsa<Public>, ErrorStack> { Err(ErrorStack) }
    }
    impl Rsa<Private> {
        pub fn private_key_from_pem_passphrase(_: &[u8], _: &[u8]) -> Result<Rsa<Private>, ErrorStack> { Err(ErrorStack) }
        pub fn private_decrypt(&self, _: &[u8], _: &mut [u8], _: Padding) -> Result<usize, ErrorStack> { Err(ErrorStack) }
    }
    impl<T> Rsa<T> {
        pub fn size(&self) -> u32 { 256 }
        pub fn public_encrypt(&self, _: &[u8], _: &mut [u8], _: Padding) -> Result<usize, ErrorStack> { Err(ErrorStack) }
    }
}
