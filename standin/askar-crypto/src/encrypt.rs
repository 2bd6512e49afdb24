use crate::buffer::ResizeBuffer;
use crate::error::Error;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct KeyAeadParams {
    pub nonce_length: usize,
    pub tag_length: usize,
}
pub trait KeyAeadInPlace {
    /// Encrypts in place, appends the tag, returns the length of the ciphertext proper.
    fn encrypt_in_place(&self, buffer: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error>;
    fn decrypt_in_place(&self, buffer: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error>;
    fn aead_params(&self) -> KeyAeadParams;
    fn aead_padding(&self, _len: usize) -> usize {
        0
    }
}
pub trait KeyAeadMeta {
    type Nonce: AsRef<[u8]> + std::ops::Deref<Target = [u8]>;
    fn random_nonce() -> NonceBytes;
}
/// Fixed-capacity nonce value (the real crate returns a GenericArray).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NonceBytes(pub(crate) Vec<u8>);
impl std::ops::Deref for NonceBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for NonceBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
