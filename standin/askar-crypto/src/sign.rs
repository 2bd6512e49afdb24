use crate::buffer::{SecretBytes, WriteBuffer};
use crate::error::Error;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SignatureType {
    EdDSA,
    ES256,
    ES256K,
}
pub trait KeySign {
    fn write_signature(&self, message: &[u8], sig_type: Option<SignatureType>, out: &mut dyn WriteBuffer) -> Result<(), Error>;
    fn create_signature(&self, message: &[u8], sig_type: Option<SignatureType>) -> Result<SecretBytes, Error> {
        let mut b = SecretBytes::with_capacity(128);
        self.write_signature(message, sig_type, &mut b)?;
        Ok(b)
    }
}
pub trait KeySigVerify {
    fn verify_signature(&self, message: &[u8], signature: &[u8], sig_type: Option<SignatureType>) -> Result<bool, Error>;
}
