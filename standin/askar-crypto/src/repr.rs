use crate::buffer::{SecretBytes, WriteBuffer};
use crate::error::{err, Error, ErrorKind};
use crate::random::KeyMaterial;

pub trait KeyGen {
    fn generate(rng: impl KeyMaterial) -> Result<Self, Error>
    where
        Self: Sized;
    fn random() -> Result<Self, Error>
    where
        Self: Sized,
    {
        Self::generate(crate::random::default_rng())
    }
}
pub trait KeySecretBytes {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error>
    where
        Self: Sized;
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O;
}
pub trait KeyPublicBytes {
    fn from_public_bytes(key: &[u8]) -> Result<Self, Error>
    where
        Self: Sized;
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O;
}
pub trait ToSecretBytes {
    fn secret_bytes_length(&self) -> Result<usize, Error>;
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
    fn to_secret_bytes(&self) -> Result<SecretBytes, Error> {
        let mut b = SecretBytes::with_capacity(64);
        self.write_secret_bytes(&mut b)?;
        Ok(b)
    }
}
impl<K: KeySecretBytes> ToSecretBytes for K {
    fn secret_bytes_length(&self) -> Result<usize, Error> {
        self.with_secret_bytes(|b| match b {
            Some(b) => Ok(b.len()),
            None => err(ErrorKind::MissingSecretKey),
        })
    }
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        self.with_secret_bytes(|b| match b {
            Some(b) => out.buffer_write(b),
            None => err(ErrorKind::MissingSecretKey),
        })
    }
}
pub trait ToPublicBytes {
    fn public_bytes_length(&self) -> Result<usize, Error>;
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
    fn to_public_bytes(&self) -> Result<SecretBytes, Error> {
        let mut b = SecretBytes::with_capacity(64);
        self.write_public_bytes(&mut b)?;
        Ok(b)
    }
}
impl<K: KeyPublicBytes> ToPublicBytes for K {
    fn public_bytes_length(&self) -> Result<usize, Error> {
        Ok(self.with_public_bytes(|b| b.len()))
    }
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        self.with_public_bytes(|b| out.buffer_write(b))
    }
}
