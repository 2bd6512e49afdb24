use crate::error::{err, Error, ErrorKind};
use std::fmt;

pub trait WriteBuffer {
    fn buffer_write(&mut self, data: &[u8]) -> Result<(), Error>;
}
pub trait ResizeBuffer: WriteBuffer + AsRef<[u8]> + AsMut<[u8]> {
    fn buffer_resize(&mut self, len: usize) -> Result<(), Error>;
    fn buffer_extend(&mut self, len: usize) -> Result<&mut [u8], Error> {
        let pos = self.as_ref().len();
        self.buffer_resize(pos + len)?;
        Ok(&mut self.as_mut()[pos..])
    }
}

/// The real type refuses nothing here either: it grows on demand and zeroizes on drop.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct SecretBytes(Vec<u8>);
impl SecretBytes {
    pub fn with_capacity(n: usize) -> Self {
        SecretBytes(Vec::with_capacity(n))
    }
    pub fn from_slice(b: &[u8]) -> Self {
        SecretBytes(b.to_vec())
    }
    pub fn extend_from_slice(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn into_vec(self) -> Vec<u8> {
        self.0
    }
}
impl std::ops::Deref for SecretBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for SecretBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for SecretBytes {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<Vec<u8>> for SecretBytes {
    fn from(v: Vec<u8>) -> Self {
        SecretBytes(v)
    }
}
impl From<&[u8]> for SecretBytes {
    fn from(v: &[u8]) -> Self {
        SecretBytes(v.to_vec())
    }
}
impl fmt::Debug for SecretBytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SecretBytes(<secret>)")
    }
}
impl WriteBuffer for SecretBytes {
    fn buffer_write(&mut self, d: &[u8]) -> Result<(), Error> {
        self.0.extend_from_slice(d);
        Ok(())
    }
}
impl ResizeBuffer for SecretBytes {
    fn buffer_resize(&mut self, len: usize) -> Result<(), Error> {
        self.0.resize(len, 0);
        Ok(())
    }
}
impl WriteBuffer for Vec<u8> {
    fn buffer_write(&mut self, d: &[u8]) -> Result<(), Error> {
        self.extend_from_slice(d);
        Ok(())
    }
}
impl ResizeBuffer for Vec<u8> {
    fn buffer_resize(&mut self, len: usize) -> Result<(), Error> {
        self.resize(len, 0);
        Ok(())
    }
}
#[allow(dead_code)]
pub(crate) fn need(b: &[u8], n: usize) -> Result<(), Error> {
    if b.len() < n {
        return err(ErrorKind::Invalid);
    }
    Ok(())
}
