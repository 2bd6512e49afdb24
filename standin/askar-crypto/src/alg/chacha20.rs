use crate::{
    alg::aes::aead_fail,
    buffer::ResizeBuffer,
    encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams, NonceBytes},
    error::{err, Error, ErrorKind},
    kdf::{FromKeyDerivation, KeyDerivation},
    prim_chacha,
    random::{fill_random, KeyMaterial},
    repr::{KeyGen, KeySecretBytes},
};
use std::{fmt, marker::PhantomData};

#[derive(Debug)]
pub struct XC20P;
pub struct Chacha20Key<T>(Vec<u8>, PhantomData<T>);
impl<T> Clone for Chacha20Key<T> {
    fn clone(&self) -> Self {
        Chacha20Key(self.0.clone(), PhantomData)
    }
}
impl<T> fmt::Debug for Chacha20Key<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Chacha20Key(XC20P)")
    }
}
impl KeyGen for Chacha20Key<XC20P> {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut k = vec![0; 32];
        rng.read_okm(&mut k);
        Ok(Chacha20Key(k, PhantomData))
    }
}
impl KeySecretBytes for Chacha20Key<XC20P> {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData);
        }
        Ok(Chacha20Key(key.to_vec(), PhantomData))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(Some(&self.0))
    }
}
impl FromKeyDerivation for Chacha20Key<XC20P> {
    fn from_key_derivation<D: KeyDerivation>(mut d: D) -> Result<Self, Error> {
        let mut k = vec![0; 32];
        d.derive_key_bytes(&mut k)?;
        Ok(Chacha20Key(k, PhantomData))
    }
}
impl KeyAeadInPlace for Chacha20Key<XC20P> {
    fn encrypt_in_place(&self, buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error> {
        if nonce.len() != 24 {
            return err(ErrorKind::InvalidNonce);
        }
        let tag = prim_chacha::xc20p_seal(&self.0, nonce, aad, buf.as_mut());
        let n = buf.as_ref().len();
        buf.buffer_write(&tag)?;
        Ok(n)
    }
    fn decrypt_in_place(&self, buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error> {
        if nonce.len() != 24 {
            return err(ErrorKind::InvalidNonce);
        }
        let n = buf.as_ref().len();
        if n < 16 {
            return err(ErrorKind::Encryption);
        }
        let tag = buf.as_ref()[n - 16..].to_vec();
        if !prim_chacha::xc20p_open(&self.0, nonce, aad, &mut buf.as_mut()[..n - 16], &tag) {
            return aead_fail();
        }
        buf.buffer_resize(n - 16)
    }
    fn aead_params(&self) -> KeyAeadParams {
        KeyAeadParams { nonce_length: 24, tag_length: 16 }
    }
}
impl KeyAeadMeta for Chacha20Key<XC20P> {
    type Nonce = NonceBytes;
    fn random_nonce() -> NonceBytes {
        let mut n = vec![0; 24];
        fill_random(&mut n);
        NonceBytes(n)
    }
}
