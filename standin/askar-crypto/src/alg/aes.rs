use crate::{
    buffer::ResizeBuffer,
    encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams, NonceBytes},
    error::{err, errm, Error, ErrorKind},
    kdf::{FromKeyDerivation, KeyDerivation},
    prim_aes, prim_hash,
    random::{fill_random, KeyMaterial},
    repr::{KeyGen, KeySecretBytes},
};
use std::{fmt, marker::PhantomData};

pub trait AesType {
    const KEY: usize;
    const NONCE: usize;
    const TAG: usize;
    const NAME: &'static str;
    fn seal(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error>;
    fn open(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error>;
}

pub struct AesKey<T: AesType>(Vec<u8>, PhantomData<T>);
impl<T: AesType> Clone for AesKey<T> {
    fn clone(&self) -> Self {
        AesKey(self.0.clone(), PhantomData)
    }
}
impl<T: AesType> PartialEq for AesKey<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: AesType> fmt::Debug for AesKey<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "AesKey({})", T::NAME)
    }
}
impl<T: AesType> KeyGen for AesKey<T> {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut k = vec![0; T::KEY];
        rng.read_okm(&mut k);
        Ok(AesKey(k, PhantomData))
    }
}
impl<T: AesType> KeySecretBytes for AesKey<T> {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != T::KEY {
            return err(ErrorKind::InvalidKeyData);
        }
        Ok(AesKey(key.to_vec(), PhantomData))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(Some(&self.0))
    }
}
impl<T: AesType> FromKeyDerivation for AesKey<T> {
    fn from_key_derivation<D: KeyDerivation>(mut d: D) -> Result<Self, Error> {
        let mut k = vec![0; T::KEY];
        d.derive_key_bytes(&mut k)?;
        Ok(AesKey(k, PhantomData))
    }
}
impl<T: AesType> KeyAeadInPlace for AesKey<T> {
    fn encrypt_in_place(&self, buffer: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce);
        }
        T::seal(&self.0, buffer, nonce, aad)
    }
    fn decrypt_in_place(&self, buffer: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce);
        }
        T::open(&self.0, buffer, nonce, aad)
    }
    fn aead_params(&self) -> KeyAeadParams {
        KeyAeadParams { nonce_length: T::NONCE, tag_length: T::TAG }
    }
}
impl<T: AesType> KeyAeadMeta for AesKey<T> {
    type Nonce = NonceBytes;
    fn random_nonce() -> NonceBytes {
        let mut n = vec![0; T::NONCE];
        fill_random(&mut n);
        NonceBytes(n)
    }
}

pub(crate) fn aead_fail<T>() -> Result<T, Error> {
    errm(ErrorKind::Encryption, "AEAD decryption error")
}

#[derive(Debug)]
pub struct A256Gcm;
impl AesType for A256Gcm {
    const KEY: usize = 32;
    const NONCE: usize = 12;
    const TAG: usize = 16;
    const NAME: &'static str = "A256GCM";
    fn seal(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error> {
        let tag = prim_aes::gcm_seal(key, nonce, aad, buf.as_mut());
        let n = buf.as_ref().len();
        buf.buffer_write(&tag)?;
        Ok(n)
    }
    fn open(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error> {
        let n = buf.as_ref().len();
        if n < 16 {
            return err(ErrorKind::Encryption);
        }
        let tag = buf.as_ref()[n - 16..].to_vec();
        if !prim_aes::gcm_open(key, nonce, aad, &mut buf.as_mut()[..n - 16], &tag) {
            return aead_fail();
        }
        buf.buffer_resize(n - 16)
    }
}

#[derive(Debug)]
pub struct A256CbcHs512;
fn cbc_tag(mac_key: &[u8], aad: &[u8], iv: &[u8], ct: &[u8]) -> Vec<u8> {
    let al = (aad.len() as u64 * 8).to_be_bytes();
    prim_hash::hmac512(mac_key, &[aad, iv, ct, &al])[..32].to_vec()
}
impl AesType for A256CbcHs512 {
    const KEY: usize = 64;
    const NONCE: usize = 16;
    const TAG: usize = 32;
    const NAME: &'static str = "A256CBC-HS512";
    fn seal(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<usize, Error> {
        let ct = prim_aes::cbc_encrypt(&key[32..], nonce, buf.as_ref());
        buf.buffer_resize(ct.len())?;
        buf.as_mut().copy_from_slice(&ct);
        let tag = cbc_tag(&key[..32], aad, nonce, &ct);
        buf.buffer_write(&tag)?;
        Ok(ct.len())
    }
    fn open(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error> {
        let n = buf.as_ref().len();
        if n < 32 {
            return err(ErrorKind::Encryption);
        }
        let (ct, tag) = buf.as_ref().split_at(n - 32);
        if cbc_tag(&key[..32], aad, nonce, ct) != tag {
            return aead_fail();
        }
        match prim_aes::cbc_decrypt(&key[32..], nonce, ct) {
            Some(pt) => {
                buf.buffer_resize(pt.len())?;
                buf.as_mut().copy_from_slice(&pt);
                Ok(())
            }
            None => aead_fail(),
        }
    }
}

fn kw_seal(key: &[u8], buf: &mut dyn ResizeBuffer, aad: &[u8]) -> Result<usize, Error> {
    if !aad.is_empty() {
        return err(ErrorKind::Unsupported);
    }
    match prim_aes::kw_wrap(key, buf.as_ref()) {
        Some(w) => {
            buf.buffer_resize(w.len())?;
            buf.as_mut().copy_from_slice(&w);
            Ok(w.len())
        }
        None => err(ErrorKind::Unsupported),
    }
}
fn kw_open(key: &[u8], buf: &mut dyn ResizeBuffer, aad: &[u8]) -> Result<(), Error> {
    if !aad.is_empty() {
        return err(ErrorKind::Unsupported);
    }
    if buf.as_ref().len() % 8 != 0 {
        return err(ErrorKind::Encryption);
    }
    match prim_aes::kw_unwrap(key, buf.as_ref()) {
        Some(p) => {
            buf.buffer_resize(p.len())?;
            buf.as_mut().copy_from_slice(&p);
            Ok(())
        }
        None => err(ErrorKind::Encryption),
    }
}

#[derive(Debug)]
pub struct A256Kw;
impl AesType for A256Kw {
    const KEY: usize = 32;
    const NONCE: usize = 0;
    const TAG: usize = 8;
    const NAME: &'static str = "A256KW";
    fn seal(key: &[u8], buf: &mut dyn ResizeBuffer, _n: &[u8], aad: &[u8]) -> Result<usize, Error> {
        kw_seal(key, buf, aad)
    }
    fn open(key: &[u8], buf: &mut dyn ResizeBuffer, _n: &[u8], aad: &[u8]) -> Result<(), Error> {
        kw_open(key, buf, aad)
    }
}
#[derive(Debug)]
pub struct A128Kw;
impl AesType for A128Kw {
    const KEY: usize = 16;
    const NONCE: usize = 0;
    const TAG: usize = 8;
    const NAME: &'static str = "A128KW";
    fn seal(key: &[u8], buf: &mut dyn ResizeBuffer, _n: &[u8], aad: &[u8]) -> Result<usize, Error> {
        kw_seal(key, buf, aad)
    }
    fn open(key: &[u8], buf: &mut dyn ResizeBuffer, _n: &[u8], aad: &[u8]) -> Result<(), Error> {
        kw_open(key, buf, aad)
    }
}
