use crate::buffer::{SecretBytes, WriteBuffer};
use crate::error::Error;
use crate::prim_hash::sha256;

pub trait KeyExchange {
    fn write_key_exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
    fn key_exchange_bytes(&self, other: &Self) -> Result<SecretBytes, Error> {
        let mut b = SecretBytes::with_capacity(128);
        self.write_key_exchange(other, &mut b)?;
        Ok(b)
    }
}
pub trait KeyDerivation {
    fn derive_key_bytes(&mut self, key_output: &mut [u8]) -> Result<(), Error>;
}
pub trait FromKeyDerivation {
    fn from_key_derivation<D: KeyDerivation>(derive: D) -> Result<Self, Error>
    where
        Self: Sized;
}

/// Single-pass Concat KDF (NIST SP 800-56A) over SHA-256, output at most 32 bytes.
fn concat_kdf(z: &[u8], alg: &[u8], apu: &[u8], apv: &[u8], pub_info: &[u8], out: &mut [u8]) -> Result<(), Error> {
    if out.len() > 32 {
        return crate::error::err(crate::ErrorKind::Unsupported);
    }
    let l = |b: &[u8]| (b.len() as u32).to_be_bytes();
    let h = sha256(&[&1u32.to_be_bytes(), z, &l(alg), alg, &l(apu), apu, &l(apv), apv, pub_info]);
    let n = out.len();
    out.copy_from_slice(&h[..n]);
    Ok(())
}

pub mod ecdh_es {
    use super::*;
    #[derive(Debug)]
    pub struct EcdhEs<'d, Key: KeyExchange + ?Sized> {
        ephem: &'d Key,
        recip: &'d Key,
        alg: &'d [u8],
        apu: &'d [u8],
        apv: &'d [u8],
        receive: bool,
    }
    impl<'d, Key: KeyExchange + ?Sized> EcdhEs<'d, Key> {
        pub fn new(ephem: &'d Key, recip: &'d Key, alg: &'d [u8], apu: &'d [u8], apv: &'d [u8], receive: bool) -> Self {
            Self { ephem, recip, alg, apu, apv, receive }
        }
    }
    impl<Key: KeyExchange + ?Sized> KeyDerivation for EcdhEs<'_, Key> {
        fn derive_key_bytes(&mut self, out: &mut [u8]) -> Result<(), Error> {
            let mut z = SecretBytes::with_capacity(64);
            if self.receive {
                self.recip.write_key_exchange(self.ephem, &mut z)?;
            } else {
                self.ephem.write_key_exchange(self.recip, &mut z)?;
            }
            let bits = (out.len() as u32 * 8).to_be_bytes();
            concat_kdf(&z, self.alg, self.apu, self.apv, &bits, out)
        }
    }
}

pub mod ecdh_1pu {
    use super::*;
    #[derive(Debug)]
    pub struct Ecdh1PU<'d, Key: KeyExchange + ?Sized> {
        ephem: &'d Key,
        send: &'d Key,
        recip: &'d Key,
        alg: &'d [u8],
        apu: &'d [u8],
        apv: &'d [u8],
        cc_tag: &'d [u8],
        receive: bool,
    }
    impl<'d, Key: KeyExchange + ?Sized> Ecdh1PU<'d, Key> {
        pub fn new(
            ephem: &'d Key,
            send: &'d Key,
            recip: &'d Key,
            alg: &'d [u8],
            apu: &'d [u8],
            apv: &'d [u8],
            cc_tag: &'d [u8],
            receive: bool,
        ) -> Self {
            Self { ephem, send, recip, alg, apu, apv, cc_tag, receive }
        }
    }
    impl<Key: KeyExchange + ?Sized> KeyDerivation for Ecdh1PU<'_, Key> {
        fn derive_key_bytes(&mut self, out: &mut [u8]) -> Result<(), Error> {
            let mut z = SecretBytes::with_capacity(64);
            if self.receive {
                self.recip.write_key_exchange(self.ephem, &mut z)?;
                self.recip.write_key_exchange(self.send, &mut z)?;
            } else {
                self.ephem.write_key_exchange(self.recip, &mut z)?;
                self.send.write_key_exchange(self.recip, &mut z)?;
            }
            if self.cc_tag.len() > 128 {
                return crate::error::errm(crate::ErrorKind::Unsupported, "Exceeded maximum length for cc_tag");
            }
            let mut info = (out.len() as u32 * 8).to_be_bytes().to_vec();
            if !self.cc_tag.is_empty() {
                info.extend_from_slice(&(self.cc_tag.len() as u32).to_be_bytes());
                info.extend_from_slice(self.cc_tag);
            }
            concat_kdf(&z, self.alg, self.apu, self.apv, &info, out)
        }
    }
}
