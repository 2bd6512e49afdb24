use crate::{
    b64,
    buffer::WriteBuffer,
    error::{err, Error, ErrorKind},
    jwk::{FromJwk, JwkParts, ToJwk},
    kdf::KeyExchange,
    prim_ed,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes},
};
#[derive(Clone)]
pub struct X25519KeyPair {
    secret: Option<[u8; 32]>,
    public: [u8; 32],
}
impl std::fmt::Debug for X25519KeyPair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("X25519KeyPair")
            .field("secret", if self.secret.is_some() { &"<secret>" } else { &"None" })
            .field("public", &self.public)
            .finish()
    }
}
fn arr(b: &[u8]) -> Result<[u8; 32], Error> {
    b.try_into().or_else(|_| err(ErrorKind::InvalidKeyData))
}
impl KeyGen for X25519KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut k = [0u8; 32];
        rng.read_okm(&mut k);
        Self::from_secret_bytes(&k)
    }
}
impl KeySecretBytes for X25519KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        let k = arr(key)?;
        Ok(X25519KeyPair { secret: Some(k), public: prim_ed::x25519_base(&k) })
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(self.secret.as_ref().map(|s| &s[..]))
    }
}
impl KeyPublicBytes for X25519KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self, Error> {
        Ok(X25519KeyPair { secret: None, public: arr(key)? })
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(&self.public)
    }
}
impl FromJwk for X25519KeyPair {
    fn from_jwk_parts(p: &JwkParts) -> Result<Self, Error> {
        let Some(x) = p.x.as_deref().and_then(b64::dec) else { return err(ErrorKind::InvalidKeyData) };
        let public = arr(&x)?;
        if let Some(d) = &p.d {
            let Some(d) = b64::dec(d) else { return err(ErrorKind::InvalidKeyData) };
            let kp = Self::from_secret_bytes(&d)?;
            if kp.public != public {
                return err(ErrorKind::InvalidKeyData);
            }
            return Ok(kp);
        }
        Ok(X25519KeyPair { secret: None, public })
    }
}
impl ToJwk for X25519KeyPair {
    fn to_jwk_public(&self, _a: Option<()>) -> Result<String, Error> {
        Ok(format!(r#"{{"crv":"X25519","kty":"OKP","x":"{}"}}"#, b64::enc(&self.public)))
    }
}
impl KeyExchange for X25519KeyPair {
    fn write_key_exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        match self.secret {
            Some(s) => out.buffer_write(&prim_ed::x25519(&s, &other.public)),
            None => err(ErrorKind::MissingSecretKey),
        }
    }
}
