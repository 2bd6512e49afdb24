use crate::{
    b64,
    buffer::WriteBuffer,
    error::{err, errm, Error, ErrorKind},
    jwk::{FromJwk, JwkParts, ToJwk},
    prim_ed,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes},
    sign::{KeySigVerify, KeySign, SignatureType},
};
#[derive(Clone)]
pub struct Ed25519KeyPair {
    secret: Option<[u8; 32]>,
    public: [u8; 32],
}
impl std::fmt::Debug for Ed25519KeyPair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Ed25519KeyPair")
            .field("secret", if self.secret.is_some() { &"<secret>" } else { &"None" })
            .field("public", &self.public)
            .finish()
    }
}
fn arr(b: &[u8]) -> Result<[u8; 32], Error> {
    b.try_into().or_else(|_| err(ErrorKind::InvalidKeyData))
}
impl KeyGen for Ed25519KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut k = [0u8; 32];
        rng.read_okm(&mut k);
        Ok(Ed25519KeyPair { secret: Some(k), public: prim_ed::ed_public(&k) })
    }
}
impl KeySecretBytes for Ed25519KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        let k = arr(key)?;
        Ok(Ed25519KeyPair { secret: Some(k), public: prim_ed::ed_public(&k) })
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(self.secret.as_ref().map(|s| &s[..]))
    }
}
impl KeyPublicBytes for Ed25519KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self, Error> {
        let public = arr(key)?;
        if !prim_ed::ed_valid_public(&public) {
            return err(ErrorKind::InvalidKeyData);
        }
        Ok(Ed25519KeyPair { secret: None, public })
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(&self.public)
    }
}
impl FromJwk for Ed25519KeyPair {
    fn from_jwk_parts(p: &JwkParts) -> Result<Self, Error> {
        let Some(x) = p.x.as_deref().and_then(b64::dec) else { return err(ErrorKind::InvalidKeyData) };
        let public = arr(&x)?;
        if let Some(d) = &p.d {
            let Some(d) = b64::dec(d) else { return err(ErrorKind::InvalidKeyData) };
            let kp = Self::from_secret_bytes(&d)?;
            if kp.public != public {
                return err(ErrorKind::InvalidKeyData);
            }
            return Ok(kp);
        }
        Self::from_public_bytes(&public)
    }
}
impl ToJwk for Ed25519KeyPair {
    fn to_jwk_public(&self, _a: Option<()>) -> Result<String, Error> {
        Ok(format!(r#"{{"crv":"Ed25519","kty":"OKP","x":"{}"}}"#, b64::enc(&self.public)))
    }
}
impl KeySign for Ed25519KeyPair {
    fn write_signature(&self, message: &[u8], t: Option<SignatureType>, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        if !matches!(t, None | Some(SignatureType::EdDSA)) {
            return errm(ErrorKind::Unsupported, "Unsupported signature type");
        }
        match self.secret {
            Some(s) => out.buffer_write(&prim_ed::ed_sign(&s, &self.public, message)),
            None => err(ErrorKind::MissingSecretKey),
        }
    }
}
impl KeySigVerify for Ed25519KeyPair {
    fn verify_signature(&self, message: &[u8], signature: &[u8], t: Option<SignatureType>) -> Result<bool, Error> {
        if !matches!(t, None | Some(SignatureType::EdDSA)) {
            return errm(ErrorKind::Unsupported, "Unsupported signature type");
        }
        Ok(prim_ed::ed_verify(&self.public, message, signature))
    }
}
