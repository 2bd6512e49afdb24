//! Key pair type shared by P-256 and secp256k1.
macro_rules! ec_keypair {
    ($name:ident, $curve:expr, $crv:literal, $sig:expr) => {
        #[derive(Clone)]
        pub struct $name {
            secret: Option<[u8; 32]>,
            public: prim_ec::Aff,
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_struct(stringify!($name))
                    .field("secret", if self.secret.is_some() { &"<secret>" } else { &"None" })
                    .field("public", &self.public)
                    .finish()
            }
        }
        impl $name {
            fn from_scalar(k: &[u8]) -> Result<Self, Error> {
                let k: [u8; 32] = match k.try_into() {
                    Ok(k) => k,
                    Err(_) => return err(ErrorKind::InvalidKeyData),
                };
                let s = prim_ec::from_be(&k);
                if !$curve.valid_scalar(&s) {
                    return err(ErrorKind::InvalidKeyData);
                }
                Ok($name { secret: Some(k), public: $curve.base(&s).expect("nonzero scalar") })
            }
        }
        impl KeyGen for $name {
            fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
                loop {
                    let mut k = [0u8; 32];
                    rng.read_okm(&mut k);
                    if let Ok(k) = Self::from_scalar(&k) {
                        return Ok(k);
                    }
                }
            }
        }
        impl KeySecretBytes for $name {
            fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
                Self::from_scalar(key)
            }
            fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
                f(self.secret.as_ref().map(|s| &s[..]))
            }
        }
        impl KeyPublicBytes for $name {
            /// SEC1 compressed or uncompressed.
            fn from_public_bytes(key: &[u8]) -> Result<Self, Error> {
                if key.len() == 65 && key[0] == 4 {
                    let (x, y) = (prim_ec::from_be(&key[1..33]), prim_ec::from_be(&key[33..]));
                    if $curve.on_curve(&x, &y) {
                        return Ok($name { secret: None, public: (x, y) });
                    }
                }
                err(ErrorKind::InvalidKeyData)
            }
            fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
                let mut b = vec![2 + (self.public.1[0] & 1) as u8];
                b.extend_from_slice(&prim_ec::to_be(&self.public.0));
                f(&b)
            }
        }
        impl FromJwk for $name {
            fn from_jwk_parts(p: &JwkParts) -> Result<Self, Error> {
                // kty and crv are not compared at this revision (aries-askar issue 28): didcomm-rust's own tests import
                // a secp256k1 key without `crv`. The curve equation is what rejects foreign keys.
                let get = |o: &Option<String>| -> Result<[u8; 32], Error> {
                    o.as_deref()
                        .and_then(b64::dec)
                        .and_then(|v| v.try_into().ok())
                        .map_or_else(|| err(ErrorKind::InvalidKeyData), Ok)
                };
                let (x, y) = (prim_ec::from_be(&get(&p.x)?), prim_ec::from_be(&get(&p.y)?));
                if !$curve.on_curve(&x, &y) {
                    return err(ErrorKind::InvalidKeyData);
                }
                if p.d.is_some() {
                    let kp = Self::from_scalar(&get(&p.d)?)?;
                    if kp.public != (x, y) {
                        return err(ErrorKind::InvalidKeyData);
                    }
                    return Ok(kp);
                }
                Ok($name { secret: None, public: (x, y) })
            }
        }
        impl ToJwk for $name {
            fn to_jwk_public(&self, _alg: Option<()>) -> Result<String, Error> {
                Ok(format!(
                    r#"{{"crv":"{}","kty":"EC","x":"{}","y":"{}"}}"#,
                    $crv,
                    b64::enc(&prim_ec::to_be(&self.public.0)),
                    b64::enc(&prim_ec::to_be(&self.public.1))
                ))
            }
        }
        impl KeyExchange for $name {
            fn write_key_exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
                match self.secret {
                    Some(s) => {
                        let p = $curve.mul(&prim_ec::from_be(&s), &other.public).expect("prime order group");
                        out.buffer_write(&prim_ec::to_be(&p.0))
                    }
                    None => err(ErrorKind::MissingSecretKey),
                }
            }
        }
        impl KeySign for $name {
            fn write_signature(&self, message: &[u8], t: Option<SignatureType>, out: &mut dyn WriteBuffer) -> Result<(), Error> {
                match t {
                    None => {}
                    Some(t) if t == $sig => {}
                    Some(_) => return errm(ErrorKind::Unsupported, "Unsupported signature type"),
                }
                match self.secret {
                    Some(s) => out.buffer_write(&$curve.sign(&prim_ec::from_be(&s), message)),
                    None => err(ErrorKind::MissingSecretKey),
                }
            }
        }
        impl KeySigVerify for $name {
            fn verify_signature(&self, message: &[u8], signature: &[u8], t: Option<SignatureType>) -> Result<bool, Error> {
                match t {
                    None => {}
                    Some(t) if t == $sig => {}
                    Some(_) => return errm(ErrorKind::Unsupported, "Unsupported signature type"),
                }
                Ok($curve.verify(&self.public, message, signature))
            }
        }
    };
}
pub(crate) use ec_keypair;
