use crate::alg::ec_common::ec_keypair;
use crate::{
    b64,
    buffer::WriteBuffer,
    error::{err, errm, Error, ErrorKind},
    jwk::{FromJwk, JwkParts, ToJwk},
    kdf::KeyExchange,
    prim_ec,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes},
    sign::{KeySigVerify, KeySign, SignatureType},
};
ec_keypair!(P256KeyPair, prim_ec::Curve::p256(), "P-256", SignatureType::ES256);
