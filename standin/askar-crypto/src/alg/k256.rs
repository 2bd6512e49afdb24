use crate::alg::ec_common::ec_keypair;
use crate::{
    b64,
    buffer::WriteBuffer,
    error::{err, errm, Error, ErrorKind},
    jwk::{FromJwk, JwkParts, ToJwk},
    kdf::KeyExchange,
    prim_ec,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes},
    sign::{KeySigVerify, KeySign, SignatureType},
};
ec_keypair!(K256KeyPair, prim_ec::Curve::k256(), "secp256k1", SignatureType::ES256K);
