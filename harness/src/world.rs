//! Parties, their keys, DID documents and secrets as data; resolvers over them (with pluggable schedules and faults).
use crate::refimpl as rf;
use async_trait::async_trait;
use didcomm::did::{
    DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod,
    VerificationMethodType,
};
use didcomm::error::{Error, ErrorKind};
use didcomm::secrets::{Secret, SecretMaterial, SecretType, SecretsResolver};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kt {
    X25519,
    P256,
    K256,
    Ed25519,
}
impl Kt {
    pub fn crv(self) -> &'static str {
        match self {
            Kt::X25519 => "X25519",
            Kt::P256 => "P-256",
            Kt::K256 => "secp256k1",
            Kt::Ed25519 => "Ed25519",
        }
    }
    pub fn kty(self) -> &'static str {
        match self {
            Kt::X25519 | Kt::Ed25519 => "OKP",
            _ => "EC",
        }
    }
    pub fn sign_alg(self) -> &'static str {
        match self {
            Kt::Ed25519 => "EdDSA",
            Kt::P256 => "ES256",
            Kt::K256 => "ES256K",
            Kt::X25519 => "none",
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fmt {
    Jwk,
    B58,
    Mb,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Key {
    pub kt: Kt,
    /// representation in the DID document / in the secrets store (JWK only for P-256 and secp256k1)
    pub fmt: Fmt,
    pub sfmt: Fmt,
    pub frag: String,
    /// whether the owner's secrets resolver holds it
    pub secret: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Svc {
    pub frag: String,
    /// None: a service of another type
    pub didcomm: Option<SvcBody>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SvcBody {
    pub uri: String,
    pub accept: Option<Vec<String>>,
    pub routing_keys: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Party {
    pub did: String,
    pub salt: u16,
    pub ka: Vec<Key>,
    pub auth: Vec<Key>,
    #[serde(default)]
    pub services: Vec<Svc>,
    /// order of verification methods in the document: rotate by this much
    #[serde(default)]
    pub rot: u8,
    /// verification methods nobody refers to, and foreign controllers
    #[serde(default)]
    pub noise: Vec<Noise>,
}
/// What a DID document may hold besides the keys its owner lists.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Noise {
    /// resembling which key
    pub of: u16,
    /// in which way
    pub kind: u8,
    pub near: (u8, u16),
    /// where in the document
    pub at: u16,
}

impl Party {
    pub fn kid(&self, k: &Key) -> String {
        format!("{}#{}", self.did, k.frag)
    }
    pub fn sk(&self, k: &Key) -> [u8; 32] {
        let mut s = askar_crypto::prim_hash::sha256(&[
            b"key",
            self.did.as_bytes(),
            b"#",
            k.frag.as_bytes(),
            &self.salt.to_le_bytes(),
            &[k.kt as u8],
        ]);
        if matches!(k.kt, Kt::P256 | Kt::K256) {
            s[0] &= 0x7f; // stay below the group order
            s[31] |= 1;
        }
        s
    }
    pub fn pk(&self, k: &Key) -> Vec<u8> {
        thread_local! { static MEMO: RefCell<std::collections::HashMap<(Kt, [u8; 32]), Vec<u8>>> = RefCell::new(Default::default()); }
        let sk = self.sk(k);
        MEMO.with(|m| {
            let mut m = m.borrow_mut();
            if m.len() > 4096 {
                m.clear();
            }
            m.entry((k.kt, sk)).or_insert_with(|| rf::public(k.kt, &sk)).clone()
        })
    }
    pub fn all_keys(&self) -> impl Iterator<Item = &Key> {
        self.ka.iter().chain(self.auth.iter())
    }
    pub fn vm(&self, k: &Key) -> VerificationMethod {
        let pk = self.pk(k);
        let (type_, verification_material) = match (k.kt, k.fmt) {
            (Kt::X25519, Fmt::B58) => (
                VerificationMethodType::X25519KeyAgreementKey2019,
                VerificationMaterial::Base58 { public_key_base58: bs58::encode(&pk).into_string() },
            ),
            (Kt::Ed25519, Fmt::B58) => (
                VerificationMethodType::Ed25519VerificationKey2018,
                VerificationMaterial::Base58 { public_key_base58: bs58::encode(&pk).into_string() },
            ),
            (Kt::X25519, Fmt::Mb) => (
                VerificationMethodType::X25519KeyAgreementKey2020,
                VerificationMaterial::Multibase { public_key_multibase: multibase(&[0xec, 0x01], &pk) },
            ),
            (Kt::Ed25519, Fmt::Mb) => (
                VerificationMethodType::Ed25519VerificationKey2020,
                VerificationMaterial::Multibase { public_key_multibase: multibase(&[0xed, 0x01], &pk) },
            ),
            _ => (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: rf::pub_jwk(k.kt, &pk) }),
        };
        VerificationMethod { id: self.kid(k), type_, controller: self.did.clone(), verification_material }
    }
    pub fn secret(&self, k: &Key) -> Secret {
        let (sk, pk) = (self.sk(k), self.pk(k));
        let (type_, secret_material) = match (k.kt, k.sfmt) {
            (Kt::X25519, Fmt::B58) => (
                SecretType::X25519KeyAgreementKey2019,
                SecretMaterial::Base58 { private_key_base58: bs58::encode(&sk).into_string() },
            ),
            (Kt::Ed25519, Fmt::B58) => (
                SecretType::Ed25519VerificationKey2018,
                SecretMaterial::Base58 { private_key_base58: bs58::encode([&sk[..], &pk[..]].concat()).into_string() },
            ),
            (Kt::X25519, Fmt::Mb) => (
                SecretType::X25519KeyAgreementKey2020,
                SecretMaterial::Multibase { private_key_multibase: multibase(&[0x82, 0x26], &sk) },
            ),
            (Kt::Ed25519, Fmt::Mb) => (
                SecretType::Ed25519VerificationKey2020,
                SecretMaterial::Multibase { private_key_multibase: multibase(&[0x80, 0x26], &[&sk[..], &pk[..]].concat()) },
            ),
            _ => {
                let mut j = rf::pub_jwk(k.kt, &pk);
                j["d"] = Value::String(rf::b64(&sk));
                (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: j })
            }
        };
        Secret { id: self.kid(k), type_, secret_material }
    }
    pub fn doc(&self) -> DIDDoc {
        let mut vms: Vec<_> = self.all_keys().map(|k| self.vm(k)).collect();
        if !vms.is_empty() {
            let n = vms.len();
            vms.rotate_left(self.rot as usize % n);
        }
        // a key listed for both purposes has one method
        let mut seen = std::collections::HashSet::new();
        vms.retain(|v| seen.insert(v.id.clone()));
        let keys: Vec<&Key> = self.all_keys().collect();
        for n in self.noise.iter().filter(|_| !keys.is_empty()) {
            let k = keys[n.of as usize % keys.len()];
            let other = "did:example:guardian";
            let id = match n.kind % 10 {
                0 | 1 => format!("{other}#{}", k.frag),
                2 => format!("#{}", k.frag),
                3 => k.frag.clone(),
                4 => format!("{}?versionId=1#{}", self.did, k.frag),
                5 => format!("{}#{}", crate::gen::near(&self.did, n.near.0, n.near.1), k.frag),
                6 => {
                    // the key itself is under somebody else's control
                    let own = self.kid(k);
                    vms.iter_mut().filter(|v| v.id == own).for_each(|v| v.controller = other.into());
                    continue;
                }
                _ => format!("{}#{}", self.did, crate::gen::near(&k.frag, n.near.0, n.near.1)),
            };
            // keys may come and go, so any of the fragments may be taken one day
            if id == self.did || seen.contains(&id) || id.split_once('#').is_some_and(|(d, f)| d == self.did && (crate::gen::FRAGS.contains(&f) || crate::gen::MORE_FRAGS.contains(&f))) {
                continue;
            }
            seen.insert(id.clone());
            let p = Party { did: "did:example:noise".into(), salt: 0, ka: vec![], auth: vec![], services: vec![], rot: 0, noise: vec![] };
            let mut vm = p.vm(&Key { frag: "k".into(), ..k.clone() });
            vm.id = id;
            vm.controller = if n.kind % 2 == 0 { other.into() } else { self.did.clone() };
            if n.kind % 10 == 9 {
                vm.type_ = VerificationMethodType::Other;
            }
            vms.insert(n.at as usize % (vms.len() + 1), vm);
        }
        DIDDoc {
            id: self.did.clone(),
            key_agreement: self.ka.iter().map(|k| self.kid(k)).collect(),
            authentication: self.auth.iter().map(|k| self.kid(k)).collect(),
            verification_method: vms,
            service: self.services.iter().map(|s| self.svc(s)).collect(),
        }
    }
    pub fn svc_id(&self, s: &Svc) -> String {
        format!("{}#{}", self.did, s.frag)
    }
    fn svc(&self, s: &Svc) -> Service {
        Service {
            id: self.svc_id(s),
            service_endpoint: match &s.didcomm {
                Some(b) => ServiceKind::DIDCommMessaging {
                    value: DIDCommMessagingService {
                        uri: b.uri.clone(),
                        accept: b.accept.clone(),
                        routing_keys: b.routing_keys.clone(),
                    },
                },
                None => ServiceKind::Other { value: json!({"foo": 1, "uri": "http://other"}) },
            },
        }
    }
    pub fn secrets(&self) -> Vec<Secret> {
        self.distinct().filter(|k| k.secret).map(|k| self.secret(k)).collect()
    }
    pub fn all_secrets(&self) -> Vec<Secret> {
        self.distinct().map(|k| self.secret(k)).collect()
    }
    /// the keys, one listed for both purposes only once
    pub fn distinct(&self) -> impl Iterator<Item = &Key> {
        self.ka.iter().chain(self.auth.iter().filter(|k| !self.ka.iter().any(|x| x.frag == k.frag)))
    }
}

pub fn multibase(codec: &[u8], v: &[u8]) -> String {
    format!("z{}", bs58::encode([codec, v].concat()).into_string())
}

/// A resolver call's outcome other than the truth.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fault {
    Io,
    InvalidState,
    Malformed,
    NotResolved,
    UrlNotFound,
    SecretNotFound,
    NoCompatible,
    Unsupported,
    IllegalArgument,
    NotFound, // answer None / an empty list
}
impl Fault {
    pub const ERRORS: [Fault; 9] = [
        Fault::Io,
        Fault::InvalidState,
        Fault::Malformed,
        Fault::NotResolved,
        Fault::UrlNotFound,
        Fault::SecretNotFound,
        Fault::NoCompatible,
        Fault::Unsupported,
        Fault::IllegalArgument,
    ];
    pub fn of(k: ErrorKind) -> Fault {
        Fault::ERRORS.into_iter().find(|f| f.kind() == Some(k)).unwrap_or(Fault::NotFound)
    }
    pub fn kind(self) -> Option<ErrorKind> {
        Some(match self {
            Fault::Io => ErrorKind::IoError,
            Fault::InvalidState => ErrorKind::InvalidState,
            Fault::Malformed => ErrorKind::Malformed,
            Fault::NotResolved => ErrorKind::DIDNotResolved,
            Fault::UrlNotFound => ErrorKind::DIDUrlNotFound,
            Fault::SecretNotFound => ErrorKind::SecretNotFound,
            Fault::NoCompatible => ErrorKind::NoCompatibleCrypto,
            Fault::Unsupported => ErrorKind::Unsupported,
            Fault::IllegalArgument => ErrorKind::IllegalArgument,
            Fault::NotFound => return None,
        })
    }
}

/// Shared by both resolvers of a run: numbers the calls, injects a fault at one of them, yields Pending per schedule.
#[derive(Default)]
pub struct Plan {
    pub calls: Mutex<Vec<String>>,
    pub fault: Option<(usize, Fault)>,
    pub sched: Vec<u8>,
    pub injected: AtomicBool,
}
impl Plan {
    pub fn calls(&self) -> Vec<String> {
        self.calls.lock().unwrap().clone()
    }
    pub fn injected(&self) -> bool {
        self.injected.load(Ordering::SeqCst)
    }
    fn enter(&self, what: String) -> (usize, Option<Fault>, u8) {
        let mut c = self.calls.lock().unwrap();
        let i = c.len();
        c.push(what);
        let f = match self.fault {
            Some((n, f)) if n == i => {
                self.injected.store(true, Ordering::SeqCst);
                Some(f)
            }
            _ => None,
        };
        let p = if self.sched.is_empty() { 0 } else { self.sched[i % self.sched.len()] };
        (i, f, p)
    }
}

pub struct YieldN(pub u8);
impl std::future::Future for YieldN {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

#[derive(Clone)]
pub struct Dids<'p> {
    pub docs: Vec<DIDDoc>,
    pub plan: Option<&'p Plan>,
}
impl<'p> Dids<'p> {
    pub fn new(docs: Vec<DIDDoc>) -> Dids<'p> {
        Dids { docs, plan: None }
    }
    pub fn of(ps: &[&Party]) -> Dids<'p> {
        Dids { docs: ps.iter().map(|p| p.doc()).collect(), plan: None }
    }
    pub fn with(mut self, p: &'p Plan) -> Dids<'p> {
        self.plan = Some(p);
        self
    }
}
#[cfg_attr(feature = "ffi", async_trait)]
#[cfg_attr(not(feature = "ffi"), async_trait(?Send))]
impl DIDResolver for Dids<'_> {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>, Error> {
        if let Some(p) = self.plan {
            let (_, f, y) = p.enter(format!("resolve {did}"));
            YieldN(y).await;
            if let Some(f) = f {
                return match f.kind() {
                    Some(k) => Err(Error::msg(k, "injected fault")),
                    None => Ok(None),
                };
            }
        }
        Ok(self.docs.iter().find(|d| d.id == did).cloned())
    }
}

/// In which order `find_secrets` reports the ids it knows: the trait does not say.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Order {
    Asked,
    Reversed,
    Store,
}

pub struct Secs<'p> {
    pub secrets: Vec<Secret>,
    pub plan: Option<&'p Plan>,
    pub order: Order,
}
impl<'p> Secs<'p> {
    pub fn new(secrets: Vec<Secret>) -> Secs<'p> {
        Secs { secrets, plan: None, order: Order::Asked }
    }
    pub fn of(ps: &[&Party]) -> Secs<'p> {
        Secs::new(ps.iter().flat_map(|p| p.secrets()).collect())
    }
    pub fn with(mut self, p: &'p Plan) -> Secs<'p> {
        self.plan = Some(p);
        self
    }
    pub fn order(mut self, o: Order) -> Secs<'p> {
        self.order = o;
        self
    }
}
#[cfg_attr(feature = "ffi", async_trait)]
#[cfg_attr(not(feature = "ffi"), async_trait(?Send))]
impl SecretsResolver for Secs<'_> {
    async fn get_secret(&self, secret_id: &str) -> Result<Option<Secret>, Error> {
        if let Some(p) = self.plan {
            let (_, f, y) = p.enter(format!("get_secret {secret_id}"));
            YieldN(y).await;
            if let Some(f) = f {
                return match f.kind() {
                    Some(k) => Err(Error::msg(k, "injected fault")),
                    None => Ok(None),
                };
            }
        }
        Ok(self.secrets.iter().find(|s| s.id == secret_id).cloned())
    }
    async fn find_secrets<'a>(&self, secret_ids: &'a [&'a str]) -> Result<Vec<&'a str>, Error> {
        if let Some(p) = self.plan {
            let (_, f, y) = p.enter(format!("find_secrets {}", secret_ids.join(" ")));
            YieldN(y).await;
            if let Some(f) = f {
                return match f.kind() {
                    Some(k) => Err(Error::msg(k, "injected fault")),
                    None => Ok(vec![]),
                };
            }
        }
        let mut v: Vec<&'a str> = match self.order {
            Order::Asked | Order::Reversed => {
                secret_ids.iter().copied().filter(|i| self.secrets.iter().any(|s| s.id == *i)).collect()
            }
            Order::Store => {
                self.secrets.iter().filter_map(|s| secret_ids.iter().copied().find(|i| *i == s.id)).collect()
            }
        };
        if self.order == Order::Reversed {
            v.reverse();
        }
        Ok(v)
    }
}
