//! Session parameters: ids, a deterministic digest-binding signature scheme, and a recording digest.
use std::cell::RefCell;

use manul::{digest, digest::generic_array::typenum, session::SessionParameters, session::WireFormat, signature};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Id(pub String);

impl Id {
    pub fn new(s: &str) -> Self {
        Id(s.to_string())
    }
}

/// How a signer signs: properly, with a signature for something else, or with undecodable bytes.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Ok,
    Bad,
    Undes,
}

#[derive(Debug, Clone)]
pub struct Signer {
    pub id: Id,
    pub mode: Mode,
    pub log: Option<crate::model::Log>,
}

impl Signer {
    pub fn new(id: &Id) -> Self {
        Signer { id: id.clone(), mode: Mode::Ok, log: None }
    }
    pub fn with_mode(id: &Id, mode: Mode) -> Self {
        Signer { id: id.clone(), mode, log: None }
    }
    pub fn logged(id: &Id, log: &crate::model::Log) -> Self {
        Signer { id: id.clone(), mode: Mode::Ok, log: Some(log.clone()) }
    }
}

/// A signature binds the signer and the digest. Serialized as `(by, hex digest)`, or as an empty sequence
/// in the `Undes` mode (which does not deserialize).
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Sig {
    Sig { by: Id, digest: String },
    Broken,
}

impl Serialize for Sig {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Sig::Sig { by, digest } => (by, digest).serialize(s),
            Sig::Broken => ().serialize(s),
        }
    }
}

impl<'de> Deserialize<'de> for Sig {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (by, digest) = <(Id, String)>::deserialize(d)?;
        Ok(Sig::Sig { by, digest })
    }
}

thread_local! {
    /// When `Some`, every digest finalization is recorded as `(input, output)`.
    pub static REC: RefCell<Option<Vec<(Vec<u8>, Vec<u8>)>>> = const { RefCell::new(None) };
}

#[derive(Debug, Clone, Default)]
pub struct RecDigest {
    buf: Vec<u8>,
}

impl digest::HashMarker for RecDigest {}
impl digest::Update for RecDigest {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data)
    }
}
impl digest::OutputSizeUser for RecDigest {
    type OutputSize = typenum::U32;
}
impl digest::FixedOutput for RecDigest {
    fn finalize_into(self, out: &mut digest::Output<Self>) {
        let h = fast::digest(&self.buf);
        out.copy_from_slice(&h);
        REC.with(|r| {
            if let Some(v) = r.borrow_mut().as_mut() {
                v.push((self.buf, h.to_vec()));
            }
        });
    }
}

impl signature::RandomizedDigestSigner<RecDigest, Sig> for Signer {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: RecDigest) -> Result<Sig, signature::Error> {
        use digest::Digest;
        if let Some(log) = &self.log {
            log.draw(|| format!("a signature of {}", self.id.0), rng);
        }
        let out = fast::hex(&digest.finalize());
        Ok(match self.mode {
            Mode::Ok => Sig::Sig { by: self.id.clone(), digest: out },
            Mode::Bad => Sig::Sig { by: self.id.clone(), digest: format!("ff{}", &out[2..]).replace("ffff", "fefe") + "00" },
            Mode::Undes => Sig::Broken,
        })
    }
}

impl signature::Keypair for Signer {
    type VerifyingKey = Id;
    fn verifying_key(&self) -> Id {
        self.id.clone()
    }
}

impl signature::DigestVerifier<RecDigest, Sig> for Id {
    fn verify_digest(&self, digest: RecDigest, signature: &Sig) -> Result<(), signature::Error> {
        use digest::Digest;
        let out = fast::hex(&digest.finalize());
        match signature {
            Sig::Sig { by, digest } if by == self && digest == &out => Ok(()),
            _ => Err(signature::Error::new()),
        }
    }
}

// (the serialization of evidence asks for these to be serializable)
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct SP<F>(core::marker::PhantomData<F>);

impl<F: WireFormat> SessionParameters for SP<F> {
    type Signer = Signer;
    type Verifier = Id;
    type Signature = Sig;
    type Digest = RecDigest;
    type WireFormat = F;
}

pub type Json = manul::dev::HumanReadableFormat;
pub type Bin = manul::dev::BinaryFormat;

/// Marks the wire formats; crafted echo packs are only possible in JSON.
pub trait Fmt: WireFormat {
    const JSON: bool;
    const NAME: &'static str;
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        Self::serialize(v).map(|b| b.to_vec()).map_err(|e| format!("{e:?}"))
    }
    fn de<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String>;
}
impl Fmt for Json {
    const JSON: bool = true;
    const NAME: &'static str = "json";
    fn de<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        let d = Self::deserializer(b);
        T::deserialize(d).map_err(|e| e.to_string())
    }
}
impl Fmt for Bin {
    const JSON: bool = false;
    const NAME: &'static str = "binary";
    fn de<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        let d = Self::deserializer(b);
        T::deserialize(d).map_err(|e| e.to_string())
    }
}
