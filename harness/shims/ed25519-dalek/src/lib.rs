//! The ideal signature scheme with the interface of ed25519-dalek: a signature is valid for exactly
//! the message and the key it was made for. (The arithmetic of curve 25519 is out of reach of a solver.)
use std::{fmt, str::FromStr, sync::Mutex};

pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const SIGNATURE_LENGTH: usize = 64;
pub type SecretKey = [u8; 32];

static SIGNED: Mutex<Vec<([u8; 32], Vec<u8>)>> = Mutex::new(Vec::new());

#[derive(Debug)]
pub struct SignatureError;
impl fmt::Display for SignatureError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("signature error")
    }
}
impl std::error::Error for SignatureError {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Signature([u8; 64]);
impl Signature {
    pub fn from_bytes(b: &[u8; 64]) -> Self {
        Signature(*b)
    }
    pub fn from_slice(b: &[u8]) -> Result<Self, SignatureError> {
        b.try_into().map(Signature).map_err(|_| SignatureError)
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        self.0
    }
}
impl fmt::Display for Signature {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in self.0 {
            write!(f, "{b:02X}")?;
        }
        Ok(())
    }
}
impl FromStr for Signature {
    type Err = SignatureError;
    fn from_str(s: &str) -> Result<Self, SignatureError> {
        let s = s.as_bytes();
        if s.len() != 128 {
            return Err(SignatureError);
        }
        let digit = |b: u8| match b {
            b'0'..=b'9' => Ok(b - b'0'),
            b'A'..=b'F' => Ok(b - b'A' + 10),
            b'a'..=b'f' => Ok(b - b'a' + 10),
            _ => Err(SignatureError),
        };
        let mut r = [0; 64];
        for i in 0..64 {
            r[i] = digit(s[2 * i])? * 16 + digit(s[2 * i + 1])?;
        }
        Ok(Signature(r))
    }
}

fn public(k: &[u8; 32]) -> [u8; 32] {
    k.map(|b| b ^ 0x55)
}

#[derive(Clone, Debug)]
pub struct SigningKey([u8; 32]);
impl SigningKey {
    pub fn from_bytes(b: &[u8; 32]) -> Self {
        SigningKey(*b)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn verifying_key(&self) -> VerifyingKey {
        VerifyingKey(public(&self.0))
    }
    fn make(&self, msg: &[u8]) -> Signature {
        let mut t = SIGNED.lock().unwrap();
        t.push((public(&self.0), msg.to_vec()));
        let mut r = [0xA7; 64];
        r[0] = t.len() as u8;
        Signature(r)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct VerifyingKey([u8; 32]);
impl VerifyingKey {
    pub fn from_bytes(b: &[u8; 32]) -> Result<Self, SignatureError> {
        Ok(VerifyingKey(*b))
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn verify_strict(&self, msg: &[u8], s: &Signature) -> Result<(), SignatureError> {
        let t = SIGNED.lock().unwrap();
        if s.0[1..] != [0xA7; 63] || s.0[0] == 0 || s.0[0] as usize > t.len() {
            return Err(SignatureError);
        }
        let (k, m) = &t[s.0[0] as usize - 1];
        if *k == self.0 && m == msg { Ok(()) } else { Err(SignatureError) }
    }
}

pub trait Signer<S> {
    fn sign(&self, msg: &[u8]) -> S;
}
pub trait Verifier<S> {
    fn verify(&self, msg: &[u8], s: &S) -> Result<(), SignatureError>;
}
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, msg: &[u8], s: &Signature) -> Result<(), SignatureError> {
        self.verify_strict(msg, s)
    }
}

pub mod ed25519 {
    pub mod signature {
        pub trait SignerMut<S> {
            fn sign(&mut self, msg: &[u8]) -> S;
        }
        impl SignerMut<crate::Signature> for crate::SigningKey {
            fn sign(&mut self, msg: &[u8]) -> crate::Signature {
                self.make(msg)
            }
        }
        pub use crate::{Signer, Verifier};
    }
}
impl Signer<Signature> for SigningKey {
    fn sign(&self, msg: &[u8]) -> Signature {
        self.make(msg)
    }
}
