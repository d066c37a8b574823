//! Type-level stand-in for `x25519-dalek` (its `curve25519-dalek` is a git dependency and is not
//! available offline). NOT CRYPTOGRAPHY: a toy commutative agreement so that simulations run.
use rand_core::{CryptoRng, RngCore};
const P: u128 = (1u128 << 61) - 1;
fn pow(mut b: u128, mut e: u128) -> u128 { let mut r = 1; b %= P; while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; } r }
fn scalar(b: &[u8; 32]) -> u128 { (u64::from_le_bytes(b[..8].try_into().unwrap()) >> 4 | 1) as u128 }
fn expand(v: u128) -> [u8; 32] { let mut o = [0; 32]; o[..16].copy_from_slice(&v.to_le_bytes()); o }
fn point(b: &[u8; 32]) -> u128 { u128::from_le_bytes(b[..16].try_into().unwrap()) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey([u8; 32]);
impl From<[u8; 32]> for PublicKey { fn from(b: [u8; 32]) -> Self { Self(b) } }
impl PublicKey { pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } pub fn to_bytes(&self) -> [u8; 32] { self.0 } }
impl AsRef<[u8]> for PublicKey { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<'a> From<&'a EphemeralSecret> for PublicKey { fn from(s: &'a EphemeralSecret) -> Self { Self(expand(pow(3, scalar(&s.0)))) } }
impl<'a> From<&'a StaticSecret> for PublicKey { fn from(s: &'a StaticSecret) -> Self { Self(expand(pow(3, scalar(&s.0)))) } }
pub struct EphemeralSecret([u8; 32]);
#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
pub struct SharedSecret([u8; 32]);
impl EphemeralSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut rng: T) -> Self { let mut b = [0; 32]; rng.fill_bytes(&mut b); Self(b) }
    pub fn diffie_hellman(self, their_public: &PublicKey) -> SharedSecret { SharedSecret(expand(pow(point(&their_public.0), scalar(&self.0)))) }
}
impl StaticSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(mut rng: T) -> Self { let mut b = [0; 32]; rng.fill_bytes(&mut b); Self(b) }
    pub fn diffie_hellman(&self, their_public: &PublicKey) -> SharedSecret { SharedSecret(expand(pow(point(&their_public.0), scalar(&self.0)))) }
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
}
impl From<[u8; 32]> for StaticSecret { fn from(b: [u8; 32]) -> Self { Self(b) } }
impl SharedSecret {
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn was_contributory(&self) -> bool { self.0 != [0; 32] }
}
