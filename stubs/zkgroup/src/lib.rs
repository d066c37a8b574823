//! Type-level stand-in for libsignal's `zkgroup`, which cannot be fetched offline.
//! It exists only so that the rest of ringrtc can be type-checked and lowered to MIR; the
//! analyses treat every function of this crate as opaque.
use serde::{Deserialize, Serialize};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Debug)]
pub struct ZkGroupDeserializationFailure;
impl std::fmt::Display for ZkGroupDeserializationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("zkgroup deserialization failure") }
}
impl std::error::Error for ZkGroupDeserializationFailure {}
#[derive(Debug)]
pub struct ZkGroupVerificationFailure;
impl std::fmt::Display for ZkGroupVerificationFailure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("zkgroup verification failure") }
}
impl std::error::Error for ZkGroupVerificationFailure {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Timestamp(u64);
impl Timestamp {
    pub const fn from_epoch_seconds(s: u64) -> Self { Self(s) }
    pub const fn epoch_seconds(&self) -> u64 { self.0 }
}
impl From<Timestamp> for SystemTime {
    fn from(t: Timestamp) -> Self { UNIX_EPOCH + Duration::from_secs(t.0) }
}

pub fn deserialize<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, ZkGroupDeserializationFailure> {
    bincode::deserialize(bytes).map_err(|_| ZkGroupDeserializationFailure)
}
pub fn serialize<T: Serialize>(value: &T) -> Vec<u8> {
    bincode::serialize(value).unwrap_or_default()
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct EndorsementPublicKey(pub [u8; 32]);

pub mod call_links {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct CallLinkSecretParams { key: [u8; 16] }
    impl CallLinkSecretParams {
        pub const ROOT_KEY_MAX_BYTES_FOR_SHO: usize = 16;
        pub fn derive_from_root_key(root_key: &[u8]) -> Self {
            let mut key = [0; 16];
            let n = root_key.len().min(16);
            key[..n].copy_from_slice(&root_key[..n]);
            Self { key }
        }
        pub fn encrypt_uid(&self, uid: [u8; 16]) -> super::groups::UuidCiphertext {
            let mut u = uid; for i in 0..16 { u[i] ^= self.key[i]; }
            super::groups::UuidCiphertext(u.to_vec())
        }
        pub fn decrypt_uid(&self, ciphertext: super::groups::UuidCiphertext) -> Result<Aci, super::ZkGroupVerificationFailure> {
            let mut u: [u8; 16] = ciphertext.0.as_slice().try_into().map_err(|_| super::ZkGroupVerificationFailure)?;
            for i in 0..16 { u[i] ^= self.key[i]; }
            Ok(Aci(u))
        }
    }
    pub struct Aci([u8; 16]);
    impl Aci { pub fn service_id_binary(&self) -> Vec<u8> { self.0.to_vec() } }
    impl From<Aci> for [u8; 16] { fn from(a: Aci) -> Self { a.0 } }
}

pub mod groups {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct UuidCiphertext(pub Vec<u8>);
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendEndorsement(pub Vec<u8>);
    pub struct ReceivedEndorsement { pub compressed: GroupSendEndorsement, pub decompressed: GroupSendEndorsement }
    pub struct GroupSendToken(Vec<u8>);
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct GroupSendFullToken(pub Vec<u8>, pub Timestamp);
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct GroupSendEndorsementsResponse { pub expiration: Timestamp, pub endorsements: Vec<GroupSendEndorsement>, pub key: [u8; 32] }
    impl GroupSendEndorsementsResponse {
        pub fn expiration(&self) -> Timestamp { self.expiration }
        pub fn receive_with_ciphertexts(
            self,
            ciphertexts: impl IntoIterator<Item = UuidCiphertext>,
            now: Timestamp,
            public_key: &EndorsementPublicKey,
        ) -> Result<Vec<ReceivedEndorsement>, ZkGroupVerificationFailure> {
            let n = ciphertexts.into_iter().count();
            if n != self.endorsements.len() || now > self.expiration || public_key.0 != self.key { return Err(ZkGroupVerificationFailure); }
            Ok(self.endorsements.into_iter().map(|e| ReceivedEndorsement { compressed: e.clone(), decompressed: e }).collect())
        }
    }
    impl GroupSendEndorsement {
        pub fn combine(endorsements: impl IntoIterator<Item = GroupSendEndorsement>) -> GroupSendEndorsement {
            GroupSendEndorsement(endorsements.into_iter().flat_map(|e| e.0).collect())
        }
        pub fn to_token<T: Into<crate::call_links::CallLinkSecretParams>>(&self, _p: T) -> GroupSendToken { GroupSendToken(self.0.clone()) }
    }
    impl GroupSendToken { pub fn into_full_token(self, expiration: Timestamp) -> GroupSendFullToken { GroupSendFullToken(self.0, expiration) } }
}
