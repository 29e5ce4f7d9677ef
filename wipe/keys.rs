use super::types::{dropped, next, pattern};
use crate::agreement::SharedSecret;
use crate::encryption::{EncryptAlgo, EncryptAlgoWithSecretKey};
use crate::seeds::Seed48;

fn key() -> EncryptAlgoWithSecretKey {
    next();
    let mut s = Seed48::default();
    s.as_mut().copy_from_slice(&pattern()[..48]);
    EncryptAlgoWithSecretKey::build(EncryptAlgo::Chacha20Poly1305Aead, SharedSecret::B48(s))
}
pub fn run(out: &mut Vec<String>) {
    dropped("EncryptAlgoWithSecretKey", key(), None, out);
    dropped("clone of an EncryptAlgoWithSecretKey", key().clone(), None, out);
    dropped("Option<EncryptAlgoWithSecretKey>", Some(key()), None, out);
}
