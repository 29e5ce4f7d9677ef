// ------------------------------------------------------------------ key agreement and session key
@fn seeds::Seed32::as_ref()
ensures[*] 'the bytes' ret@ == self.0@
@fn seeds::Seed48::as_ref()
ensures[*] 'the bytes' ret@ == self.0.0@
@fn seeds::Seed32::new(seed_bytes)
ensures[C22!] 'exactly these' ret.0@ == seed_bytes@
ensures[*] 'the bytes' ret.0 == seed_bytes
@fn seeds::Seed32::random()
ensures[C22!] 'drawn from the system' drawn(ret.0@)
@fn seeds::Seed32::as_mut()
ensures[*] 'the bytes' ret@ == old(self).0@ && final(self).0@ == final(ret)@
@fn seeds::Seed48::as_mut()
ensures[*] 'the bytes' ret@ == old(self).0.0@ && final(self).0.0@ == final(ret)@
@fn seeds::Seed64::as_mut()
ensures[*] 'the bytes' ret@ == old(self).0.0@ && final(self).0.0@ == final(ret)@
@fn agreement::SharedSecretLen::algo()
ensures[*] 'PBKDF2 variant' ret.id == ss_alg(self)
@fn agreement::SharedSecret::new(len)
ensures[*] 'length' ss_kind(ret, len)
@fn agreement::SharedSecret::as_mut()
ensures[*] 'the bytes' ret@ == ssview(*old(self)) && ssview(*final(self)) == final(ret)@
    && (forall|l: SharedSecretLen| ss_kind(*old(self), l) ==> ss_kind(*final(self), l) && ret@.len() == ss_len(l))
@fn agreement::EphemeralPublicKey::as_ref()
ensures[*] 'the bytes' ret@ == epk(*self)
@fn agreement::EphemeralKeyPair::generate()
ensures[*] 'a key pair' ret is Ok ==> epk(ret->Ok_0.pubkey) == base(ret->Ok_0.privkey.sk())
ensures[C22!] 'a new one' ret is Ok ==> drawn(ret->Ok_0.privkey.sk()) && epk(ret->Ok_0.pubkey) == base(ret->Ok_0.privkey.sk())
@fn agreement::EphemeralKeyPair::public_key()
ensures[*] 'own key' *ret == self.pubkey
@fn agreement::derive(seed, salt, shared_secret_len)
ensures[*] 'length' ss_kind(ret, shared_secret_len)
ensures[*] 'PBKDF2' ssview(ret) == pbkdf2(ss_alg(shared_secret_len), 3, salt@, seed@, ss_len(shared_secret_len))
@fn agreement::EphemeralKeyPair::compute_shared_secret(other_ephemeral_public_key, shared_secret_len)
ensures[*] 'possible' (ret is Ok) == (dh(self.privkey.sk(), other_ephemeral_public_key@) is Some)
ensures[*] 'length' ret is Ok ==> ss_kind(ret->Ok_0, shared_secret_len)
ensures[*] 'derivation' ret is Ok ==> ssview(ret->Ok_0) == pbkdf2(ss_alg(shared_secret_len), 3,
    larger(epk(self.pubkey), other_ephemeral_public_key@),
    dh(self.privkey.sk(), other_ephemeral_public_key@)->0, ss_len(shared_secret_len))
@fn encryption::EncryptAlgo::shared_secret_len()
ensures[*] '48 bytes' ret is B48
@fn encryption::chacha20_poly1305_aead::SecretKey::new(seed)
ensures[*] 'split' skview(ret).key =~= split48(seed.0.0@).key && skview(ret).nonce =~= split48(seed.0.0@).nonce
    && skview(ret).aad =~= split48(seed.0.0@).aad
@fn encryption::EncryptAlgoWithSecretKey::build(encrypt_algo, shared_secret)
requires[*] '48 bytes' shared_secret is B48
ensures[*] 'split' kview(ret) == split48(ssview(shared_secret))

// ------------------------------------------------------------------ encryption
@fn encryption::chacha20_poly1305_aead::encrypt(reader, secret_key, writer)
ensures[*] 'ciphertext and tag' ret is Ok ==> final(writer).out() =~= old(writer).out() + seal(skview(*secret_key), old(reader).rest())
ensures[*] 'nothing else' ret is Err ==> io::partly(old(writer).out(), final(writer).out(), seal(skview(*secret_key), old(reader).rest()))
ensures[*] 'cannot fail in memory' old(writer).total() && old(reader).sure() ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()
@fn encryption::encrypt(reader, algo_with_secret_key, writer)
ensures[*] 'ciphertext and tag' ret is Ok ==> final(writer).out() =~= old(writer).out() + seal(kview(*algo_with_secret_key), old(reader).rest())
ensures[*] 'nothing else' ret is Err ==> io::partly(old(writer).out(), final(writer).out(), seal(kview(*algo_with_secret_key), old(reader).rest()))
ensures[*] 'cannot fail in memory' old(writer).total() && old(reader).sure() ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()
