// ------------------------------------------------------------------ hashes, signatures
@fn digest::sha256(datas)
ret crate::ring::digest::Digest
ensures[*] 'SHA-256' ret.v() == sha(datas@)

@fn signature::verify_sig(pubkey, message, sig)
ensures[*] 'Ed25519 verification' ret == ed25519_valid(pubkey@, message@, sig@)

// ------------------------------------------------------------------ decryption and parsing
@fn encryption::chacha20_poly1305_aead::decrypt(encrypted_data, secret_key, writer)
ensures[*] 'authenticated plaintext' ret is Ok ==> unseal(skview(*secret_key), encrypted_data@) is Some
    && final(writer).out() == old(writer).out() + unseal(skview(*secret_key), encrypted_data@)->0
ensures[*] 'complete' old(writer).total() && unseal(skview(*secret_key), encrypted_data@) is Some ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()

@fn encryption::decrypt(encrypted_data, algo_with_secret_key, writer)
ensures[*] 'authenticated plaintext' ret is Ok ==> unseal(kview(*algo_with_secret_key), encrypted_data@) is Some
    && final(writer).out() == old(writer).out() + unseal(kview(*algo_with_secret_key), encrypted_data@)->0
ensures[*] 'complete' old(writer).total() && unseal(kview(*algo_with_secret_key), encrypted_data@) is Some ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()

@fn reader::read_type_headers(type_headers)
ensures[*] 'recognised headers' ret is Ok ==> hdr_len(type_headers@) >= 0 && ret->Ok_0.1 == hdr_len(type_headers@)
ensures[*] 'header fields' ret is Ok ==> hview(ret->Ok_0.0) == hdr_of(type_headers@)
ensures[*] 'all valid headers' hdr_len(type_headers@) >= 0 ==> ret is Ok

@fn reader::read(encrypt_algo_with_secret_opt, incoming_data, check_encrypt_state)
ensures[*] 'payload within the data' ret is Ok ==>
    ret->Ok_0.user_msg_begin <= ret->Ok_0.user_msg_end && ret->Ok_0.user_msg_end <= ret->Ok_0.data@.len()
ensures[*] 'exactly the frame received' ret is Ok ==>
    rd(okrefview(encrypt_algo_with_secret_opt), incoming_data@, check_encrypt_state) is Some
    && dview(ret->Ok_0) == rd(okrefview(encrypt_algo_with_secret_opt), incoming_data@, check_encrypt_state)->0
ensures[*] 'every well-formed frame' rd(okrefview(encrypt_algo_with_secret_opt), incoming_data@, check_encrypt_state) is Some
    ==> ret is Ok

@fn message::Message::from_bytes(msg_bytes, msg_type_headers)
ensures[*] 'kind' ret is Ok && match msg_type_headers {
        MsgTypeHeaders::Connect { peer_ephemeral_pk, sig_algo, sig_pubkey } =>
            ret->Ok_0 is Connect && ret->Ok_0->sig_pubkey == sig_pubkey && ret->Ok_0->sig_algo == sig_algo,
        MsgTypeHeaders::Ack { challenge } => ret->Ok_0 is Ack,
        MsgTypeHeaders::UserMsg { nonce } => ret->Ok_0 is Message,
    }
ensures[*] 'payload' ret is Ok ==> msg_payload(ret->Ok_0) == opt(msg_bytes@)
