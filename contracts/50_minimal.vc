// generated once by hand-written rules, then maintained as text: the minimal layer
@fn minimal::MinimalSecureLayer::verify_sig(data, sig_pubkey, user_msg_end)
requires[*] 'within the data' user_msg_end <= data@.len()
ensures[*] 'over all bytes before the signature' ret == ed25519_valid(sig_pubkey@, data@.subrange(0, user_msg_end as int), data@.subrange(user_msg_end as int, data@.len() as int))

@fn minimal::MinimalSecureLayer::compute_shared_secret(peer_ephemeral_public_key)
requires[*] 'key pair or key at hand' old(self).ephemeral_kp is Some || key(*old(self)) is Some
ensures[*] 'changes only the key' *final(self) == (MinimalSecureLayer {
        ephemeral_kp: final(self).ephemeral_kp, encrypt_algo_with_secret: final(self).encrypt_algo_with_secret, ..*old(self) })
ensures[*] 'once' old(self).ephemeral_kp is None ==> ret is Ok && *final(self) == *old(self)
ensures[*] 'the session key' old(self).ephemeral_kp is Some ==> final(self).ephemeral_kp is None && match
    session_key(old(self).ephemeral_kp->0.privkey.sk(), epk(old(self).ephemeral_kp->0.pubkey), peer_ephemeral_public_key@) {
        Some(k) => ret is Ok && key(*final(self)) == Some(k),
        None => ret is Err && key(*final(self)) == key(*old(self)),
    }

@fn minimal::MinimalSecureLayer::encapsulate_message(message)
requires[*] 'peer key known' *message is Ack ==> peer_epk(*old(self)) is Some
ensures[*] 'changes nothing' *final(self) == *old(self)
ensures[*] 'cannot fail' ret is Ok
ensures[*] 'the frame' ret is Ok ==> ret->Ok_0.data@ == frame(mth(*message, own_epk(*old(self)), peer_epk(*old(self))), mpayload(*message))

@fn minimal::MinimalSecureLayer::encrypt_and_write(encapsuled_message, writer)
requires[*] 'key known' key(*old(self)) is Some
ensures[*] 'changes nothing' *final(self) == *old(self)
ensures[*] 'sealed with its hash' ret is Ok ==> final(writer).out() == old(writer).out() + seal(key(*old(self))->0, encapsuled_message.data@ + sha(encapsuled_message.data@))
ensures[*] 'nothing else' ret is Err ==> io::partly(old(writer).out(), final(writer).out(), seal(key(*old(self))->0, encapsuled_message.data@ + sha(encapsuled_message.data@)))
ensures[*] 'cannot fail in memory' old(writer).total() ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()

@fn minimal::MinimalSecureLayer::encapsulate_and_encrypt_and_write_message(data, writer)
requires[*] 'key known' key(*old(self)) is Some
ensures[*] 'changes nothing' *final(self) == *old(self)
ensures[*] 'sealed frame' ret is Ok ==> final(writer).out() == old(writer).out() + seal(key(*old(self))->0, user_plain(old(self).next_nonce_sent, data@))
ensures[*] 'nothing else' ret is Err ==> io::partly(old(writer).out(), final(writer).out(), seal(key(*old(self))->0, user_plain(old(self).next_nonce_sent, data@)))
ensures[*] 'cannot fail in memory' old(writer).total() ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()

@fn minimal::MinimalSecureLayer::create(config, expected_remote_sig_public_key)
ensures[*] 'inv:key' ret is Ok ==> inv_key(ret->Ok_0)
ensures[*] 'inv:status' ret is Ok ==> inv_st(ret->Ok_0)
ensures[C13,C12,C22] 'inv:keypair' ret is Ok ==> inv_kp(ret->Ok_0)
ensures[C11,C12,C13,C22] 'inv:public key' ret is Ok ==> inv_epk(ret->Ok_0)
ensures[C09,C14,C16,C18] 'inv:window' ret is Ok ==> inv_window(ret->Ok_0)
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' ret is Ok ==> inv_kept(ret->Ok_0)
ensures[C14,C16,C18] 'inv:distinct' ret is Ok ==> inv_distinct(ret->Ok_0)
ensures[C14,C16,C18] 'inv:nothing received early' ret is Ok ==> inv_early(ret->Ok_0)
ensures[C06,C07] 'inv:sealed' ret is Ok ==> inv_sealed(ret->Ok_0)
ensures[C02!] 'expected key only' ret is Ok ==> peer(ret->Ok_0) == oview(expected_remote_sig_public_key)
ensures[C04!] 'nothing has happened' ret is Ok ==> ongoing(ret->Ok_0.status) && events(ret->Ok_0.status, false, false, false, false)
ensures[C08!] 'nothing received' ret is Ok ==> recv(ret->Ok_0) =~= ISet::<u64>::empty()
ensures[C10!] 'first number is 0' ret is Ok ==> ret->Ok_0.next_nonce_sent == 0
ensures[C13!] 'own key pair' ret is Ok ==> ret->Ok_0.ephemeral_kp is Some && inv_kp(ret->Ok_0) && key(ret->Ok_0) is None
ensures[C14!] 'nothing kept' ret is Ok ==> early_ack(ret->Ok_0) is None && kept(ret->Ok_0).len() == 0
ensures[C22!] 'a key pair of its own' ret is Ok ==> fresh_kp(ret->Ok_0)
ensures[C19!,C16,C18,C23!] 'settings' ret is Ok ==> ret->Ok_0.config == config && !ret->Ok_0.cloned
ensures[*] 'load' ret is Ok ==> load(ret->Ok_0) == 0 && ret->Ok_0.next_nonce_sent == 0

@fn minimal::MinimalSecureLayer::try_clone()
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[*] 'inv:key' ret is Ok ==> inv_key(ret->Ok_0)
ensures[*] 'inv:status' ret is Ok ==> inv_st(ret->Ok_0)
ensures[C13,C12,C22] 'inv:keypair' ret is Ok ==> inv_kp(ret->Ok_0)
ensures[C11,C12,C13,C22] 'inv:public key' ret is Ok ==> inv_epk(ret->Ok_0)
ensures[C09,C14,C16,C18] 'inv:window' ret is Ok ==> inv_window(ret->Ok_0)
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' ret is Ok ==> inv_kept(ret->Ok_0)
ensures[C14,C16,C18] 'inv:distinct' ret is Ok ==> inv_distinct(ret->Ok_0)
ensures[C14,C16,C18] 'inv:nothing received early' ret is Ok ==> inv_early(ret->Ok_0)
ensures[C06,C07] 'inv:sealed' ret is Ok ==> inv_sealed(ret->Ok_0)
ensures[C04!,C05] 'status unchanged' final(self).status == old(self).status
ensures[C05!] 'never a failed one' failed(old(self).status) ==> ret is Err && failed(final(self).status)
ensures[C19!] 'only after success' ret is Ok ==> success(old(self).status) && success(ret->Ok_0.status) && success(final(self).status)
ensures[C19!] 'refusal changes nothing' ret is Err ==> *final(self) == *old(self)
ensures[C19!] 'a successful one can be cloned' success(old(self).status) ==> ret is Ok
ensures[C19!,C23!] 'both are frozen' ret is Ok ==> ret->Ok_0.cloned && *final(self) == (MinimalSecureLayer { cloned: true, ..*old(self) })
ensures[C19!,C23!] 'continues the session' ret is Ok ==> clone_of(*old(self), ret->Ok_0)
ensures[C10!] 'numbering continues' ret is Ok ==> ret->Ok_0.next_nonce_sent == old(self).next_nonce_sent
ensures[C13!] 'same session key' ret is Ok ==> key(ret->Ok_0) == key(*old(self))
ensures[C08!] 'same window' ret is Ok ==> recv(ret->Ok_0) =~= recv(*old(self))
ensures[C14!] 'same early messages' ret is Ok ==> kept(ret->Ok_0) =~= kept(*old(self))
ensures[C04!,C05!] 'a clone is successful' ret is Ok ==> success(old(self).status) && success(ret->Ok_0.status)
ensures[C02!] 'peer identity unchanged' q_c02(*old(self), *final(self))
ensures[C03!] 'ephemeral keys unchanged' q_c03(*old(self), *final(self))
ensures[C08!] 'replay window unchanged' q_c08(*old(self), *final(self))
ensures[C10!] 'message number unchanged' q_c10(*old(self), *final(self))
ensures[C13!] 'session key unchanged' q_c13(*old(self), *final(self))
ensures[C14!] 'early messages unchanged' q_c14(*old(self), *final(self))

@fn minimal::MinimalSecureLayer::change_config(new_config)
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[C19!,C23!] 'refused after cloning' old(self).cloned ==> ret is Err && *final(self) == *old(self)
ensures[C19!] 'changes nothing else' *final(self) == (MinimalSecureLayer { config: final(self).config, ..*old(self) })
ensures[C19!,C23!] 'changes the settings' !old(self).cloned ==> ret is Ok && final(self).config == new_config
ensures[C04!,C05!] 'status unchanged' final(self).status == old(self).status
ensures[C02!] 'peer identity unchanged' q_c02(*old(self), *final(self))
ensures[C03!] 'ephemeral keys unchanged' q_c03(*old(self), *final(self))
ensures[C08!] 'replay window unchanged' q_c08(*old(self), *final(self))
ensures[C10!] 'message number unchanged' q_c10(*old(self), *final(self))
ensures[C13!] 'session key unchanged' q_c13(*old(self), *final(self))
ensures[C14!] 'early messages unchanged' q_c14(*old(self), *final(self))

@fn minimal::MinimalSecureLayer::read_inner(incoming_data, check_encrypt_state)
requires[*] 'assume:fewer than 2^62 messages' load(*old(self)) < max_count() && old(self).next_nonce_sent < max_count()
ensures[*] 'load' load(*final(self)) <= load(*old(self)) + 1 && final(self).next_nonce_sent == old(self).next_nonce_sent
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
requires[C06,C07] 'inv:sealed' !check_encrypt_state ==> sealed_origin(key(*old(self)), incoming_data@)
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'kind' read_kind(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C12!,C14,C15,C16,C09,C18] 'sound' read_sound(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[*] 'early messages stay' got_some(ret) ==> early_ack(*final(self)) == early_ack(*old(self)) && kept(*final(self)) == kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C09,C12,C13,C14,C15,C16,C18] 'kind' read_kind(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C12!,C14,C15,C16,C09,C18] 'sound' read_sound(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[*] 'early messages stay' got_some(ret) ==> early_ack(*final(self)) == early_ack(*old(self)) && kept(*final(self)) == kept(*old(self))
ensures[C02,C12,C16,C13,C14,C15,C18] 'read C02' read_c02(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C03,C16,C18] 'read C03' read_c03(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C04,C05,C07,C08,C14,C16,C02,C03,C13,C06,C15,C18] 'read C04' read_c04(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C05] 'read C05' read_c05(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C06] 'read C06' read_c06(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C07,C14,C16,C18] 'read C07' read_c07(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C08,C14,C16,C18] 'read C08' read_c08(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C09] 'read C09' read_c09(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C10] 'read C10' read_c10(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C12,C14,C16,C18] 'read C12' read_c12(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C13,C06,C07,C16,C14,C15,C18] 'read C13' read_c13(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C14,C07,C08,C16,C02,C03,C04,C05,C13,C06,C15,C18] 'read C14' read_c14(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C15,C14] 'read C15' read_c15(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C19,C23] 'read C19' read_c19(*old(self), *final(self), incoming_data@, check_encrypt_state, ret)
ensures[C14,C16,C09,C18] 'window grows by one' orphans(*final(self)).len() <= orphans(*old(self)).len() + 1 && (!got_user(ret) ==> orphans(*final(self)) == orphans(*old(self)))
loop 0 invariant[*] 'bounded' __cnt0 as int + self.orphan_nonce_list@.len() as int <= old(self).next_nonce_expected as int + old(self).orphan_nonce_list@.len() as int + 1
loop 0 decreases self.orphan_nonce_list@.len()
loop 0 invariant[*] 'frame' *self == (MinimalSecureLayer { next_nonce_expected: self.next_nonce_expected, orphan_nonce_list: self.orphan_nonce_list, ..*old(self) })
loop 0 invariant[C08,C09,C14,C15,C16,C18] 'window kept' recv_at(__cnt0, self.orphan_nonce_list@) =~= recv(*old(self)).insert(old(self).next_nonce_expected)
loop 0 invariant[C09,C14,C16,C18] 'above the lowest' forall|k: u64| #[trigger] self.orphan_nonce_list@.contains(k) ==> k >= __cnt0
loop 0 invariant[C09,C14,C16,C18] 'not more numbers' self.orphan_nonce_list@.len() <= old(self).orphan_nonce_list@.len()

@fn minimal::MinimalSecureLayer::read(incoming_data)
requires[*] 'assume:fewer than 2^62 messages' load(*old(self)) < max_count() && old(self).next_nonce_sent < max_count()
ensures[*] 'load' load(*final(self)) <= load(*old(self)) + 1 && final(self).next_nonce_sent == old(self).next_nonce_sent
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C09,C12,C13,C14,C15,C16,C18] 'kind' read_kind(*old(self), *final(self), incoming_data@, true, ret)
ensures[C12!,C14,C15,C16,C09,C18] 'sound' read_sound(*old(self), *final(self), incoming_data@, true, ret)
ensures[*] 'early messages stay' got_some(ret) ==> early_ack(*final(self)) == early_ack(*old(self)) && kept(*final(self)) == kept(*old(self))
ensures[C02!,C12,C16,C13,C14,C18] 'read C02' read_c02(*old(self), *final(self), incoming_data@, true, ret)
ensures[C03!,C16,C18] 'read C03' read_c03(*old(self), *final(self), incoming_data@, true, ret)
ensures[C04!,C05,C07,C08,C14,C16,C02,C03,C13,C06,C15,C18] 'read C04' read_c04(*old(self), *final(self), incoming_data@, true, ret)
ensures[C05!] 'read C05' read_c05(*old(self), *final(self), incoming_data@, true, ret)
ensures[C06!] 'read C06' read_c06(*old(self), *final(self), incoming_data@, true, ret)
ensures[C07!,C14,C16,C18] 'read C07' read_c07(*old(self), *final(self), incoming_data@, true, ret)
ensures[C08!,C14,C16,C18] 'read C08' read_c08(*old(self), *final(self), incoming_data@, true, ret)
ensures[C09!] 'read C09' read_c09(*old(self), *final(self), incoming_data@, true, ret)
ensures[C10!] 'read C10' read_c10(*old(self), *final(self), incoming_data@, true, ret)
ensures[C12!,C14,C16,C18] 'read C12' read_c12(*old(self), *final(self), incoming_data@, true, ret)
ensures[C13!,C06,C07,C16,C14,C18] 'read C13' read_c13(*old(self), *final(self), incoming_data@, true, ret)
ensures[C14!,C07,C08,C16,C02,C03,C04,C05,C13,C06,C18] 'read C14' read_c14(*old(self), *final(self), incoming_data@, true, ret)
ensures[C15!,C14] 'read C15' read_c15(*old(self), *final(self), incoming_data@, true, ret)
ensures[C19!,C23!] 'read C19' read_c19(*old(self), *final(self), incoming_data@, true, ret)
ensures[C14,C16,C18] 'window grows by one' orphans(*final(self)).len() <= orphans(*old(self)).len() + 1 && (!got_user(ret) ==> orphans(*final(self)) == orphans(*old(self)))

@fn minimal::MinimalSecureLayer::take_ack_msg_recv_too_early()
requires[*] 'assume:fewer than 2^62 messages' load(*old(self)) < max_count() && old(self).next_nonce_sent < max_count()
ensures[*] 'load' load(*final(self)) <= load(*old(self)) + 1 && final(self).next_nonce_sent == old(self).next_nonce_sent
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[*] 'nothing kept' early_ack(*old(self)) is None ==> ret is Ok && ret->Ok_0 is None && *final(self) == *old(self)
ensures[C02,C03,C04,C05,C06,C07,C08,C09,C12,C13,C14,C15,C16,C18] 'kind' early_ack(*old(self)) is Some ==> read_kind(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C12!,C14,C15,C16,C18] 'sound' early_ack(*old(self)) is Some ==> read_sound(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C02!,C16,C18] 'read C02' early_ack(*old(self)) is Some ==> read_c02(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C03!,C16,C18] 'read C03' early_ack(*old(self)) is Some ==> read_c03(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C04!,C05,C16,C02,C03,C13,C14,C08,C18] 'read C04' early_ack(*old(self)) is Some ==> read_c04(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C05!] 'read C05' early_ack(*old(self)) is Some ==> read_c05(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C06!] 'read C06' early_ack(*old(self)) is Some ==> read_c06(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C07!] 'read C07' early_ack(*old(self)) is Some ==> read_c07(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C08!] 'read C08' early_ack(*old(self)) is Some ==> read_c08(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C09!] 'read C09' early_ack(*old(self)) is Some ==> read_c09(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C10!] 'read C10' early_ack(*old(self)) is Some ==> read_c10(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C12!,C14!,C16,C18] 'read C12' early_ack(*old(self)) is Some ==> read_c12(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C13!,C16,C18] 'read C13' early_ack(*old(self)) is Some ==> read_c13(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C14!,C16,C18] 'delivered at most once' early_ack(*old(self)) is Some && got_ack(ret) ==> early_ack(*final(self)) is None
ensures[C16,C14,C18] 'read C14' early_ack(*old(self)) is Some ==> read_c14(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C15!] 'read C15' early_ack(*old(self)) is Some ==> read_c15(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)
ensures[C19!,C23!] 'read C19' early_ack(*old(self)) is Some ==> read_c19(no_early_ack(*old(self)), *final(self), early_ack(*old(self))->0, true, ret)

@fn minimal::MinimalSecureLayer::drain_tmp_stack_user_msgs()
requires[*] 'assume:fewer than 2^62 messages' load(*old(self)) < max_count() && old(self).next_nonce_sent < max_count()
ensures[*] 'load' load(*final(self)) <= load(*old(self)) && final(self).next_nonce_sent == old(self).next_nonce_sent
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[C02!] 'no identity' q_c02(*old(self), *final(self)) && key(*final(self)) == key(*old(self)) && (pc(final(self).status) ==> pc(old(self).status)) && (pa(final(self).status) ==> pa(old(self).status))
ensures[C03!] 'no ACK' pa(final(self).status) ==> pa(old(self).status)
ensures[C03!] 'ephemeral keys' own_epk(*final(self)) == own_epk(*old(self)) && (!failed(final(self).status) ==> peer_epk(*final(self)) == peer_epk(*old(self)))
ensures[C03,C04,C05,C07,C08,C14,C16,C18] 'status stays' ret is Ok ==> final(self).status == old(self).status
ensures[C12!,C16,C18] 'nothing to deliver' kept(*old(self)).len() == 0 ==> ret is Ok && ret->Ok_0@.len() == 0 && final(self).status == old(self).status
ensures[C04!,C08,C14,C16,C05,C07,C18] 'only after success' ret is Ok && ret->Ok_0@.len() > 0 ==> success(old(self).status)
ensures[C04!,C08,C14,C16,C18] 'status' final(self).status == old(self).status || failed(final(self).status)
ensures[C05!] 'a failed layer delivers nothing' failed(old(self).status) ==> failed(final(self).status) && (ret is Ok ==> ret->Ok_0@.len() == 0)
ensures[C07!,C14,C16,C18] 'exact data' ret is Ok && ret->Ok_0@.len() > 0 ==> ret->Ok_0@.len() == kept(*old(self)).len() && forall|i: int| 0 <= i < ret->Ok_0@.len() ==> (#[trigger] ret->Ok_0@[i]) is Message
    && msg_payload(ret->Ok_0@[i]) == opt(payload(kf(*old(self), i))) && hash_ok(kf(*old(self), i))
ensures[C06!,C07!] 'came encrypted' ret is Ok ==> ret->Ok_0@.len() <= kept(*old(self)).len() && forall|i: int| 0 <= i < ret->Ok_0@.len() ==> sealed_origin(key(*old(self)), #[trigger] kept(*old(self))[i])
ensures[C08!] 'each number once, none forgotten' drain_c08(*old(self), *final(self), ret)
ensures[C10!] 'message number unchanged' q_c10(*old(self), *final(self))
ensures[C13!,C06,C07] 'session key unchanged' q_c13r(*old(self), *final(self))
ensures[C14!,C16,C18] 'all delivered once, in order' drainable(*old(self)) ==> ret is Ok && ret->Ok_0@.len() == kept(*old(self)).len() && kept(*final(self)).len() == 0
    && (forall|i: int| 0 <= i < ret->Ok_0@.len() ==> (#[trigger] ret->Ok_0@[i]) is Message && msg_payload(ret->Ok_0@[i]) == opt(payload(kf(*old(self), i))))
ensures[C14!] 'not delivered early, not lost' ongoing(old(self).status) ==> ret is Ok && ret->Ok_0@.len() == 0 && kept(*final(self)) =~= kept(*old(self)) && final(self).status == old(self).status
ensures[C14!] 'early ACK unchanged' early_ack(*final(self)) == early_ack(*old(self))
ensures[C15!] 'no trace but the messages' peer(*final(self)) == peer(*old(self)) && key(*final(self)) == key(*old(self)) && early_ack(*final(self)) == early_ack(*old(self)) && final(self).next_nonce_sent == old(self).next_nonce_sent
ensures[C19!,C23!] 'settings unchanged' q_c19(*old(self), *final(self))
loop 0 invariant[*] 'the kept messages' __it0.all() == old(self).tmp_stack_user_msgs@ && __it0.pos() <= __it0.all().len()
loop 0 invariant[*] 'bounded' load(*self) <= load(*old(self)) - __it0.all().len() + __it0.pos() && self.next_nonce_sent == old(self).next_nonce_sent && load(*old(self)) < max_count() && old(self).next_nonce_sent < max_count()
loop 0 decreases __it0.all().len() - __it0.pos()
loop 0 invariant[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'user frames' inv_kept(*old(self))
loop 0 invariant[C02] 'identity' q_c02(*old(self), *self) && key(*self) == key(*old(self)) && (pc(self.status) ==> pc(old(self).status)) && (pa(self.status) ==> pa(old(self).status))
loop 0 invariant[C03] 'no ACK' pa(self.status) ==> pa(old(self).status)
loop 0 invariant[C04,C05,C07,C08,C14,C16,C18] 'only after success' __acc0@.len() > 0 ==> success(old(self).status)
loop 0 invariant[C04,C05,C07,C08,C14,C16,C18] 'status' self.status == old(self).status || failed(self.status) && self.status is Fail
loop 0 invariant[C05] 'nothing when failed' failed(old(self).status) ==> __acc0@.len() == 0
loop 0 invariant[C12] 'at most one each' __acc0@.len() <= __it0.pos() && (__it0.pos() == 0 ==> self.status == old(self).status)
loop 0 invariant[C03] 'ephemeral keys' own_epk(*self) == own_epk(*old(self)) && (!failed(self.status) ==> peer_epk(*self) == peer_epk(*old(self)))
loop 0 invariant[C03,C04,C05,C07,C08,C14,C16,C18] 'status stays' self.status == old(self).status
loop 0 invariant[C07,C08,C14,C16,C18] 'one each' if success(old(self).status) { __acc0@.len() == __it0.pos() && kept(*self).len() == 0 } else { __acc0@.len() == 0 }
loop 0 invariant[C07,C14,C16,C18] 'exact data' forall|qi__: int| 0 <= qi__ < __acc0@.len() ==> (#[trigger] __acc0@[qi__]) is Message && msg_payload(__acc0@[qi__]) == opt(payload(kf(*old(self), qi__))) && hash_ok(kf(*old(self), qi__))
loop 0 invariant[C06,C07] 'came encrypted' inv_sealed(*old(self)) && key(*self) == key(*old(self)) && __acc0@.len() <= __it0.pos()
loop 0 invariant[C08,C14,C16,C18] 'numbers' recv(*self) =~= recv_after(*old(self), if success(old(self).status) { __it0.pos() as int } else { 0 }) && (success(old(self).status) ==>
    forall|qi__: int| 0 <= qi__ < __it0.pos() ==> #[trigger] is_new(recv(*old(self)), kept(*old(self)), qi__))
loop 0 invariant[C10,C15] 'number' q_c10(*old(self), *self)
loop 0 invariant[C13,C15,C06,C07,C14] 'key' q_c13r(*old(self), *self)
loop 0 invariant[C15,C14] 'early ACK' early_ack(*self) == early_ack(*old(self))
loop 0 invariant[C15] 'identity' peer(*self) == peer(*old(self))
loop 0 invariant[C19,C23] 'settings' q_c19(*old(self), *self)
loop 0 invariant[C14,C16,C18] 'invariants of the start' inv_distinct(*old(self)) && inv_early(*old(self)) && inv_window(*old(self))
loop 0 invariant[C14,C16,C18] 'window' success(old(self).status) ==> orphans(*self).len() <= orphans(*old(self)).len() + __it0.pos()
loop 0 invariant[C14] 'kept again in order' ongoing(old(self).status) ==> kept(*self) =~= kept(*old(self)).subrange(0, __it0.pos() as int)
loop 0 invariant[*] 'inv:key' inv_key(*self)
loop 0 invariant[*] 'inv:status' inv_st(*self)
loop 0 invariant[C13,C12,C22] 'inv:keypair' inv_kp(*self)
loop 0 invariant[C11,C12,C13,C22] 'inv:public key' inv_epk(*self)
loop 0 invariant[C09,C14,C16,C18] 'inv:window' inv_window(*self)
loop 0 invariant[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*self)
loop 0 invariant[C14,C16,C18] 'inv:distinct' inv_distinct(*self)
loop 0 invariant[C14,C16,C18] 'inv:nothing received early' inv_early(*self)
loop 0 invariant[C06,C07] 'inv:sealed' inv_sealed(*self)

@fn minimal::MinimalSecureLayer::create_connect_message(public_key, custom_data)
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[*] 'only the status' same_but_status(*old(self), *final(self))
ensures[C11!,C12,C16,C17,C18,C22!,C23] 'the message' ret is Ok ==> ret->Ok_0@ == connect_msg(own_epk(*old(self)), public_key@, obytes(custom_data))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(old(self).status, MsgType::Connect) && ongoing(final(self).status) && events(final(self).status, true, pc(old(self).status), oa(old(self).status), pa(old(self).status))
ensures[C04!] 'refusal' ret is Err ==> final(self).status == old(self).status || failed(final(self).status)
ensures[C05!] 'silent after failure' failed(old(self).status) ==> ret is Err && failed(final(self).status)
ensures[C12!,C16,C18] 'whenever permitted' may_create(old(self).status, MsgType::Connect) ==> ret is Ok
ensures[C02!] 'peer identity unchanged' q_c02(*old(self), *final(self))
ensures[C03!] 'ephemeral keys unchanged' q_c03(*old(self), *final(self))
ensures[C08!] 'replay window unchanged' q_c08(*old(self), *final(self))
ensures[C10!] 'message number unchanged' q_c10(*old(self), *final(self))
ensures[C13!] 'session key unchanged' q_c13(*old(self), *final(self))
ensures[C14!] 'early messages unchanged' q_c14(*old(self), *final(self))
ensures[C19!,C23!] 'settings unchanged' q_c19(*old(self), *final(self))

@fn minimal::MinimalSecureLayer::create_ack_message(custom_data)
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[*] 'only the status' same_but_status(*old(self), *final(self))
ensures[C11!,C03!,C12,C16,C17,C18,C23] 'the message' ret is Ok ==> peer_epk(*old(self)) is Some && ret->Ok_0@ == ack_msg(peer_epk(*old(self))->0, obytes(custom_data))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(old(self).status, MsgType::Ack) && events(final(self).status, cc(old(self).status), pc(old(self).status), true, pa(old(self).status))
ensures[C04!] 'refusal' ret is Err ==> final(self).status == old(self).status || failed(final(self).status)
ensures[C05!] 'silent after failure' failed(old(self).status) ==> ret is Err && failed(final(self).status)
ensures[C12!,C16,C18] 'whenever permitted' may_create(old(self).status, MsgType::Ack) ==> ret is Ok
ensures[C02!] 'peer identity unchanged' q_c02(*old(self), *final(self))
ensures[C03!] 'ephemeral keys unchanged' q_c03(*old(self), *final(self))
ensures[C08!] 'replay window unchanged' q_c08(*old(self), *final(self))
ensures[C10!] 'message number unchanged' q_c10(*old(self), *final(self))
ensures[C13!] 'session key unchanged' q_c13(*old(self), *final(self))
ensures[C14!] 'early messages unchanged' q_c14(*old(self), *final(self))
ensures[C19!,C23!] 'settings unchanged' q_c19(*old(self), *final(self))

@fn minimal::MinimalSecureLayer::write_message(data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(*old(self)) < max_count() && old(self).next_nonce_sent < max_count()
ensures[*] 'load' load(*final(self)) == load(*old(self)) && final(self).next_nonce_sent <= old(self).next_nonce_sent + 1
requires[*] 'inv:key' inv_key(*old(self))
ensures[*] 'inv:key' inv_key(*final(self))
requires[*] 'inv:status' inv_st(*old(self))
ensures[*] 'inv:status' inv_st(*final(self))
requires[C13,C12,C22] 'inv:keypair' inv_kp(*old(self))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(*final(self))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(*old(self))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(*final(self))
requires[C09,C14,C16,C18] 'inv:window' inv_window(*old(self))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(*final(self))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*old(self))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(*final(self))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(*old(self))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(*final(self))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(*old(self))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(*final(self))
requires[C06,C07] 'inv:sealed' inv_sealed(*old(self))
ensures[C06,C07] 'inv:sealed' inv_sealed(*final(self))
ensures[*] 'status and number only' *final(self) == (MinimalSecureLayer { status: final(self).status, next_nonce_sent: final(self).next_nonce_sent, ..*old(self) })
ensures[C04!] 'only after success' !success(old(self).status) ==> ret is Err && final(writer).out() == old(writer).out()
ensures[C04!,C16,C19!,C18] 'status' final(self).status == old(self).status || failed(final(self).status)
ensures[C05!] 'silent after failure' failed(old(self).status) ==> ret is Err && failed(final(self).status) && final(writer).out() == old(writer).out()
ensures[C06!] 'only ciphertext' final(writer).out() == old(writer).out() || key(*old(self)) is Some && exists|n: u64| io::partly(old(writer).out(), final(writer).out(), seal(key(*old(self))->0, #[trigger] user_plain(n, data@)))
ensures[C06!,C11!,C17!,C12,C16,C18,C23] 'the complete sealed frame' ret is Ok ==> key(*old(self)) is Some && exists|n: u64| final(writer).out() == old(writer).out() + seal(key(*old(self))->0, #[trigger] user_plain(n, data@))
ensures[C10!] 'carries the next number' ret is Ok ==> final(writer).out() == old(writer).out() + seal(key(*old(self))->0, user_plain(old(self).next_nonce_sent, data@)) && final(self).next_nonce_sent == old(self).next_nonce_sent + 1
ensures[C10!] 'failure does not count, and ends writing' ret is Err ==> final(self).next_nonce_sent == old(self).next_nonce_sent && (success(old(self).status) ==> failed(final(self).status))
ensures[C20!] 'sealed under the key and nonce the layer holds' ret is Ok ==> key(*old(self)) is Some && exists|pt: Seq<u8>| final(writer).out() == old(writer).out() + #[trigger] seal(key(*old(self))->0, pt)
ensures[C20!] 'one-nonce-per-session' ret is Ok ==> key(*final(self)) is None || key(*final(self))->0.nonce != key(*old(self))->0.nonce
ensures[C12!,C16,C18] 'succeeds in memory' success(old(self).status) && old(writer).total() ==> ret is Ok && final(self).status == old(self).status
ensures[C02!] 'peer identity unchanged' q_c02(*old(self), *final(self))
ensures[C03!] 'ephemeral keys unchanged' q_c03(*old(self), *final(self))
ensures[C08!] 'replay window unchanged' q_c08(*old(self), *final(self))
ensures[C13!] 'session key unchanged' q_c13(*old(self), *final(self))
ensures[C14!] 'early messages unchanged' q_c14(*old(self), *final(self))
ensures[C19!,C23!] 'settings unchanged' q_c19(*old(self), *final(self))
