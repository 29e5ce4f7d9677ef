// complete mode (format of the minimal layer's file); m(x): the minimal layer inside
@fn complete::SecureLayer::compress(bin_message)
ensures[*] 'a stream for the same bytes' ret is Ok ==> ret->Ok_0@.len() > 0 && inflate(ret->Ok_0@) == Some(bin_message@)
ensures[*] 'cannot fail' ret is Ok
ensures[C23!] 'level as configured' ret is Ok ==> ret->Ok_0@ == zip_as(m(*self).config, bin_message@)
ensures[C16!,C18] 'one deflate stream' ret is Ok ==> exists|l: int| ret->Ok_0@ == #[trigger] deflate(l, bin_message@)
tags C16

@fn complete::SecureLayer::uncompress(bin_zip_msg)
ensures[*] 'the bytes the stream stands for' inflate(bin_zip_msg@) is Some ==> ret is Ok && ret->Ok_0@ == inflate(bin_zip_msg@)->0

@fn complete::SecureLayer::create(config, sig_key_pair_seed, expected_remote_sig_pubkey)
ensures[*] 'inv:key' ret is Ok ==> inv_key(m(ret->Ok_0))
ensures[*] 'inv:status' ret is Ok ==> inv_st(m(ret->Ok_0))
ensures[C13,C12,C22] 'inv:keypair' ret is Ok ==> inv_kp(m(ret->Ok_0))
ensures[C11,C12,C13,C22] 'inv:public key' ret is Ok ==> inv_epk(m(ret->Ok_0))
ensures[C09,C14,C16,C18] 'inv:window' ret is Ok ==> inv_window(m(ret->Ok_0))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' ret is Ok ==> inv_kept(m(ret->Ok_0))
ensures[C14,C16,C18] 'inv:distinct' ret is Ok ==> inv_distinct(m(ret->Ok_0))
ensures[C14,C16,C18] 'inv:nothing received early' ret is Ok ==> inv_early(m(ret->Ok_0))
ensures[C06,C07] 'inv:sealed' ret is Ok ==> inv_sealed(m(ret->Ok_0))
ensures[C02!] 'expected key only' ret is Ok ==> peer(m(ret->Ok_0)) == oview(expected_remote_sig_pubkey)
ensures[C02!,C17!] 'own signature key' ret is Ok ==> ret->Ok_0.sig_key_pair is Some && (sig_key_pair_seed is Some ==> ret->Ok_0.sig_key_pair->0.seed() == (sig_key_pair_seed->0).0@)
ensures[C22!] 'own keys' ret is Ok ==> fresh_kp(m(ret->Ok_0)) && ret->Ok_0.sig_key_pair is Some && match sig_key_pair_seed {
    Some(given) => ret->Ok_0.sig_key_pair->0.seed() == given.0@, None => drawn(ret->Ok_0.sig_key_pair->0.seed()) && ret->Ok_0.sig_key_pair->0.seed().len() == 32 }
ensures[C04!] 'nothing has happened' ret is Ok ==> ongoing(m(ret->Ok_0).status) && events(m(ret->Ok_0).status, false, false, false, false)
ensures[C08!] 'nothing received' ret is Ok ==> recv(m(ret->Ok_0)) =~= ISet::<u64>::empty()
ensures[C10!] 'first number is 0' ret is Ok ==> m(ret->Ok_0).next_nonce_sent == 0
ensures[C13!] 'own key pair' ret is Ok ==> m(ret->Ok_0).ephemeral_kp is Some && key(m(ret->Ok_0)) is None
ensures[C14!] 'nothing kept' ret is Ok ==> early_ack(m(ret->Ok_0)) is None && kept(m(ret->Ok_0)).len() == 0
ensures[C19!,C18!,C16!,C23!] 'settings' ret is Ok ==> m(ret->Ok_0).config == config && !m(ret->Ok_0).cloned
ensures[*] 'load' ret is Ok ==> load(m(ret->Ok_0)) == 0 && m(ret->Ok_0).next_nonce_sent == 0
@fn complete::SecureLayer::read_bin(incoming_data)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'load' load(m(*final(self))) <= load(m(*old(self))) + 2 && m(*final(self)).next_nonce_sent == m(*old(self)).next_nonce_sent
ensures[*] 'shape' bin_shape(m(*old(self)), msgs(ret))
ensures[*] 'key pair stays' final(self).sig_key_pair == old(self).sig_key_pair
ensures[C02!] 'read_bin C02' bin_c02(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C03!] 'read_bin C03' bin_c03(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C04!] 'read_bin C04' bin_c04(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C05!] 'read_bin C05' bin_c05(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C06!] 'read_bin C06' bin_c06(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C07!] 'read_bin C07' bin_c07(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C08!] 'read_bin C08' bin_c08(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C09!] 'read_bin C09' bin_c09(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C12!,C16,C18] 'read_bin C12' bin_c12(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C13!] 'read_bin C13' bin_c13(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C14!] 'read_bin C14' bin_c14(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C14!] 'drained with the ACK' bin_drained(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C15!] 'read_bin C15' bin_c15(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C16!,C18] 'read_bin C16' bin_c16(m(*old(self)), m(*final(self)), incoming_data@, msgs(ret), ret is Ok)
ensures[C10!] 'message number unchanged' q_c10(m(*old(self)), m(*final(self)))
ensures[C19!,C23!] 'settings unchanged' q_c19(m(*old(self)), m(*final(self)))
loop 0 invariant[*] 'progress' __it0.pos() <= __it0.all().len() && __acc0@.len() >= 1 && __acc0@.len() - 1 <= __it0.pos() && __acc0@[0] is Ack
loop 0 invariant[C04] 'only after success' __it0.all().len() > 0 ==> success(m(*self).status)
loop 0 invariant[C06] 'came encrypted' __it0.all().len() <= kept(m(*old(self))).len() && forall|qi__: int| 0 <= qi__ < __it0.all().len() ==> sealed_origin(key(m(*self)), #[trigger] kept(m(*old(self)))[qi__])
loop 0 invariant[C08] 'each new' __it0.all().len() > 0 ==> __it0.all().len() == kept(m(*old(self))).len() && recv(m(*self)) =~= recv_after(m(*old(self)), kept(m(*old(self))).len() as int)
    && forall|qi__: int| 0 <= qi__ < kept(m(*old(self))).len() ==> #[trigger] is_new(recv(m(*old(self))), kept(m(*old(self))), qi__)
loop 0 invariant[C07,C14,C16,C18] 'what was kept' __it0.all().len() > 0 ==> __it0.all().len() == kept(m(*old(self))).len() && forall|qi__: int| 0 <= qi__ < __it0.all().len() ==> (#[trigger] __it0.all()[qi__]) is Message
    && msg_payload(__it0.all()[qi__]) == raw(kf(m(*old(self)), qi__)) && hash_ok(kf(m(*old(self)), qi__))
loop 0 invariant[C07,C14,C16,C18] 'one each, in order' __acc0@.len() == 1 + __it0.pos() && forall|qi__: int| 1 <= qi__ < __acc0@.len() ==> carries(msg_payload(__it0.all()[qi__ - 1]), bin_data(#[trigger] __acc0@[qi__]))
loop 0 invariant[C12,C16,C18] 'none if none kept' kept(m(*old(self))).len() == 0 ==> __it0.all().len() == 0
loop 0 invariant[C12,C14,C16,C18] 'the ACK' carries(raw(rd(key(m(*old(self))), incoming_data@, true)->0), bin_data(__acc0@[0]))
loop 0 invariant[C14] 'all of them' deliverable(m(*old(self))) && success(m(*self).status) ==> __it0.all().len() == kept(m(*old(self))).len()
loop 0 decreases __it0.all().len() - __it0.pos()
loop 0 invariant[*] 'messages only' forall|qi__: int| 1 <= qi__ < __acc0@.len() ==> (#[trigger] __acc0@[qi__]) is Message
