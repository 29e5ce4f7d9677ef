// complete mode: writing, cloning, settings
@fn complete::writer::write_connect_msg(sl, custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'only the status' same_but_status(m(*old(sl)), m(*final(sl))) && final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C11!,C17!,C12,C16,C18,C23] 'the whole signed message' ret is Ok ==> old(sl).sig_key_pair is Some && final(writer).out() == old(writer).out() + signed(old(sl).sig_key_pair->0, connect_msg(own_epk(m(*old(sl))), kpk(old(sl).sig_key_pair->0), vbytes(custom_data)))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(sl).sig_key_pair is Some && io::partly(old(writer).out(), final(writer).out(), signed(old(sl).sig_key_pair->0, connect_msg(own_epk(m(*old(sl))), kpk(old(sl).sig_key_pair->0), vbytes(custom_data))))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(sl)).status, crate::MsgType::Connect) && events(m(*final(sl)).status, true, pc(m(*old(sl)).status), oa(m(*old(sl)).status), pa(m(*old(sl)).status))
ensures[C04!] 'status' m(*final(sl)).status == m(*old(sl)).status || failed(m(*final(sl)).status) || may_create(m(*old(sl)).status, crate::MsgType::Connect) && events(m(*final(sl)).status, true, pc(m(*old(sl)).status), oa(m(*old(sl)).status), pa(m(*old(sl)).status))
ensures[C05!] 'silent after failure' failed(m(*old(sl)).status) ==> ret is Err && failed(m(*final(sl)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18] 'whenever permitted' may_create(m(*old(sl)).status, crate::MsgType::Connect) && old(sl).sig_key_pair is Some && old(writer).total() ==> ret is Ok
ensures[C19!] 'a clone cannot' old(sl).sig_key_pair is None ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()

@fn complete::writer::write_ack_msg(sl, custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'only the status' same_but_status(m(*old(sl)), m(*final(sl))) && final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C11!,C17!,C12,C16,C03!,C18,C23] 'the whole signed message' ret is Ok ==> old(sl).sig_key_pair is Some && peer_epk(m(*old(sl))) is Some && final(writer).out() == old(writer).out() + signed(old(sl).sig_key_pair->0, ack_msg(peer_epk(m(*old(sl)))->0, vbytes(custom_data)))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(sl).sig_key_pair is Some && peer_epk(m(*old(sl))) is Some && io::partly(old(writer).out(), final(writer).out(), signed(old(sl).sig_key_pair->0, ack_msg(peer_epk(m(*old(sl)))->0, vbytes(custom_data))))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(sl)).status, crate::MsgType::Ack) && events(m(*final(sl)).status, cc(m(*old(sl)).status), pc(m(*old(sl)).status), true, pa(m(*old(sl)).status))
ensures[C04!] 'status' m(*final(sl)).status == m(*old(sl)).status || failed(m(*final(sl)).status) || may_create(m(*old(sl)).status, crate::MsgType::Ack) && events(m(*final(sl)).status, cc(m(*old(sl)).status), pc(m(*old(sl)).status), true, pa(m(*old(sl)).status))
ensures[C05!] 'silent after failure' failed(m(*old(sl)).status) ==> ret is Err && failed(m(*final(sl)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18] 'whenever permitted' may_create(m(*old(sl)).status, crate::MsgType::Ack) && old(sl).sig_key_pair is Some && old(writer).total() ==> ret is Ok
ensures[C19!] 'a clone cannot' old(sl).sig_key_pair is None ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()

@fn complete::SecureLayer::write_connect_msg_bin(custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'only the status' same_but_status(m(*old(self)), m(*final(self))) && final(self).sig_key_pair == old(self).sig_key_pair
ensures[C11!,C17!,C12,C16,C18,C23] 'the whole signed message' ret is Ok ==> old(self).sig_key_pair is Some && exists|p: Seq<u8>| packs(p, oslice(custom_data)) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(self))), kpk(old(self).sig_key_pair->0), p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> old(self).sig_key_pair is Some && exists|p: Seq<u8>| p == ozip(m(*old(self)).config, oslice(custom_data)) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(self))), kpk(old(self).sig_key_pair->0), p))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(self).sig_key_pair is Some && exists|p: Seq<u8>| packs(p, oslice(custom_data)) && io::partly(old(writer).out(), final(writer).out(), signed(old(self).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(self))), kpk(old(self).sig_key_pair->0), p)))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(self)).status, crate::MsgType::Connect) && events(m(*final(self)).status, true, pc(m(*old(self)).status), oa(m(*old(self)).status), pa(m(*old(self)).status))
ensures[C04!] 'status' m(*final(self)).status == m(*old(self)).status || failed(m(*final(self)).status) || may_create(m(*old(self)).status, crate::MsgType::Connect) && events(m(*final(self)).status, true, pc(m(*old(self)).status), oa(m(*old(self)).status), pa(m(*old(self)).status))
ensures[C05!] 'silent after failure' failed(m(*old(self)).status) ==> ret is Err && failed(m(*final(self)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18] 'whenever permitted' may_create(m(*old(self)).status, crate::MsgType::Connect) && old(self).sig_key_pair is Some && old(writer).total() ==> ret is Ok
ensures[C19!] 'a clone cannot' old(self).sig_key_pair is None ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()

@fn complete::SecureLayer::write_ack_msg_bin(custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'only the status' same_but_status(m(*old(self)), m(*final(self))) && final(self).sig_key_pair == old(self).sig_key_pair
ensures[C11!,C17!,C12,C16,C03!,C18,C23] 'the whole signed message' ret is Ok ==> old(self).sig_key_pair is Some && peer_epk(m(*old(self))) is Some && exists|p: Seq<u8>| packs(p, oslice(custom_data)) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(self)))->0, p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> old(self).sig_key_pair is Some && peer_epk(m(*old(self))) is Some && exists|p: Seq<u8>| p == ozip(m(*old(self)).config, oslice(custom_data)) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(self)))->0, p))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(self).sig_key_pair is Some && peer_epk(m(*old(self))) is Some && exists|p: Seq<u8>| packs(p, oslice(custom_data)) && io::partly(old(writer).out(), final(writer).out(), signed(old(self).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(self)))->0, p)))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(self)).status, crate::MsgType::Ack) && events(m(*final(self)).status, cc(m(*old(self)).status), pc(m(*old(self)).status), true, pa(m(*old(self)).status))
ensures[C04!] 'status' m(*final(self)).status == m(*old(self)).status || failed(m(*final(self)).status) || may_create(m(*old(self)).status, crate::MsgType::Ack) && events(m(*final(self)).status, cc(m(*old(self)).status), pc(m(*old(self)).status), true, pa(m(*old(self)).status))
ensures[C05!] 'silent after failure' failed(m(*old(self)).status) ==> ret is Err && failed(m(*final(self)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18] 'whenever permitted' may_create(m(*old(self)).status, crate::MsgType::Ack) && old(self).sig_key_pair is Some && old(writer).total() ==> ret is Ok
ensures[C19!] 'a clone cannot' old(self).sig_key_pair is None ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()

@fn complete::SecureLayer::write_connect_msg(custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'only the status' same_but_status(m(*old(self)), m(*final(self))) && final(self).sig_key_pair == old(self).sig_key_pair
ensures[C11!,C17!,C12,C16,C18!,C23] 'the whole signed message' ret is Ok ==> old(self).sig_key_pair is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(self)).config.message_format, custom_data) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(self))), kpk(old(self).sig_key_pair->0), p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> old(self).sig_key_pair is Some && exists|p: Seq<u8>| (custom_data is None || oser(m(*old(self)).config, custom_data) is Some) && p == ozip(m(*old(self)).config, oser(m(*old(self)).config, custom_data)) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(self))), kpk(old(self).sig_key_pair->0), p))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(self).sig_key_pair is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(self)).config.message_format, custom_data) && io::partly(old(writer).out(), final(writer).out(), signed(old(self).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(self))), kpk(old(self).sig_key_pair->0), p)))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(self)).status, crate::MsgType::Connect) && events(m(*final(self)).status, true, pc(m(*old(self)).status), oa(m(*old(self)).status), pa(m(*old(self)).status))
ensures[C04!] 'status' m(*final(self)).status == m(*old(self)).status || failed(m(*final(self)).status) || may_create(m(*old(self)).status, crate::MsgType::Connect) && events(m(*final(self)).status, true, pc(m(*old(self)).status), oa(m(*old(self)).status), pa(m(*old(self)).status))
ensures[C05!] 'silent after failure' failed(m(*old(self)).status) ==> ret is Err && failed(m(*final(self)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18!] 'whenever permitted' may_create(m(*old(self)).status, crate::MsgType::Connect) && old(self).sig_key_pair is Some && old(writer).total() && (custom_data is Some ==> ser(m(*old(self)).config.message_format, *(custom_data->0)) is Some) ==> ret is Ok
ensures[C19!] 'a clone cannot' old(self).sig_key_pair is None ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()
ensures[C18!] 'not in this format' custom_data is Some && !typed_format(m(*old(self)).config.message_format) ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()

@fn complete::SecureLayer::write_ack_msg(custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'only the status' same_but_status(m(*old(self)), m(*final(self))) && final(self).sig_key_pair == old(self).sig_key_pair
ensures[C11!,C17!,C12,C16,C18!,C03!,C23] 'the whole signed message' ret is Ok ==> old(self).sig_key_pair is Some && peer_epk(m(*old(self))) is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(self)).config.message_format, custom_data) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(self)))->0, p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> old(self).sig_key_pair is Some && peer_epk(m(*old(self))) is Some && exists|p: Seq<u8>| (custom_data is None || oser(m(*old(self)).config, custom_data) is Some) && p == ozip(m(*old(self)).config, oser(m(*old(self)).config, custom_data)) && final(writer).out() == old(writer).out() + signed(old(self).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(self)))->0, p))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(self).sig_key_pair is Some && peer_epk(m(*old(self))) is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(self)).config.message_format, custom_data) && io::partly(old(writer).out(), final(writer).out(), signed(old(self).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(self)))->0, p)))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(self)).status, crate::MsgType::Ack) && events(m(*final(self)).status, cc(m(*old(self)).status), pc(m(*old(self)).status), true, pa(m(*old(self)).status))
ensures[C04!] 'status' m(*final(self)).status == m(*old(self)).status || failed(m(*final(self)).status) || may_create(m(*old(self)).status, crate::MsgType::Ack) && events(m(*final(self)).status, cc(m(*old(self)).status), pc(m(*old(self)).status), true, pa(m(*old(self)).status))
ensures[C05!] 'silent after failure' failed(m(*old(self)).status) ==> ret is Err && failed(m(*final(self)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18!] 'whenever permitted' may_create(m(*old(self)).status, crate::MsgType::Ack) && old(self).sig_key_pair is Some && old(writer).total() && (custom_data is Some ==> ser(m(*old(self)).config.message_format, *(custom_data->0)) is Some) ==> ret is Ok
ensures[C19!] 'a clone cannot' old(self).sig_key_pair is None ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()
ensures[C18!] 'not in this format' custom_data is Some && !typed_format(m(*old(self)).config.message_format) ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()

@fn complete::serde::serializer::write_connect_msg(sl, custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'only the status' same_but_status(m(*old(sl)), m(*final(sl))) && final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C11!,C17!,C12,C16,C18!,C23] 'the whole signed message' ret is Ok ==> old(sl).sig_key_pair is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(sl)).config.message_format, custom_data) && final(writer).out() == old(writer).out() + signed(old(sl).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(sl))), kpk(old(sl).sig_key_pair->0), p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> old(sl).sig_key_pair is Some && exists|p: Seq<u8>| (custom_data is None || oser(m(*old(sl)).config, custom_data) is Some) && p == ozip(m(*old(sl)).config, oser(m(*old(sl)).config, custom_data)) && final(writer).out() == old(writer).out() + signed(old(sl).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(sl))), kpk(old(sl).sig_key_pair->0), p))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(sl).sig_key_pair is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(sl)).config.message_format, custom_data) && io::partly(old(writer).out(), final(writer).out(), signed(old(sl).sig_key_pair->0, #[trigger] connect_msg(own_epk(m(*old(sl))), kpk(old(sl).sig_key_pair->0), p)))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(sl)).status, crate::MsgType::Connect) && events(m(*final(sl)).status, true, pc(m(*old(sl)).status), oa(m(*old(sl)).status), pa(m(*old(sl)).status))
ensures[C04!] 'status' m(*final(sl)).status == m(*old(sl)).status || failed(m(*final(sl)).status) || may_create(m(*old(sl)).status, crate::MsgType::Connect) && events(m(*final(sl)).status, true, pc(m(*old(sl)).status), oa(m(*old(sl)).status), pa(m(*old(sl)).status))
ensures[C05!] 'silent after failure' failed(m(*old(sl)).status) ==> ret is Err && failed(m(*final(sl)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18!] 'whenever permitted' may_create(m(*old(sl)).status, crate::MsgType::Connect) && old(sl).sig_key_pair is Some && old(writer).total() && (custom_data is Some ==> ser(m(*old(sl)).config.message_format, *(custom_data->0)) is Some) ==> ret is Ok
ensures[C19!] 'a clone cannot' old(sl).sig_key_pair is None ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()
ensures[C18!] 'not in this format' custom_data is Some && !typed_format(m(*old(sl)).config.message_format) ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()

@fn complete::serde::serializer::write_ack_msg(sl, custom_data, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'only the status' same_but_status(m(*old(sl)), m(*final(sl))) && final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C11!,C17!,C12,C16,C18!,C03!,C23] 'the whole signed message' ret is Ok ==> old(sl).sig_key_pair is Some && peer_epk(m(*old(sl))) is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(sl)).config.message_format, custom_data) && final(writer).out() == old(writer).out() + signed(old(sl).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(sl)))->0, p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> old(sl).sig_key_pair is Some && peer_epk(m(*old(sl))) is Some && exists|p: Seq<u8>| (custom_data is None || oser(m(*old(sl)).config, custom_data) is Some) && p == ozip(m(*old(sl)).config, oser(m(*old(sl)).config, custom_data)) && final(writer).out() == old(writer).out() + signed(old(sl).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(sl)))->0, p))
ensures[C17!] 'nothing else' ret is Err ==> final(writer).out() == old(writer).out() || old(sl).sig_key_pair is Some && peer_epk(m(*old(sl))) is Some && exists|p: Seq<u8>| packs_typed(p, m(*old(sl)).config.message_format, custom_data) && io::partly(old(writer).out(), final(writer).out(), signed(old(sl).sig_key_pair->0, #[trigger] ack_msg(peer_epk(m(*old(sl)))->0, p)))
ensures[C04!,C19!,C16,C18] 'permitted once' ret is Ok ==> may_create(m(*old(sl)).status, crate::MsgType::Ack) && events(m(*final(sl)).status, cc(m(*old(sl)).status), pc(m(*old(sl)).status), true, pa(m(*old(sl)).status))
ensures[C04!] 'status' m(*final(sl)).status == m(*old(sl)).status || failed(m(*final(sl)).status) || may_create(m(*old(sl)).status, crate::MsgType::Ack) && events(m(*final(sl)).status, cc(m(*old(sl)).status), pc(m(*old(sl)).status), true, pa(m(*old(sl)).status))
ensures[C05!] 'silent after failure' failed(m(*old(sl)).status) ==> ret is Err && failed(m(*final(sl)).status) && final(writer).out() == old(writer).out()
ensures[C12!,C16,C18!] 'whenever permitted' may_create(m(*old(sl)).status, crate::MsgType::Ack) && old(sl).sig_key_pair is Some && old(writer).total() && (custom_data is Some ==> ser(m(*old(sl)).config.message_format, *(custom_data->0)) is Some) ==> ret is Ok
ensures[C19!] 'a clone cannot' old(sl).sig_key_pair is None ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()
ensures[C18!] 'not in this format' custom_data is Some && !typed_format(m(*old(sl)).config.message_format) ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()

@fn complete::writer::write_bin_message(sl, message, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'load' load(m(*final(sl))) == load(m(*old(sl))) && m(*final(sl)).next_nonce_sent <= m(*old(sl)).next_nonce_sent + 1
ensures[*] 'status and number only' same_but_status_number(m(*old(sl)), m(*final(sl))) && final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C04!] 'only after success' !success(m(*old(sl)).status) ==> ret is Err && final(writer).out() == old(writer).out()
ensures[C04!,C16,C19!,C18] 'status' m(*final(sl)).status == m(*old(sl)).status || failed(m(*final(sl)).status)
ensures[C05!] 'silent after failure' failed(m(*old(sl)).status) ==> ret is Err && failed(m(*final(sl)).status) && final(writer).out() == old(writer).out()
ensures[C06!] 'only ciphertext' final(writer).out() == old(writer).out() || key(m(*old(sl))) is Some && exists|n: u64| io::partly(old(writer).out(), final(writer).out(), seal(key(m(*old(sl)))->0, #[trigger] user_plain(n, message@)))
ensures[C11!,C17!,C12,C16,C18,C06!,C23] 'the complete sealed frame' ret is Ok ==> key(m(*old(sl))) is Some && exists|n: u64| final(writer).out() == old(writer).out() + seal(key(m(*old(sl)))->0, #[trigger] user_plain(n, message@))
ensures[C10!] 'carries the next number' ret is Ok ==> final(writer).out() == old(writer).out() + seal(key(m(*old(sl)))->0, user_plain(m(*old(sl)).next_nonce_sent, message@)) && m(*final(sl)).next_nonce_sent == m(*old(sl)).next_nonce_sent + 1
ensures[C10!] 'failure does not count, and ends writing' ret is Err ==> m(*final(sl)).next_nonce_sent == m(*old(sl)).next_nonce_sent && (success(m(*old(sl)).status) ==> failed(m(*final(sl)).status))
ensures[C12!,C16,C18] 'succeeds in memory' success(m(*old(sl)).status) && old(writer).total() ==> ret is Ok && m(*final(sl)).status == m(*old(sl)).status

@fn complete::SecureLayer::write_bin(binary_message, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'load' load(m(*final(self))) == load(m(*old(self))) && m(*final(self)).next_nonce_sent <= m(*old(self)).next_nonce_sent + 1
ensures[*] 'status and number only' same_but_status_number(m(*old(self)), m(*final(self))) && final(self).sig_key_pair == old(self).sig_key_pair
ensures[C04!] 'only after success' !success(m(*old(self)).status) ==> ret is Err && final(writer).out() == old(writer).out()
ensures[C04!,C16,C19!,C18] 'status' m(*final(self)).status == m(*old(self)).status || failed(m(*final(self)).status)
ensures[C05!] 'silent after failure' failed(m(*old(self)).status) ==> ret is Err && failed(m(*final(self)).status) && final(writer).out() == old(writer).out()
ensures[C06!] 'only ciphertext' final(writer).out() == old(writer).out() || key(m(*old(self))) is Some && exists|n: u64, p: Seq<u8>| io::partly(old(writer).out(), final(writer).out(), seal(key(m(*old(self)))->0, #[trigger] user_plain(n, p)))
ensures[C11!,C17!,C12,C16,C06!,C18,C23] 'the complete sealed frame' ret is Ok ==> key(m(*old(self))) is Some && exists|n: u64, p: Seq<u8>| packs(p, Some(binary_message@)) && final(writer).out() == old(writer).out() + seal(key(m(*old(self)))->0, #[trigger] user_plain(n, p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> key(m(*old(self))) is Some && exists|n: u64, p: Seq<u8>| p == ozip(m(*old(self)).config, Some(binary_message@)) && final(writer).out() == old(writer).out() + seal(key(m(*old(self)))->0, #[trigger] user_plain(n, p))
ensures[C10!] 'carries the next number' ret is Ok ==> m(*final(self)).next_nonce_sent == m(*old(self)).next_nonce_sent + 1 && exists|p: Seq<u8>| packs(p, Some(binary_message@)) && final(writer).out() == old(writer).out() + seal(key(m(*old(self)))->0, #[trigger] user_plain(m(*old(self)).next_nonce_sent, p))
ensures[C10!] 'failure does not count, and ends writing' ret is Err ==> m(*final(self)).next_nonce_sent == m(*old(self)).next_nonce_sent && (success(m(*old(self)).status) ==> failed(m(*final(self)).status))
ensures[C12!,C16,C18] 'succeeds in memory' success(m(*old(self)).status) && old(writer).total() ==> ret is Ok && m(*final(self)).status == m(*old(self)).status

@fn complete::serde::serializer::write_message(sl, message, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'load' load(m(*final(sl))) == load(m(*old(sl))) && m(*final(sl)).next_nonce_sent <= m(*old(sl)).next_nonce_sent + 1
ensures[*] 'status and number only' same_but_status_number(m(*old(sl)), m(*final(sl))) && final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C04!] 'only after success' !success(m(*old(sl)).status) ==> ret is Err && final(writer).out() == old(writer).out()
ensures[C04!,C16,C19!,C18] 'status' m(*final(sl)).status == m(*old(sl)).status || failed(m(*final(sl)).status)
ensures[C05!] 'silent after failure' failed(m(*old(sl)).status) ==> ret is Err && failed(m(*final(sl)).status) && final(writer).out() == old(writer).out()
ensures[C06!] 'only ciphertext' final(writer).out() == old(writer).out() || key(m(*old(sl))) is Some && exists|n: u64, p: Seq<u8>| io::partly(old(writer).out(), final(writer).out(), seal(key(m(*old(sl)))->0, #[trigger] user_plain(n, p)))
ensures[C11!,C17!,C12,C16,C06!,C18!,C23] 'the complete sealed frame' ret is Ok ==> key(m(*old(sl))) is Some && exists|n: u64, p: Seq<u8>| packs_typed(p, m(*old(sl)).config.message_format, Some(message)) && final(writer).out() == old(writer).out() + seal(key(m(*old(sl)))->0, #[trigger] user_plain(n, p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> key(m(*old(sl))) is Some && exists|n: u64, p: Seq<u8>| (Some(message) is None || oser(m(*old(sl)).config, Some(message)) is Some) && p == ozip(m(*old(sl)).config, oser(m(*old(sl)).config, Some(message))) && final(writer).out() == old(writer).out() + seal(key(m(*old(sl)))->0, #[trigger] user_plain(n, p))
ensures[C10!] 'carries the next number' ret is Ok ==> m(*final(sl)).next_nonce_sent == m(*old(sl)).next_nonce_sent + 1 && exists|p: Seq<u8>| packs_typed(p, m(*old(sl)).config.message_format, Some(message)) && final(writer).out() == old(writer).out() + seal(key(m(*old(sl)))->0, #[trigger] user_plain(m(*old(sl)).next_nonce_sent, p))
ensures[C10!] 'failure does not count, and ends writing' ret is Err ==> m(*final(sl)).next_nonce_sent == m(*old(sl)).next_nonce_sent && (success(m(*old(sl)).status) ==> failed(m(*final(sl)).status) || final(writer).out() == old(writer).out())
ensures[C12!,C16,C18!] 'succeeds in memory' success(m(*old(sl)).status) && old(writer).total() && ser(m(*old(sl)).config.message_format, *message) is Some ==> ret is Ok && m(*final(sl)).status == m(*old(sl)).status
ensures[C18!] 'not in this format' !typed_format(m(*old(sl)).config.message_format) ==> ret is Err && *final(sl) == *old(sl) && final(writer).out() == old(writer).out()

@fn complete::SecureLayer::write(message, writer)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'load' load(m(*final(self))) == load(m(*old(self))) && m(*final(self)).next_nonce_sent <= m(*old(self)).next_nonce_sent + 1
ensures[*] 'status and number only' same_but_status_number(m(*old(self)), m(*final(self))) && final(self).sig_key_pair == old(self).sig_key_pair
ensures[C04!] 'only after success' !success(m(*old(self)).status) ==> ret is Err && final(writer).out() == old(writer).out()
ensures[C04!,C16,C19!,C18] 'status' m(*final(self)).status == m(*old(self)).status || failed(m(*final(self)).status)
ensures[C05!] 'silent after failure' failed(m(*old(self)).status) ==> ret is Err && failed(m(*final(self)).status) && final(writer).out() == old(writer).out()
ensures[C06!] 'only ciphertext' final(writer).out() == old(writer).out() || key(m(*old(self))) is Some && exists|n: u64, p: Seq<u8>| io::partly(old(writer).out(), final(writer).out(), seal(key(m(*old(self)))->0, #[trigger] user_plain(n, p)))
ensures[C11!,C17!,C12,C16,C06!,C18!,C23] 'the complete sealed frame' ret is Ok ==> key(m(*old(self))) is Some && exists|n: u64, p: Seq<u8>| packs_typed(p, m(*old(self)).config.message_format, Some(message)) && final(writer).out() == old(writer).out() + seal(key(m(*old(self)))->0, #[trigger] user_plain(n, p))
ensures[C23!] 'packed as the settings say' ret is Ok ==> key(m(*old(self))) is Some && exists|n: u64, p: Seq<u8>| (Some(message) is None || oser(m(*old(self)).config, Some(message)) is Some) && p == ozip(m(*old(self)).config, oser(m(*old(self)).config, Some(message))) && final(writer).out() == old(writer).out() + seal(key(m(*old(self)))->0, #[trigger] user_plain(n, p))
ensures[C10!] 'carries the next number' ret is Ok ==> m(*final(self)).next_nonce_sent == m(*old(self)).next_nonce_sent + 1 && exists|p: Seq<u8>| packs_typed(p, m(*old(self)).config.message_format, Some(message)) && final(writer).out() == old(writer).out() + seal(key(m(*old(self)))->0, #[trigger] user_plain(m(*old(self)).next_nonce_sent, p))
ensures[C10!] 'failure does not count, and ends writing' ret is Err ==> m(*final(self)).next_nonce_sent == m(*old(self)).next_nonce_sent && (success(m(*old(self)).status) ==> failed(m(*final(self)).status) || final(writer).out() == old(writer).out())
ensures[C12!,C16,C18!] 'succeeds in memory' success(m(*old(self)).status) && old(writer).total() && ser(m(*old(self)).config.message_format, *message) is Some ==> ret is Ok && m(*final(self)).status == m(*old(self)).status
ensures[C18!] 'not in this format' !typed_format(m(*old(self)).config.message_format) ==> ret is Err && *final(self) == *old(self) && final(writer).out() == old(writer).out()

@fn complete::SecureLayer::try_clone()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self))) && (ret is Ok ==> inv_key(m(ret->Ok_0)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self))) && (ret is Ok ==> inv_st(m(ret->Ok_0)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self))) && (ret is Ok ==> inv_kp(m(ret->Ok_0)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self))) && (ret is Ok ==> inv_epk(m(ret->Ok_0)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self))) && (ret is Ok ==> inv_window(m(ret->Ok_0)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self))) && (ret is Ok ==> inv_kept(m(ret->Ok_0)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self))) && (ret is Ok ==> inv_distinct(m(ret->Ok_0)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self))) && (ret is Ok ==> inv_early(m(ret->Ok_0)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self))) && (ret is Ok ==> inv_sealed(m(ret->Ok_0)))
ensures[C19!] 'only after success' ret is Ok ==> success(m(*old(self)).status) && success(m(ret->Ok_0).status)
ensures[C19!] 'refusal changes nothing' ret is Err ==> *final(self) == *old(self)
ensures[C19!] 'a successful one can be cloned' success(m(*old(self)).status) ==> ret is Ok
ensures[C19!,C23!] 'both are frozen' ret is Ok ==> m(ret->Ok_0).cloned && *final(self) == (SecureLayer { minimal_secure_layer: MinimalSecureLayer { cloned: true, ..m(*old(self)) }, ..*old(self) })
ensures[C19!,C23!] 'continues the session' ret is Ok ==> clone_of(m(*old(self)), m(ret->Ok_0))
ensures[C19!,C02!] 'cannot sign' ret is Ok ==> ret->Ok_0.sig_key_pair is None
ensures[C10!] 'numbering continues' ret is Ok ==> m(ret->Ok_0).next_nonce_sent == m(*old(self)).next_nonce_sent
ensures[C13!] 'same session key' ret is Ok ==> key(m(ret->Ok_0)) == key(m(*old(self)))
ensures[C08!] 'same window' ret is Ok ==> recv(m(ret->Ok_0)) =~= recv(m(*old(self)))
ensures[C14!] 'same early messages' ret is Ok ==> kept(m(ret->Ok_0)) =~= kept(m(*old(self)))
ensures[C04!,C05!] 'status' m(*final(self)).status == m(*old(self)).status && (ret is Ok ==> success(m(*old(self)).status) && success(m(ret->Ok_0).status))
ensures[C02!] 'peer identity unchanged' q_c02(m(*old(self)), m(*final(self)))
ensures[C03!] 'ephemeral keys unchanged' q_c03(m(*old(self)), m(*final(self)))
ensures[C08!] 'replay window unchanged' q_c08(m(*old(self)), m(*final(self)))
ensures[C10!] 'message number unchanged' q_c10(m(*old(self)), m(*final(self)))
ensures[C13!] 'session key unchanged' q_c13(m(*old(self)), m(*final(self)))
ensures[C14!] 'early messages unchanged' q_c14(m(*old(self)), m(*final(self)))

@fn complete::SecureLayer::change_config(new_config)
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[C19!,C23!] 'refused after cloning' m(*old(self)).cloned ==> ret is Err && *final(self) == *old(self)
ensures[C19!,C23!] 'changes the settings' !m(*old(self)).cloned ==> ret is Ok && m(*final(self)).config == new_config
ensures[C19!] 'changes nothing else' *final(self) == (SecureLayer { minimal_secure_layer: MinimalSecureLayer { config: m(*final(self)).config, ..m(*old(self)) }, ..*old(self) })
ensures[C04!,C05!] 'status unchanged' m(*final(self)).status == m(*old(self)).status
ensures[C02!] 'peer identity unchanged' q_c02(m(*old(self)), m(*final(self)))
ensures[C03!] 'ephemeral keys unchanged' q_c03(m(*old(self)), m(*final(self)))
ensures[C08!] 'replay window unchanged' q_c08(m(*old(self)), m(*final(self)))
ensures[C10!] 'message number unchanged' q_c10(m(*old(self)), m(*final(self)))
ensures[C13!] 'session key unchanged' q_c13(m(*old(self)), m(*final(self)))
ensures[C14!] 'early messages unchanged' q_c14(m(*old(self)), m(*final(self)))
