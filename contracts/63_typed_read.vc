// typed mode: reading
@fn complete::serde::deserializer::read(sl, incoming_data)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(sl))) + 2 < max_count() && m(*old(sl)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(sl)))
ensures[*] 'inv:key' inv_key(m(*final(sl)))
requires[*] 'inv:status' inv_st(m(*old(sl)))
ensures[*] 'inv:status' inv_st(m(*final(sl)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(sl)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(sl)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(sl)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(sl)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(sl)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(sl)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(sl)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(sl)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(sl)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(sl)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(sl)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(sl)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(sl)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(sl)))
ensures[*] 'load' load(m(*final(sl))) <= load(m(*old(sl))) + 2 && m(*final(sl)).next_nonce_sent == m(*old(sl)).next_nonce_sent
ensures[*] 'key pair stays' final(sl).sig_key_pair == old(sl).sig_key_pair
ensures[C19!,C23!] 'settings unchanged' q_c19(m(*old(sl)), m(*final(sl)))
ensures[C02!] 'typed read C02' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c02(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C03!] 'typed read C03' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c03(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C04!] 'typed read C04' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c04(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C05!] 'typed read C05' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c05(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C06!] 'typed read C06' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c06(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C07!] 'typed read C07' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c07(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C08!] 'typed read C08' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c08(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C09!] 'typed read C09' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c09(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C12!] 'typed read C12' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c12(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C13!] 'typed read C13' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c13(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C14!] 'typed read C14' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c14(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C14!] 'typed read DRAINED' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_drained(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C15!] 'typed read C15' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c15(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C16!,C18!] 'typed read C16' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c16(m(*old(sl)), m(*final(sl)), incoming_data@, v, ok) && typed_res(v, ok, ret)
loop 0 invariant[*] 'progress' __it0.pos() <= __it0.all().len() && __acc0@.len() == __it0.pos()
loop 0 invariant[*] 'one each, in order' forall|qi__: int| 0 <= qi__ < __acc0@.len() ==> typed_item(__it0.all()[qi__], #[trigger] __acc0@[qi__])
loop 0 decreases __it0.all().len() - __it0.pos()
loop 0 invariant[C02] 'read_bin c02' bin_c02(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C03] 'read_bin c03' bin_c03(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C04] 'read_bin c04' bin_c04(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C05] 'read_bin c05' bin_c05(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C06] 'read_bin c06' bin_c06(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C07] 'read_bin c07' bin_c07(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C08] 'read_bin c08' bin_c08(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C09] 'read_bin c09' bin_c09(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C12] 'read_bin c12' bin_c12(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C13] 'read_bin c13' bin_c13(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C14] 'read_bin c14' bin_c14(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C14] 'read_bin drained' bin_drained(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C15] 'read_bin c15' bin_c15(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)
loop 0 invariant[C16,C18] 'read_bin c16' bin_c16(m(*old(sl)), m(*sl), incoming_data@, __it0.all(), true)

@fn complete::SecureLayer::read(incoming_data)
requires[*] 'assume:fewer than 2^62 messages' load(m(*old(self))) + 2 < max_count() && m(*old(self)).next_nonce_sent < max_count()
requires[*] 'inv:key' inv_key(m(*old(self)))
ensures[*] 'inv:key' inv_key(m(*final(self)))
requires[*] 'inv:status' inv_st(m(*old(self)))
ensures[*] 'inv:status' inv_st(m(*final(self)))
requires[C13,C12,C22] 'inv:keypair' inv_kp(m(*old(self)))
ensures[C13,C12,C22] 'inv:keypair' inv_kp(m(*final(self)))
requires[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*old(self)))
ensures[C11,C12,C13,C22] 'inv:public key' inv_epk(m(*final(self)))
requires[C09,C14,C16,C18] 'inv:window' inv_window(m(*old(self)))
ensures[C09,C14,C16,C18] 'inv:window' inv_window(m(*final(self)))
requires[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*old(self)))
ensures[C02,C03,C04,C05,C06,C07,C08,C13,C14,C15,C16,C18] 'inv:kept' inv_kept(m(*final(self)))
requires[C14,C16,C18] 'inv:distinct' inv_distinct(m(*old(self)))
ensures[C14,C16,C18] 'inv:distinct' inv_distinct(m(*final(self)))
requires[C14,C16,C18] 'inv:nothing received early' inv_early(m(*old(self)))
ensures[C14,C16,C18] 'inv:nothing received early' inv_early(m(*final(self)))
requires[C06,C07] 'inv:sealed' inv_sealed(m(*old(self)))
ensures[C06,C07] 'inv:sealed' inv_sealed(m(*final(self)))
ensures[*] 'load' load(m(*final(self))) <= load(m(*old(self))) + 2 && m(*final(self)).next_nonce_sent == m(*old(self)).next_nonce_sent
ensures[*] 'key pair stays' final(self).sig_key_pair == old(self).sig_key_pair
ensures[C19!,C23!] 'settings unchanged' q_c19(m(*old(self)), m(*final(self)))
ensures[C02!] 'typed read C02' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c02(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C03!] 'typed read C03' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c03(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C04!] 'typed read C04' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c04(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C05!] 'typed read C05' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c05(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C06!] 'typed read C06' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c06(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C07!] 'typed read C07' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c07(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C08!] 'typed read C08' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c08(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C09!] 'typed read C09' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c09(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C12!] 'typed read C12' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c12(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C13!] 'typed read C13' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c13(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C14!] 'typed read C14' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c14(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C14!] 'typed read DRAINED' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_drained(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C15!] 'typed read C15' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c15(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
ensures[C16!,C18!] 'typed read C16' exists|v: Seq<IBM>, ok: bool| #[trigger] bin_c16(m(*old(self)), m(*final(self)), incoming_data@, v, ok) && typed_res(v, ok, ret)
