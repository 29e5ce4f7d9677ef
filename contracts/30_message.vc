// ------------------------------------------------------------------ outgoing frames
@fn message::EncapsuledMessage::as_ref()
ensures[*] 'the bytes' ret@ == self.data@

@fn message::MsgTypeHeaders::must_be_encrypted()
ensures[*] 'user messages only' ret == (*self is UserMsg)

@fn message::MessageRef::write_challenge(ephem_pk, writer)
ensures[*] 'SHA-256 of the key' ret is Ok && old(writer).full() ==> final(writer).out() == old(writer).out() + sha(ephem_pk@)
ensures[*] 'cannot fail in memory' old(writer).full() ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()

@fn message::MessageRef::prepare_message(self_epk, peer_epk)
requires[*] 'peer key known' *self is Ack ==> peer_epk is Some
ensures[*] 'cannot fail' ret is Ok
ensures[*] 'type and content headers' ret is Ok ==> ret->Ok_0.type_msg_headers@ =~= mth(*self, self_epk@, orefview(peer_epk))
ensures[*] 'payload' ret is Ok ==> obytes(ret->Ok_0.bin_user_msg) == mpayload(*self)

@fn message::MessageRef::to_bytes(self_epk, peer_epk)
requires[*] 'peer key known' *self is Ack ==> peer_epk is Some
ensures[*] 'cannot fail' ret is Ok
ensures[*] 'the frame' ret is Ok ==> ret->Ok_0.data@ =~= frame(mth(*self, self_epk@, orefview(peer_epk)), mpayload(*self))
