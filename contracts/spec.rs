// Specification vocabulary over which the contracts are written. Nothing in here is executable.
pub mod spec {
    use vstd::prelude::*;
    use crate::xstd::*;
    pub use crate::xstd::io;
    use crate::ring::digest::hash;
    pub use crate::ring::signature::{ed25519_valid, ed25519_sign, ed25519_pk};
    pub use crate::ring::agreement::{dh, base};
    pub use crate::ring::pbkdf2::pbkdf2;
    use crate::chacha20_poly1305_aead::{aead_ct, aead_tag, aead_open};
    pub use crate::flate2::{deflate, inflate};
    pub use crate::ring::rand::drawn;
    use crate::SecureLayerConfig;
    use crate::status::SecureLayerStatus;
    use crate::{LocalNegoThread, RemoteNegoThread, Action, MsgType, ActionSideEffects};
    use crate::message::{Message, MessageRef, MsgTypeHeaders, EncapsuledMessage};
    use crate::minimal::MinimalSecureLayer;
    use crate::reader::DecryptedIncomingData;
    use crate::encryption::{EncryptAlgoWithSecretKey, EncryptAlgo};
    use crate::agreement::{EphemeralKeyPair, EphemeralPublicKey, SharedSecret, SharedSecretLen};
    use crate::complete::SecureLayer;
    use crate::complete::message::IncomingBinaryMessage;
    use crate::format::MessageFormat;
    use crate::complete::serde::IncomingMessage;
    pub use crate::serde::{enc, dec};
    use crate::Error;

    pub open spec fn sha(m: Seq<u8>) -> Seq<u8> { hash(0, m) }
    // ================================================================ wire format (README, RFC)
    pub open spec fn magic() -> Seq<u8> { seq![0xE2u8, 0xC2u8, 0xE2u8, 0xD2u8] }
    pub open spec fn version() -> Seq<u8> { seq![0u8, 0u8, 0u8, 1u8] }
    pub open spec fn ty_user() -> Seq<u8> { seq![0u8, 0u8] }
    pub open spec fn ty_connect() -> Seq<u8> { seq![0u8, 1u8] }
    pub open spec fn ty_ack() -> Seq<u8> { seq![0u8, 2u8] }
    pub open spec fn ed25519_code() -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8] }
    /// `th`: type and content headers
    pub open spec fn frame(th: Seq<u8>, payload: Seq<u8>) -> Seq<u8> {
        magic() + version() + be8((th.len() + payload.len()) as u64) + th + payload
    }
    pub open spec fn connect_th(epk: Seq<u8>, algo: Seq<u8>, pk: Seq<u8>) -> Seq<u8> { ty_connect() + epk + algo + pk }
    pub open spec fn ack_th(peer_epk: Seq<u8>) -> Seq<u8> { ty_ack() + sha(peer_epk) }
    pub open spec fn user_th(n: u64) -> Seq<u8> { ty_user() + be8(n) }
    pub open spec fn connect_msg(epk: Seq<u8>, pk: Seq<u8>, payload: Seq<u8>) -> Seq<u8> {
        frame(connect_th(epk, ed25519_code(), pk), payload)
    }
    pub open spec fn ack_msg(peer_epk: Seq<u8>, payload: Seq<u8>) -> Seq<u8> { frame(ack_th(peer_epk), payload) }
    pub open spec fn user_frame(n: u64, payload: Seq<u8>) -> Seq<u8> { frame(user_th(n), payload) }
    pub open spec fn user_plain(n: u64, payload: Seq<u8>) -> Seq<u8> {
        user_frame(n, payload) + sha(user_frame(n, payload))
    }
    /// bytes of an optional payload
    pub open spec fn obytes(p: Option<&[u8]>) -> Seq<u8> { match p { Some(x) => x@, None => Seq::empty() } }
    pub open spec fn vbytes(p: Option<Vec<u8>>) -> Seq<u8> { match p { Some(x) => x@, None => Seq::empty() } }
    pub open spec fn oview(p: Option<Vec<u8>>) -> Option<Seq<u8>> { match p { Some(x) => Some(x@), None => None } }
    pub open spec fn orefview(p: Option<&Vec<u8>>) -> Option<Seq<u8>> { match p { Some(x) => Some(x@), None => None } }
    /// an empty payload reads as absent
    pub open spec fn opt(p: Seq<u8>) -> Option<Seq<u8>> { if p.len() == 0 { None } else { Some(p) } }

    pub open spec fn mth(m: MessageRef, self_epk: Seq<u8>, peer_epk: Option<Seq<u8>>) -> Seq<u8> {
        match m {
            MessageRef::Connect { sig_algo, sig_pubkey, custom_data } => connect_th(self_epk, sig_algo@, sig_pubkey@),
            MessageRef::Ack { custom_data } => ack_th(peer_epk->0),
            MessageRef::Message { custom_data, nonce } => user_th(nonce),
        }
    }
    pub open spec fn mpayload(m: MessageRef) -> Seq<u8> {
        match m {
            MessageRef::Connect { sig_algo, sig_pubkey, custom_data } => obytes(custom_data),
            MessageRef::Ack { custom_data } => obytes(custom_data),
            MessageRef::Message { custom_data, nonce } => obytes(custom_data),
        }
    }
    // ================================================================ parsing
    pub enum Hdr {
        Connect { epk: Seq<u8>, algo: Seq<u8>, pk: Seq<u8> },
        Ack { challenge: Seq<u8> },
        User { nonce: u64 },
    }
    pub open spec fn hdr_type(t: Seq<u8>) -> Seq<u8> { t.subrange(0, 2) }
    pub open spec fn hdr_len(t: Seq<u8>) -> int {
        if t.len() < 2 { -1 }
        else if hdr_type(t) == ty_user() { if t.len() < 10 { -1 } else { 10 } }
        else if hdr_type(t) == ty_connect() {
            if t.len() < 70 || t.subrange(34, 38) != ed25519_code() { -1 } else { 70 }
        }
        else if hdr_type(t) == ty_ack() { if t.len() < 34 { -1 } else { 34 } }
        else { -1 }
    }
    pub open spec fn hdr_of(t: Seq<u8>) -> Hdr {
        if hdr_type(t) == ty_user() { Hdr::User { nonce: un8(t.subrange(2, 10)) } }
        else if hdr_type(t) == ty_connect() {
            Hdr::Connect { epk: t.subrange(2, 34), algo: t.subrange(34, 38), pk: t.subrange(38, 70) }
        }
        else { Hdr::Ack { challenge: t.subrange(2, 34) } }
    }
    pub struct PFrame { pub data: Seq<u8>, pub begin: int, pub end: int, pub hdr: Hdr }
    pub open spec fn after16(d: Seq<u8>) -> Seq<u8> { d.subrange(16, d.len() as int) }
    pub open spec fn parse(d: Seq<u8>) -> Option<PFrame> {
        if d.len() < 16 || d.subrange(0, 4) != magic() || d.subrange(4, 8) != version() { None }
        else if hdr_len(after16(d)) < 0 { None }
        else {
            let sz = un8(d.subrange(8, 16)) as int;
            if sz < hdr_len(after16(d)) || sz > d.len() - 16 { None }
            else { Some(PFrame { data: d, begin: 16 + hdr_len(after16(d)), end: 16 + sz, hdr: hdr_of(after16(d)) }) }
        }
    }
    pub open spec fn hview(h: MsgTypeHeaders) -> Hdr {
        match h {
            MsgTypeHeaders::Connect { peer_ephemeral_pk, sig_algo, sig_pubkey } =>
                Hdr::Connect { epk: peer_ephemeral_pk@, algo: sig_algo@, pk: sig_pubkey@ },
            MsgTypeHeaders::Ack { challenge } => Hdr::Ack { challenge: challenge@ },
            MsgTypeHeaders::UserMsg { nonce } => Hdr::User { nonce },
        }
    }
    pub open spec fn dview(d: DecryptedIncomingData) -> PFrame {
        PFrame { data: d.data@, begin: d.user_msg_begin as int, end: d.user_msg_end as int, hdr: hview(d.msg_type_headers) }
    }
    pub open spec fn payload(f: PFrame) -> Seq<u8> { f.data.subrange(f.begin, f.end) }
    pub open spec fn covered(f: PFrame) -> Seq<u8> { f.data.subrange(0, f.end) }
    pub open spec fn trailer(f: PFrame) -> Seq<u8> { f.data.subrange(f.end, f.data.len() as int) }

    // ================================================================ session key and encryption
    pub struct K { pub key: Seq<u8>, pub nonce: Seq<u8>, pub aad: Seq<u8> }
    pub open spec fn skview(k: crate::encryption::chacha20_poly1305_aead::SecretKey) -> K {
        K { key: k.key@, nonce: k.nonce@, aad: k.aad@ }
    }
    pub open spec fn kview(k: EncryptAlgoWithSecretKey) -> K {
        match k { EncryptAlgoWithSecretKey::Chacha20Poly1305Aead(s) => skview(s) }
    }
    pub open spec fn okview(k: Option<EncryptAlgoWithSecretKey>) -> Option<K> {
        match k { Some(k) => Some(kview(k)), None => None }
    }
    pub open spec fn okrefview(k: Option<&EncryptAlgoWithSecretKey>) -> Option<K> {
        match k { Some(k) => Some(kview(*k)), None => None }
    }
    pub open spec fn seal(k: K, pt: Seq<u8>) -> Seq<u8> {
        aead_ct(k.key, k.nonce, k.aad, pt) + aead_tag(k.key, k.nonce, k.aad, pt)
    }
    pub open spec fn unseal(k: K, d: Seq<u8>) -> Option<Seq<u8>> {
        if d.len() < 16 { None }
        else { aead_open(k.key, k.nonce, k.aad, d.subrange(0, d.len() - 16), d.subrange(d.len() - 16, d.len() as int)) }
    }
    pub open spec fn clear(d: Seq<u8>) -> bool { d.len() >= 4 && d.subrange(0, 4) == magic() }
    pub open spec fn opened(key: Option<K>, d: Seq<u8>) -> Option<Seq<u8>> {
        if d.len() < 4 { None }
        else if clear(d) { Some(d) }
        else { match key { None => None, Some(k) => unseal(k, d) } }
    }
    /// the frame a received byte string stands for; `check`: the encryption state must fit the kind
    pub open spec fn rd(key: Option<K>, d: Seq<u8>, check: bool) -> Option<PFrame> {
        match opened(key, d) {
            None => None,
            Some(p) => match parse(p) {
                None => None,
                Some(f) => if check && clear(d) == (f.hdr is User) { None } else { Some(f) },
            },
        }
    }

    // ================================================================ key derivation
    pub open spec fn larger(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if lex_lt(b, a) { a } else { b } }
    /// the 48 bytes both sides derive
    pub open spec fn seed48(own_pub: Seq<u8>, peer_pub: Seq<u8>, secret: Seq<u8>) -> Seq<u8> {
        pbkdf2(2, 3, larger(own_pub, peer_pub), secret, 48)
    }
    pub open spec fn split48(s: Seq<u8>) -> K {
        K { key: s.subrange(0, 32), nonce: s.subrange(32, 44), aad: s.subrange(44, 48) }
    }
    pub open spec fn session_key(sk: Seq<u8>, own_pub: Seq<u8>, peer_pub: Seq<u8>) -> Option<K> {
        match dh(sk, peer_pub) {
            Some(s) => Some(split48(seed48(own_pub, peer_pub, s))),
            None => None,
        }
    }
    pub open spec fn ssview(s: SharedSecret) -> Seq<u8> {
        match s {
            SharedSecret::B32(x) => x.0@,
            SharedSecret::B48(x) => x.0.0@,
            SharedSecret::B64(x) => x.0.0@,
        }
    }
    pub open spec fn ss_kind(s: SharedSecret, l: SharedSecretLen) -> bool {
        match l {
            SharedSecretLen::B32 => s is B32,
            SharedSecretLen::B48 => s is B48,
            SharedSecretLen::B64 => s is B64,
        }
    }
    pub open spec fn ss_len(l: SharedSecretLen) -> nat {
        match l { SharedSecretLen::B32 => 32, SharedSecretLen::B48 => 48, SharedSecretLen::B64 => 64 }
    }
    pub open spec fn ss_alg(l: SharedSecretLen) -> int {
        match l { SharedSecretLen::B32 => 1, SharedSecretLen::B48 => 2, SharedSecretLen::B64 => 3 }
    }
    pub open spec fn epk(e: EphemeralPublicKey) -> Seq<u8> { e.0.v() }

    // ================================================================ negotiation status
    pub open spec fn failed(s: SecureLayerStatus) -> bool { s is Fail }
    pub open spec fn success(s: SecureLayerStatus) -> bool { s is NegotiationSuccessful }
    pub open spec fn ongoing(s: SecureLayerStatus) -> bool { s is OngoingNegotiation }
    /// own CONNECT created
    pub open spec fn cc(s: SecureLayerStatus) -> bool {
        match s {
            SecureLayerStatus::OngoingNegotiation { local, remote } => !(local is Created),
            _ => success(s),
        }
    }
    /// peer CONNECT accepted
    pub open spec fn pc(s: SecureLayerStatus) -> bool {
        match s {
            SecureLayerStatus::OngoingNegotiation { local, remote } => !(remote is WaitConnectMsg),
            _ => success(s),
        }
    }
    /// own ACK created
    pub open spec fn oa(s: SecureLayerStatus) -> bool {
        match s {
            SecureLayerStatus::OngoingNegotiation { local, remote } => remote is AckMsgSent,
            _ => success(s),
        }
    }
    /// peer ACK accepted
    pub open spec fn pa(s: SecureLayerStatus) -> bool {
        match s {
            SecureLayerStatus::OngoingNegotiation { local, remote } => local is ValidAckMsgReceived,
            _ => success(s),
        }
    }
    /// not failed, and exactly these events have happened
    pub open spec fn events(s: SecureLayerStatus, c: bool, p: bool, o: bool, a: bool) -> bool {
        !failed(s) && cc(s) == c && pc(s) == p && oa(s) == o && pa(s) == a
    }
    /// a negotiation with all four events is the successful state
    pub open spec fn st_ok(s: SecureLayerStatus) -> bool {
        ongoing(s) ==> !(cc(s) && pc(s) && oa(s) && pa(s))
    }
    pub open spec fn may_receive(s: SecureLayerStatus, t: MsgType) -> bool {
        match t {
            MsgType::Connect => ongoing(s) && !pc(s),
            MsgType::Ack => ongoing(s) && cc(s) && !pa(s),
            MsgType::UserMsg => success(s) || keeps_user(s),
        }
    }
    /// early user messages are kept
    pub open spec fn keeps_user(s: SecureLayerStatus) -> bool { ongoing(s) && cc(s) && oa(s) && !pa(s) }
    pub open spec fn may_create(s: SecureLayerStatus, t: MsgType) -> bool {
        match t {
            MsgType::Connect => ongoing(s) && !cc(s),
            MsgType::Ack => ongoing(s) && pc(s) && !oa(s),
            MsgType::UserMsg => success(s),
        }
    }

    // ================================================================ a layer
    pub type MSL = MinimalSecureLayer;
    pub open spec fn key(s: MSL) -> Option<K> { okview(s.encrypt_algo_with_secret) }
    pub open spec fn peer(s: MSL) -> Option<Seq<u8>> { oview(s.peer_sig_pubkey) }
    pub open spec fn peer_epk(s: MSL) -> Option<Seq<u8>> { oview(s.peer_epk) }
    pub open spec fn own_epk(s: MSL) -> Seq<u8> { epk(s.ephemeral_pubkey) }
    pub open spec fn early_ack(s: MSL) -> Option<Seq<u8>> { oview(s.ack_msg_recv_too_early) }
    pub open spec fn kept(s: MSL) -> Seq<Seq<u8>> { s.tmp_stack_user_msgs@.map(|i: int, v: Vec<u8>| v@) }
    pub open spec fn lowest(s: MSL) -> u64 { s.next_nonce_expected }
    pub open spec fn orphans(s: MSL) -> Set<u64> { s.orphan_nonce_list@ }
    pub open spec fn recv(s: MSL) -> ISet<u64> { recv_at(s.next_nonce_expected, s.orphan_nonce_list@) }
    pub open spec fn recv_at(next: u64, out_of_order: Set<u64>) -> ISet<u64> {
        ISet::new(|k: u64| k < next || out_of_order.contains(k))
    }
    pub open spec fn received(s: MSL, k: u64) -> bool { k < lowest(s) || orphans(s).contains(k) }
    pub open spec fn is_kept(s: MSL, d: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.tmp_stack_user_msgs@.len() && #[trigger] s.tmp_stack_user_msgs@[i]@ == d }
    /// everything a received message could have changed, apart from the status
    pub open spec fn load(s: MSL) -> int {
        lowest(s) as int + orphans(s).len() as int + s.tmp_stack_user_msgs@.len() as int
    }
    pub open spec fn max_window() -> nat { 10_000 }
    pub open spec fn max_count() -> int { 0x4000_0000_0000_0000 }

    // invariants, per property
    pub open spec fn inv_key(s: MSL) -> bool {
        &&& (ongoing(s.status) && pc(s.status) ==> key(s) is Some && peer_epk(s) is Some)
        &&& (success(s.status) ==> key(s) is Some)
        &&& (ongoing(s.status) && !pc(s.status) ==> s.ephemeral_kp is Some && key(s) is None)
    }
    pub open spec fn inv_st(s: MSL) -> bool { st_ok(s.status) }
    pub open spec fn inv_distinct(s: MSL) -> bool {
        forall|i: int, j: int| 0 <= i < j < s.tmp_stack_user_msgs@.len() ==> (#[trigger] s.tmp_stack_user_msgs@[i])@ != (#[trigger] s.tmp_stack_user_msgs@[j])@
    }
    pub open spec fn inv_early(s: MSL) -> bool { ongoing(s.status) ==> lowest(s) == 0 && orphans(s) =~= Set::<u64>::empty() }
    pub open spec fn inv_kp(s: MSL) -> bool {
        s.ephemeral_kp is Some ==> epk(s.ephemeral_kp->0.pubkey) == own_epk(s)
            && base(s.ephemeral_kp->0.privkey.sk()) == own_epk(s)
    }
    pub open spec fn fresh_kp(s: MSL) -> bool {
        s.ephemeral_kp is Some && drawn(s.ephemeral_kp->0.privkey.sk()) && epk(s.ephemeral_kp->0.pubkey) == own_epk(s)
            && base(s.ephemeral_kp->0.privkey.sk()) == own_epk(s)
    }
    pub open spec fn inv_epk(s: MSL) -> bool { own_epk(s).len() == 32 }
    pub open spec fn inv_window(s: MSL) -> bool {
        &&& orphans(s).len() <= max_window()
        &&& forall|k: u64| #[trigger] orphans(s).contains(k) ==> k > lowest(s)
    }
    pub open spec fn user_nonce(d: Seq<u8>) -> u64 { parse(d)->0.hdr->nonce }
    /// every kept message is a well-formed user frame
    pub open spec fn inv_kept(s: MSL) -> bool {
        &&& forall|i: int| 0 <= i < s.tmp_stack_user_msgs@.len() ==>
                parse((#[trigger] s.tmp_stack_user_msgs@[i])@) is Some && parse(s.tmp_stack_user_msgs@[i]@)->0.hdr is User
        &&& (s.tmp_stack_user_msgs@.len() > 0 && ongoing(s.status) ==> keeps_user(s.status))
    }
    /// every kept message was opened with the session key
    pub open spec fn sealed_origin(k: Option<K>, d: Seq<u8>) -> bool {
        exists|c: Seq<u8>| !clear(c) && k is Some && #[trigger] unseal(k->0, c) == Some(d)
    }
    pub open spec fn inv_sealed(s: MSL) -> bool {
        forall|i: int| 0 <= i < s.tmp_stack_user_msgs@.len() ==>
            sealed_origin(key(s), (#[trigger] s.tmp_stack_user_msgs@[i])@)
    }

    // ---------------------------------------------------------------- what may be accepted
    pub open spec fn sig_ok(pk: Seq<u8>, f: PFrame) -> bool { ed25519_valid(pk, covered(f), trailer(f)) }
    pub open spec fn hash_ok(f: PFrame) -> bool { trailer(f) == sha(covered(f)) }
    pub open spec fn connect_genuine(s: MSL, f: PFrame) -> bool {
        f.hdr is Connect && sig_ok(f.hdr->pk, f) && (peer(s) is Some ==> peer(s)->0 == f.hdr->pk)
    }
    pub open spec fn ack_answers(s: MSL, f: PFrame) -> bool {
        f.hdr is Ack && f.hdr->challenge == sha(own_epk(s))
    }
    pub open spec fn ack_genuine(s: MSL, f: PFrame) -> bool {
        ack_answers(s, f) && peer(s) is Some && sig_ok(peer(s)->0, f)
    }
    pub open spec fn new_key(s: MSL, f: PFrame) -> Option<K> {
        if s.ephemeral_kp is Some { session_key(s.ephemeral_kp->0.privkey.sk(), epk(s.ephemeral_kp->0.pubkey), f.hdr->epk) } else { None }
    }
    pub open spec fn takes_connect(s: MSL, f: PFrame) -> bool {
        connect_genuine(s, f) && may_receive(s.status, MsgType::Connect) && new_key(s, f) is Some
    }
    pub open spec fn takes_ack(s: MSL, f: PFrame) -> bool {
        ack_genuine(s, f) && may_receive(s.status, MsgType::Ack)
    }
    /// a user message not seen before
    pub open spec fn fresh(s: MSL, f: PFrame) -> bool {
        f.hdr is User && !received(s, f.hdr->nonce) && !is_kept(s, f.data)
    }
    pub open spec fn fits(s: MSL, f: PFrame) -> bool {
        f.hdr->nonce == lowest(s) || orphans(s).len() < max_window()
    }
    pub open spec fn takes_user(s: MSL, f: PFrame) -> bool {
        fresh(s, f) && success(s.status) && hash_ok(f) && fits(s, f)
    }

    pub type R = Result<Option<Message>, Error>;
    pub type DR = Result<Vec<Message>, Error>;
    pub open spec fn got_connect(r: R) -> bool { r is Ok && r->Ok_0 is Some && r->Ok_0->0 is Connect }
    pub open spec fn got_ack(r: R) -> bool { r is Ok && r->Ok_0 is Some && r->Ok_0->0 is Ack }
    pub open spec fn got_user(r: R) -> bool { r is Ok && r->Ok_0 is Some && r->Ok_0->0 is Message }
    pub open spec fn got_some(r: R) -> bool { r is Ok && r->Ok_0 is Some }
    pub open spec fn msg_payload(m: Message) -> Option<Seq<u8>> {
        match m {
            Message::Connect { sig_algo, sig_pubkey, custom_data } => oview(custom_data),
            Message::Ack { custom_data } => oview(custom_data),
            Message::Message { custom_data } => oview(custom_data),
        }
    }
    pub open spec fn got_payload(r: R) -> Option<Seq<u8>> { msg_payload(r->Ok_0->0) }
    pub open spec fn got_pk(r: R) -> Seq<u8> { r->Ok_0->0->sig_pubkey@ }

    // ---------------------------------------------------------------- reading: one predicate per property
    // s: before, t: after, d: the bytes, r: the result
    pub open spec fn read_kind(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_connect(r) ==> f is Some && f->0.hdr is Connect)
        &&& (got_ack(r) ==> f is Some && f->0.hdr is Ack)
        &&& (got_user(r) ==> f is Some && f->0.hdr is User)
    }
    /// what is delivered may be accepted
    pub open spec fn read_sound(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_connect(r) ==> f is Some && takes_connect(s, f->0) && got_pk(r) == f->0.hdr->pk && got_payload(r) == opt(payload(f->0)))
        &&& (got_ack(r) ==> f is Some && takes_ack(s, f->0) && got_payload(r) == opt(payload(f->0)))
        &&& (got_user(r) ==> f is Some && takes_user(s, f->0) && got_payload(r) == opt(payload(f->0)))
    }
    pub open spec fn read_c02(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_connect(r) ==> f is Some && f->0.hdr is Connect && got_pk(r) == f->0.hdr->pk
                && sig_ok(f->0.hdr->pk, f->0) && (peer(s) is Some ==> peer(s)->0 == f->0.hdr->pk)
                && peer(t) == Some(f->0.hdr->pk))
        &&& (got_ack(r) ==> f is Some && f->0.hdr is Ack && peer(s) is Some && sig_ok(peer(s)->0, f->0))
        &&& (!got_connect(r) ==> peer(t) == peer(s))
        &&& (pc(t.status) && !pc(s.status) ==> got_connect(r))
        &&& (pa(t.status) && !pa(s.status) ==> got_ack(r))
        &&& (key(t) != key(s) ==> got_connect(r))
    }
    pub open spec fn read_c03(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_ack(r) ==> f is Some && f->0.hdr is Ack && f->0.hdr->challenge == sha(own_epk(s))
                && cc(s.status) && !pa(s.status) && pa(t.status))
        &&& (pa(t.status) && !pa(s.status) ==> got_ack(r))
        &&& (got_connect(r) ==> f is Some && f->0.hdr is Connect && peer_epk(t) == Some(f->0.hdr->epk))
        &&& (!got_connect(r) && !failed(t.status) ==> peer_epk(t) == peer_epk(s))
        &&& own_epk(t) == own_epk(s)
    }
    pub open spec fn read_c04(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        &&& (got_connect(r) ==> !failed(s.status) && !pc(s.status) && events(t.status, cc(s.status), true, oa(s.status), pa(s.status)))
        &&& (got_ack(r) ==> !failed(s.status) && cc(s.status) && !pa(s.status) && events(t.status, cc(s.status), pc(s.status), oa(s.status), true))
        &&& (got_user(r) ==> success(s.status) && t.status == s.status)
        &&& (r is Ok && r->Ok_0 is None ==> t.status == s.status)
        &&& (r is Err ==> t.status == s.status || failed(t.status))
        &&& st_ok(t.status)
    }
    pub open spec fn read_c05(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (failed(s.status) ==> failed(t.status) && !got_some(r))
        &&& (f is None ==> failed(t.status) && r is Err)
        &&& (f is Some && connect_genuine(s, f->0) && !may_receive(s.status, MsgType::Connect) ==> failed(t.status) && r is Err)
        &&& (f is Some && connect_genuine(s, f->0) && may_receive(s.status, MsgType::Connect) && new_key(s, f->0) is None
                ==> failed(t.status) && r is Err)
        &&& (f is Some && ack_genuine(s, f->0) && !may_receive(s.status, MsgType::Ack) ==> failed(t.status) && r is Err)
        &&& (f is Some && ack_answers(s, f->0) && peer(s) is None && early_ack(s) is Some ==> failed(t.status) && r is Err)
        &&& (f is Some && fresh(s, f->0) && !may_receive(s.status, MsgType::UserMsg) ==> failed(t.status) && r is Err)
        &&& (f is Some && fresh(s, f->0) && success(s.status) && hash_ok(f->0) && !fits(s, f->0) ==> failed(t.status) && r is Err)
    }
    pub open spec fn read_c06(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        &&& (check && got_user(r) ==> !clear(d))
        &&& (check && (got_connect(r) || got_ack(r)) ==> clear(d))
        &&& (check && t.tmp_stack_user_msgs@ != s.tmp_stack_user_msgs@ ==> !clear(d))
        &&& (check && early_ack(t) != early_ack(s) ==> clear(d))
        &&& (got_user(r) ==> rd(key(s), d, check) is Some && rd(key(s), d, check)->0.hdr is User)
    }
    pub open spec fn read_c07(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_user(r) ==> f is Some && f->0.hdr is User && hash_ok(f->0) && got_payload(r) == opt(payload(f->0)))
        &&& (got_user(r) && check ==> key(s) is Some && unseal(key(s)->0, d) is Some && f == parse(unseal(key(s)->0, d)->0))
    }
    pub open spec fn read_c08(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_user(r) ==> f is Some && f->0.hdr is User && !received(s, f->0.hdr->nonce)
                && recv(t) =~= recv(s).insert(f->0.hdr->nonce))
        &&& (!got_user(r) ==> recv(t) =~= recv(s))
    }
    pub open spec fn read_c09(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (f is Some && takes_user(s, f->0) ==> got_user(r))
        &&& (f is Some && f->0.hdr is User && received(s, f->0.hdr->nonce) ==> t.status == s.status)
        &&& inv_window(t)
    }
    pub open spec fn read_c10(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        t.next_nonce_sent == s.next_nonce_sent
    }
    pub open spec fn read_c12(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (f is Some && takes_connect(s, f->0) ==> got_connect(r) && got_pk(r) == f->0.hdr->pk
                && got_payload(r) == opt(payload(f->0)))
        &&& (f is Some && takes_ack(s, f->0) ==> got_ack(r) && got_payload(r) == opt(payload(f->0)))
        &&& (f is Some && takes_user(s, f->0) ==> got_user(r) && got_payload(r) == opt(payload(f->0)))
    }
    pub open spec fn read_c13(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        &&& (got_connect(r) ==> f is Some && f->0.hdr is Connect && key(s) is None && key(t) == new_key(s, f->0) && key(t) is Some && t.ephemeral_kp is None)
        &&& (!got_connect(r) ==> key(t) == key(s))
        &&& (t.ephemeral_kp is None || t.ephemeral_kp == s.ephemeral_kp)
        &&& own_epk(t) == own_epk(s)
    }
    pub open spec fn read_c14(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        let f = rd(key(s), d, check);
        let keep_ack = f is Some && ack_answers(s, f->0) && peer(s) is None && early_ack(s) is None;
        let keep_user = f is Some && fresh(s, f->0) && keeps_user(s.status);
        &&& (keep_ack ==> r is Ok && r->Ok_0 is None && early_ack(t) == Some(d) && t.status == s.status)
        &&& (!keep_ack ==> early_ack(t) == early_ack(s))
        &&& (f is Some && ack_answers(s, f->0) && peer(s) is None && early_ack(s) is Some ==> r is Err && failed(t.status))
        &&& (keep_user ==> r is Ok && r->Ok_0 is None && kept(t) =~= kept(s).push(f->0.data) && t.status == s.status)
        &&& (!keep_user ==> kept(t) == kept(s))
        &&& (f is Some && f->0.hdr is User && is_kept(s, f->0.data) ==> r is Err && t.status == s.status)
        &&& (r is Ok && r->Ok_0 is None ==> keep_ack || keep_user)
    }
    pub open spec fn read_c15(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool {
        r is Err ==> {
            &&& peer(t) == peer(s) && key(t) == key(s) && t.next_nonce_sent == s.next_nonce_sent
            &&& recv(t) =~= recv(s)
            &&& kept(t) == kept(s) && early_ack(t) == early_ack(s)
            &&& (t.status == s.status || failed(t.status))
            &&& (!failed(t.status) ==> t.ephemeral_kp == s.ephemeral_kp && peer_epk(t) == peer_epk(s) && own_epk(t) == own_epk(s)
                    && orphans(t) == orphans(s) && t.config == s.config && t.cloned == s.cloned)
        }
    }
    pub open spec fn read_c19(s: MSL, t: MSL, d: Seq<u8>, check: bool, r: R) -> bool { t.cloned == s.cloned && t.config == s.config }

    // ---------------------------------------------------------------- what other operations leave alone
    pub open spec fn q_c02(s: MSL, t: MSL) -> bool { peer(t) == peer(s) }
    pub open spec fn q_c03(s: MSL, t: MSL) -> bool { own_epk(t) == own_epk(s) && peer_epk(t) == peer_epk(s) }
    pub open spec fn q_c08(s: MSL, t: MSL) -> bool { recv(t) =~= recv(s) }
    pub open spec fn q_c10(s: MSL, t: MSL) -> bool { t.next_nonce_sent == s.next_nonce_sent }
    pub open spec fn q_c13(s: MSL, t: MSL) -> bool { key(t) == key(s) && t.ephemeral_kp == s.ephemeral_kp && own_epk(t) == own_epk(s) }
    pub open spec fn q_c13r(s: MSL, t: MSL) -> bool {
        key(t) == key(s) && own_epk(t) == own_epk(s) && (t.ephemeral_kp is None || t.ephemeral_kp == s.ephemeral_kp)
    }
    pub open spec fn q_c14(s: MSL, t: MSL) -> bool { early_ack(t) == early_ack(s) && kept(t) == kept(s) }
    pub open spec fn q_c19(s: MSL, t: MSL) -> bool { t.cloned == s.cloned && t.config == s.config }
    /// the clone of a layer
    pub open spec fn clone_of(s: MSL, c: MSL) -> bool {
        &&& key(c) == key(s) && c.next_nonce_sent == s.next_nonce_sent && c.config == s.config
        &&& lowest(c) == lowest(s) && orphans(c) == orphans(s) && kept(c) =~= kept(s)
        &&& success(c.status) && c.ephemeral_kp is None
    }
    /// i-th kept message and its number
    pub open spec fn kf(s: MSL, i: int) -> PFrame { frame_of(kept(s)[i]) }
    pub open spec fn frame_of(d: Seq<u8>) -> PFrame { parse(d)->0 }
    /// the numbers received after delivery of the first n kept messages
    pub open spec fn recv_after(s: MSL, n: int) -> ISet<u64> { received_after(recv(s), kept(s), n) }
    pub open spec fn received_after(r: ISet<u64>, k: Seq<Seq<u8>>, n: int) -> ISet<u64> decreases n {
        if n <= 0 { r } else { received_after(r, k, n - 1).insert(user_nonce(k[n - 1])) }
    }
    pub open spec fn new_when_drained(s: MSL, i: int) -> bool { is_new(recv(s), kept(s), i) }
    pub open spec fn is_new(r: ISet<u64>, k: Seq<Seq<u8>>, i: int) -> bool { !received_after(r, k, i).contains(user_nonce(k[i])) }
    /// the kept messages can all be delivered
    pub open spec fn deliverable(s: MSL) -> bool {
        &&& orphans(s).len() + kept(s).len() <= max_window()
        &&& forall|i: int| 0 <= i < kept(s).len() ==> hash_ok(frame_of(#[trigger] kept(s)[i])) && is_new(recv(s), kept(s), i)
    }
    pub open spec fn drainable(s: MSL) -> bool { success(s.status) && deliverable(s) }
    /// what delivering the kept messages does to the numbers received
    pub open spec fn drain_c08(s: MSL, t: MSL, r: DR) -> bool {
        &&& (r is Ok && r->Ok_0@.len() > 0 ==> r->Ok_0@.len() == kept(s).len()
                && (forall|i: int| 0 <= i < r->Ok_0@.len() ==> #[trigger] is_new(recv(s), kept(s), i)) && recv(t) =~= recv_after(s, r->Ok_0@.len() as int))
        &&& exists|n: int| recv(t) =~= #[trigger] recv_after(s, n)
    }
    // ---------------------------------------------------------------- states that differ in one respect
    pub open spec fn same_but_status(s: MSL, t: MSL) -> bool { t == (MinimalSecureLayer { status: t.status, ..s }) }
    pub open spec fn same_but_status_number(s: MSL, t: MSL) -> bool {
        t == (MinimalSecureLayer { status: t.status, next_nonce_sent: t.next_nonce_sent, ..s })
    }
    pub open spec fn no_early_ack(s: MSL) -> MSL { MinimalSecureLayer { ack_msg_recv_too_early: None, ..s } }

    // ================================================================ complete mode
    pub type SL = SecureLayer;
    pub type IBM = IncomingBinaryMessage;
    pub type BR = Result<Vec<IncomingBinaryMessage>, Error>;
    pub open spec fn m(x: SL) -> MSL { x.minimal_secure_layer }
    pub open spec fn msgs(r: BR) -> Seq<IBM> { match r { Ok(v) => v@, Err(_) => Seq::empty() } }
    pub open spec fn bin_data(x: IBM) -> Option<Seq<u8>> {
        match x {
            IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => oview(custom_data),
            IncomingBinaryMessage::Ack { custom_data } => oview(custom_data),
            IncomingBinaryMessage::Message { data } => oview(data),
        }
    }
    /// x is what the received payload z stands for (no claim on payloads that are no deflate stream)
    pub open spec fn carries(z: Option<Seq<u8>>, x: Option<Seq<u8>>) -> bool {
        match z { None => x is None, Some(b) => x is Some && (inflate(b) is Some ==> x == inflate(b)) }
    }
    pub open spec fn unpackable(z: Option<Seq<u8>>) -> bool { z is Some ==> inflate(z->0) is Some }
    /// z is a payload that stands for x
    pub open spec fn packs(z: Seq<u8>, x: Option<Seq<u8>>) -> bool {
        match x { None => z.len() == 0, Some(b) => z.len() > 0 && inflate(z) == Some(b) }
    }
    /// the stream the settings ask for: stored below the minimal size, else compressed with the configured level
    pub open spec fn level_for(c: SecureLayerConfig, n: int) -> int { if n < c.compression_min_size { 0 } else { c.compression.l as int } }
    pub open spec fn zip_as(c: SecureLayerConfig, x: Seq<u8>) -> Seq<u8> { deflate(level_for(c, x.len() as int), x) }
    pub open spec fn ozip(c: SecureLayerConfig, x: Option<Seq<u8>>) -> Seq<u8> { match x { None => Seq::empty(), Some(b) => zip_as(c, b) } }
    pub open spec fn raw(f: PFrame) -> Option<Seq<u8>> { opt(payload(f)) }
    pub open spec fn has_connect(v: Seq<IBM>) -> bool { v.len() > 0 && v[0] is Connect }
    pub open spec fn has_ack(v: Seq<IBM>) -> bool { v.len() > 0 && v[0] is Ack }
    pub open spec fn has_user(v: Seq<IBM>) -> bool { v.len() > 0 && v[0] is Message }
    pub open spec fn with_early(v: Seq<IBM>) -> bool { v.len() > 1 && v[0] is Connect }
    /// the frame the early ACK stands for, once the session key is there
    pub open spec fn early(s: MSL, t: MSL) -> Option<PFrame> {
        match early_ack(s) { None => None, Some(e) => rd(key(t), e, true) }
    }
    // s: before, t: after, d: the bytes, v: what was delivered
    pub open spec fn bin_shape(s: MSL, v: Seq<IBM>) -> bool {
        &&& (has_user(v) ==> v.len() == 1)
        &&& (has_connect(v) ==> v.len() <= 2)
        &&& (with_early(v) ==> v[1] is Ack && early_ack(s) is Some)
        &&& (has_ack(v) ==> forall|i: int| 1 <= i < v.len() ==> (#[trigger] v[i]) is Message)
    }
    pub open spec fn bin_c02(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        let e = early(s, t);
        &&& (peer(t) != peer(s) || pc(t.status) && !pc(s.status) || key(t) != key(s)
                ==> f is Some && connect_genuine(s, f->0) && peer(t) == Some(f->0.hdr->pk))
        &&& (has_connect(v) ==> f is Some && connect_genuine(s, f->0) && v[0]->peer_sig_public_key@ == f->0.hdr->pk && peer(t) == Some(f->0.hdr->pk))
        &&& (with_early(v) ==> e is Some && e->0.hdr is Ack && sig_ok(peer(t)->0, e->0))
        &&& (has_ack(v) ==> f is Some && f->0.hdr is Ack && peer(s) is Some && sig_ok(peer(s)->0, f->0))
        &&& (pa(t.status) && !pa(s.status) ==> f is Some && f->0.hdr is Ack && peer(s) is Some && sig_ok(peer(s)->0, f->0)
                || e is Some && e->0.hdr is Ack && peer(t) is Some && sig_ok(peer(t)->0, e->0))
    }
    pub open spec fn bin_c03(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        let e = early(s, t);
        &&& (has_ack(v) ==> f is Some && ack_answers(s, f->0) && cc(s.status) && !pa(s.status) && pa(t.status))
        &&& (with_early(v) ==> e is Some && ack_answers(s, e->0) && cc(s.status) && !pa(s.status) && pa(t.status))
        &&& (pa(t.status) && !pa(s.status) ==> f is Some && ack_answers(s, f->0) || e is Some && ack_answers(s, e->0))
        &&& (has_connect(v) && !failed(t.status) ==> f is Some && f->0.hdr is Connect && peer_epk(t) == Some(f->0.hdr->epk))
        &&& (peer_epk(t) != peer_epk(s) && !failed(t.status) ==> f is Some && f->0.hdr is Connect && peer_epk(t) == Some(f->0.hdr->epk))
        &&& own_epk(t) == own_epk(s)
    }
    pub open spec fn bin_c04(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        &&& (has_connect(v) && !with_early(v) ==> !failed(s.status) && !pc(s.status)
                && (events(t.status, cc(s.status), true, oa(s.status), pa(s.status)) || failed(t.status) && early_ack(s) is Some))
        &&& (with_early(v) ==> !failed(s.status) && cc(s.status) && !pc(s.status) && !pa(s.status) && events(t.status, true, true, oa(s.status), true))
        &&& (has_ack(v) ==> !failed(s.status) && cc(s.status) && !pa(s.status) && events(t.status, true, pc(s.status), oa(s.status), true))
        &&& (has_ack(v) && v.len() > 1 ==> success(t.status))
        &&& (has_user(v) ==> success(s.status) && t.status == s.status)
        &&& (ok && v.len() == 0 ==> t.status == s.status)
        &&& (failed(t.status) || cc(t.status) == cc(s.status) && oa(t.status) == oa(s.status)
                && (pc(s.status) ==> pc(t.status)) && (pa(s.status) ==> pa(t.status)))
        &&& st_ok(t.status)
    }
    pub open spec fn bin_c05(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        let refused = failed(t.status) && !ok && v.len() == 0;
        &&& (failed(s.status) ==> failed(t.status) && v.len() == 0)
        &&& (f is None ==> refused)
        &&& (f is Some && connect_genuine(s, f->0) && !may_receive(s.status, MsgType::Connect) ==> refused)
        &&& (f is Some && connect_genuine(s, f->0) && may_receive(s.status, MsgType::Connect) && new_key(s, f->0) is None ==> refused)
        &&& (f is Some && ack_genuine(s, f->0) && !may_receive(s.status, MsgType::Ack) ==> refused)
        &&& (f is Some && ack_answers(s, f->0) && peer(s) is None && early_ack(s) is Some ==> refused)
        &&& (f is Some && fresh(s, f->0) && !may_receive(s.status, MsgType::UserMsg) ==> refused)
        &&& (f is Some && fresh(s, f->0) && success(s.status) && hash_ok(f->0) && !fits(s, f->0) ==> refused)
    }
    pub open spec fn bin_c06(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        &&& (has_user(v) ==> !clear(d))
        &&& (has_connect(v) || has_ack(v) ==> clear(d))
        &&& (with_early(v) ==> clear(early_ack(s)->0))
        &&& (early_ack(t) != early_ack(s) && early_ack(t) is Some ==> clear(d))
        &&& (has_ack(v) ==> v.len() - 1 <= kept(s).len() && forall|i: int| 0 <= i < v.len() - 1 ==> sealed_origin(key(t), #[trigger] kept(s)[i]))
    }
    pub open spec fn bin_c07(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        &&& (has_user(v) ==> f is Some && f->0.hdr is User && hash_ok(f->0) && carries(raw(f->0), bin_data(v[0])))
        &&& (has_user(v) ==> key(s) is Some && unseal(key(s)->0, d) is Some && f == parse(unseal(key(s)->0, d)->0))
        &&& (has_ack(v) && v.len() > 1 ==> v.len() - 1 == kept(s).len() && forall|i: int| 1 <= i < v.len() ==>
                hash_ok(kf(s, i - 1)) && carries(raw(kf(s, i - 1)), bin_data(#[trigger] v[i])))
    }
    pub open spec fn bin_c08(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        &&& (has_user(v) ==> f is Some && f->0.hdr is User && !received(s, f->0.hdr->nonce) && recv(t) =~= recv(s).insert(f->0.hdr->nonce))
        &&& (has_connect(v) || ok && v.len() == 0 ==> recv(t) =~= recv(s))
        &&& (has_ack(v) && v.len() > 1 ==> v.len() - 1 <= kept(s).len() && recv(t) =~= recv_after(s, kept(s).len() as int)
                && forall|i: int| 0 <= i < kept(s).len() ==> #[trigger] is_new(recv(s), kept(s), i))
        &&& (forall|k: u64| recv(s).contains(k) ==> #[trigger] recv(t).contains(k))
    }
    pub open spec fn bin_c09(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        &&& (f is Some && takes_user(s, f->0) && unpackable(raw(f->0)) ==> has_user(v))
        &&& (f is Some && f->0.hdr is User && received(s, f->0.hdr->nonce) ==> t.status == s.status)
        &&& inv_window(t)
    }
    pub open spec fn bin_c12(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        &&& (f is Some && unpackable(raw(f->0)) && takes_connect(s, f->0) && early_ack(s) is None ==> has_connect(v) && v.len() == 1
                && v[0]->peer_sig_public_key@ == f->0.hdr->pk && carries(raw(f->0), bin_data(v[0])))
        &&& (f is Some && unpackable(raw(f->0)) && takes_ack(s, f->0) && kept(s).len() == 0 ==> has_ack(v) && v.len() == 1 && carries(raw(f->0), bin_data(v[0])))
        &&& (f is Some && unpackable(raw(f->0)) && takes_user(s, f->0) ==> has_user(v) && carries(raw(f->0), bin_data(v[0])))
    }
    pub open spec fn bin_c13(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        &&& (key(t) != key(s) ==> f is Some && f->0.hdr is Connect && key(s) is None && key(t) == new_key(s, f->0) && key(t) is Some && t.ephemeral_kp is None)
        &&& (has_connect(v) ==> f is Some && f->0.hdr is Connect && key(t) is Some && key(t) == new_key(s, f->0))
        &&& (t.ephemeral_kp is None || t.ephemeral_kp == s.ephemeral_kp)
        &&& own_epk(t) == own_epk(s)
    }
    pub open spec fn all_unpackable(k: Seq<Seq<u8>>) -> bool {
        forall|i: int| 0 <= i < k.len() ==> unpackable(raw(frame_of(#[trigger] k[i])))
    }
    pub open spec fn bin_c14(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        let e = early(s, t);
        let keep_ack = f is Some && ack_answers(s, f->0) && peer(s) is None && early_ack(s) is None;
        let keep_user = f is Some && fresh(s, f->0) && keeps_user(s.status);
        let connect = f is Some && takes_connect(s, f->0) && unpackable(raw(f->0));
        &&& (keep_ack ==> ok && v.len() == 0 && early_ack(t) == Some(d) && t.status == s.status)
        &&& (keep_user ==> ok && v.len() == 0 && kept(t) =~= kept(s).push(f->0.data) && t.status == s.status)
        &&& (ok && v.len() == 0 ==> keep_ack || keep_user)
        &&& (!has_connect(v) && ok && !keep_ack ==> early_ack(t) == early_ack(s))
        &&& (with_early(v) ==> early_ack(t) is None)
        &&& (connect && early_ack(s) is Some && e is Some && ack_answers(s, e->0) && sig_ok(f->0.hdr->pk, e->0) && cc(s.status) && !pa(s.status)
                && unpackable(raw(e->0)) ==> ok && with_early(v) && carries(raw(f->0), bin_data(v[0])) && carries(raw(e->0), bin_data(v[1])))
        &&& (connect && (e is Some ==> unpackable(raw(e->0))) ==> ok && has_connect(v))
        &&& (has_connect(v) || has_user(v) ==> kept(t) == kept(s))
    }
    /// the early messages are delivered along with the ACK that completes the negotiation
    pub open spec fn bin_drained(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        &&& (f is Some && takes_ack(s, f->0) && unpackable(raw(f->0)) && oa(s.status) && deliverable(s) && all_unpackable(kept(s)) ==>
                ok && has_ack(v) && v.len() == 1 + kept(s).len() && kept(t).len() == 0 && carries(raw(f->0), bin_data(v[0]))
                && forall|i: int| 1 <= i < v.len() ==> v[i] is Message && carries(raw(kf(s, i - 1)), bin_data(#[trigger] v[i])))
        &&& (has_ack(v) && !success(t.status) ==> v.len() == 1 && kept(t) =~= kept(s))
    }
    pub open spec fn bin_c15(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        !ok && !(f is Some && (takes_connect(s, f->0) || takes_ack(s, f->0) || takes_user(s, f->0))) ==> {
            &&& peer(t) == peer(s) && key(t) == key(s) && t.next_nonce_sent == s.next_nonce_sent
            &&& recv(t) =~= recv(s)
            &&& kept(t) == kept(s) && early_ack(t) == early_ack(s)
            &&& (t.status == s.status || failed(t.status))
            &&& (!failed(t.status) ==> t.ephemeral_kp == s.ephemeral_kp && peer_epk(t) == peer_epk(s) && own_epk(t) == own_epk(s)
                    && orphans(t) == orphans(s) && t.config == s.config && t.cloned == s.cloned)
        }
    }
    pub open spec fn bin_c16(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool) -> bool {
        let f = rd(key(s), d, true);
        let e = early(s, t);
        &&& (v.len() > 0 ==> f is Some && carries(raw(f->0), bin_data(v[0])))
        &&& (has_connect(v) ==> f->0.hdr is Connect && v[0]->peer_sig_public_key@ == f->0.hdr->pk)
        &&& (has_ack(v) ==> f->0.hdr is Ack)
        &&& (has_user(v) ==> f->0.hdr is User)
        &&& (with_early(v) ==> e is Some && e->0.hdr is Ack && carries(raw(e->0), bin_data(v[1])))
        &&& (has_ack(v) && v.len() > 1 ==> v.len() - 1 == kept(s).len() && forall|i: int| 1 <= i < v.len() ==>
                v[i] is Message && carries(raw(kf(s, i - 1)), bin_data(#[trigger] v[i])))
    }
    /// a message followed by its signature
    pub open spec fn signed(k: crate::ring::signature::Ed25519KeyPair, msg: Seq<u8>) -> Seq<u8> { msg + ed25519_sign(k.seed(), msg) }
    pub open spec fn kpk(k: crate::ring::signature::Ed25519KeyPair) -> Seq<u8> { ed25519_pk(k.seed()) }

    pub open spec fn oslice(x: Option<&[u8]>) -> Option<Seq<u8>> { match x { Some(b) => Some(b@), None => None } }
    // ---------------------------------------------------------------- typed mode
    pub open spec fn fcode(f: MessageFormat) -> int {
        match f {
            MessageFormat::RawBinary => 0,
            MessageFormat::Utf8PlainText => 1,
            MessageFormat::Utf8Json => 2,
            MessageFormat::Cbor => 3,
            MessageFormat::Bincode => 4,
        }
    }
    pub open spec fn code4(c: int) -> Seq<u8> { seq![0u8, 0u8, 0u8, c as u8] }
    pub open spec fn typed_format(f: MessageFormat) -> bool { fcode(f) >= 2 }
    /// the payload that stands for a value in a format
    pub open spec fn ser<M>(f: MessageFormat, x: M) -> Option<Seq<u8>> {
        if !typed_format(f) { None } else { match enc(fcode(f), x) { Some(b) => Some(code4(fcode(f)) + b), None => None } }
    }
    /// the format a code names
    pub open spec fn fdecode(b: Seq<u8>) -> Option<MessageFormat> {
        if b.len() != 4 || b[0] != 0 || b[1] != 0 || b[2] != 0 { None }
        else if b[3] == 0 { Some(MessageFormat::RawBinary) }
        else if b[3] == 1 { Some(MessageFormat::Utf8PlainText) }
        else if b[3] == 2 { Some(MessageFormat::Utf8Json) }
        else if b[3] == 3 { Some(MessageFormat::Cbor) }
        else if b[3] == 4 { Some(MessageFormat::Bincode) }
        else { None }
    }
    pub open spec fn deser_in<M>(f: MessageFormat, b: Seq<u8>) -> Option<M> {
        if typed_format(f) { dec(fcode(f), b) } else { None }
    }
    pub open spec fn deser<M>(b: Seq<u8>) -> Option<M> {
        if b.len() < 4 { None }
        else {
            match fdecode(b.subrange(0, 4)) {
                None => None,
                Some(f) => deser_in(f, b.subrange(4, b.len() as int)),
            }
        }
    }
    pub open spec fn oser<M>(c: SecureLayerConfig, x: Option<&M>) -> Option<Seq<u8>> { match x { None => None, Some(y) => ser(c.message_format, *y) } }
    pub open spec fn packs_typed<M>(p: Seq<u8>, f: MessageFormat, x: Option<&M>) -> bool {
        match x { None => p.len() == 0, Some(y) => ser(f, *y) is Some && packs(p, ser(f, *y)) }
    }
    pub open spec fn typed_item<M: crate::serde::de::DeserializeOwned>(b: IBM, x: IncomingMessage<M>) -> bool {
        match (b, x) {
            (IncomingBinaryMessage::Connect { custom_data: c, peer_sig_public_key: k }, IncomingMessage::Connect { custom_data: y, peer_sig_public_key: l })
                => k == l && typed_data(oview(c), y),
            (IncomingBinaryMessage::Ack { custom_data: c }, IncomingMessage::Ack { custom_data: y }) => typed_data(oview(c), y),
            (IncomingBinaryMessage::Message { data: c }, IncomingMessage::Message { data: y }) => typed_data(oview(c), y),
            _ => false,
        }
    }
    pub open spec fn typed_data<M>(c: Option<Seq<u8>>, y: Option<M>) -> bool {
        match c { None => y is None, Some(b) => y is Some && y == deser::<M>(b) }
    }
    pub open spec fn typed_ok<M: crate::serde::de::DeserializeOwned>(b: IBM) -> bool { bin_data(b) is Some ==> deser::<M>(bin_data(b)->0) is Some }
    /// what typed reading returns where binary reading would return v
    pub open spec fn typed_res<M: crate::serde::de::DeserializeOwned>(v: Seq<IBM>, ok: bool, r: Result<Vec<IncomingMessage<M>>, Error>) -> bool {
        match r {
            Ok(x) => ok && typed_all(v, x@),
            Err(_) => !ok || exists|i: int| 0 <= i < v.len() && !typed_ok::<M>(#[trigger] v[i]),
        }
    }
    pub open spec fn typed_all<M: crate::serde::de::DeserializeOwned>(v: Seq<IBM>, x: Seq<IncomingMessage<M>>) -> bool {
        v.len() == x.len() && forall|i: int| 0 <= i < v.len() ==> typed_item(v[i], #[trigger] x[i])
    }

    // ================================================================ lemmas
    pub broadcast proof fn code_of_decoded(b: Seq<u8>)
        ensures #![trigger fdecode(b)] fdecode(b) is Some ==> b == code4(fcode(fdecode(b)->0))
    {
        if fdecode(b) is Some { assert(b =~= code4(fcode(fdecode(b)->0))); }
    }
    pub broadcast proof fn decoded_code(f: MessageFormat)
        ensures #![trigger code4(fcode(f))] fdecode(code4(fcode(f))) == Some(f)
    { }
    pub broadcast proof fn received_grows(r: ISet<u64>, k: Seq<Seq<u8>>, n: int, x: u64)
        requires r.contains(x)
        ensures #[trigger] received_after(r, k, n).contains(x)
        decreases n
    {
        if n > 0 { received_grows(r, k, n - 1, x); }
    }
    pub broadcast axiom fn slice_max(s: &[u8])
        ensures #![trigger s@] s@.len() <= 0x7fff_ffff_ffff;
    pub broadcast axiom fn vec_max(s: Vec<u8>)
        ensures #![trigger s@] s@.len() <= 0x7fff_ffff_ffff;

    pub broadcast proof fn partly_more(b: Seq<u8>, a: Seq<u8>, w: Seq<u8>, x: Seq<u8>)
        requires io::partly(b, a, w)
        ensures #![trigger io::partly(b, a, w), w + x] io::partly(b, a, w + x)
    {
        let k = choose|k: int| 0 <= k <= w.len() && a == b + #[trigger] w.subrange(0, k);
        assert((w + x).subrange(0, k) =~= w.subrange(0, k));
    }
    pub broadcast proof fn partly_later(b: Seq<u8>, a: Seq<u8>, w: Seq<u8>, x: Seq<u8>)
        requires io::partly(b + w, a, x)
        ensures #![trigger io::partly(b + w, a, x)] io::partly(b, a, w + x)
    {
        let k = choose|k: int| 0 <= k <= x.len() && a == b + w + #[trigger] x.subrange(0, k);
        assert((w + x).subrange(0, w.len() + k) =~= w + x.subrange(0, k));
        assert(a =~= b + (w + x).subrange(0, w.len() + k));
    }
    pub broadcast proof fn partly_none(b: Seq<u8>, w: Seq<u8>)
        ensures #[trigger] io::partly(b, b, w)
    {
        assert(b =~= b + w.subrange(0, 0));
    }
    pub broadcast proof fn kept_at(s: MSL, i: int)
        requires 0 <= i < s.tmp_stack_user_msgs@.len()
        ensures #![trigger s.tmp_stack_user_msgs@[i]] kept(s)[i] == s.tmp_stack_user_msgs@[i]@ && kept(s).len() == s.tmp_stack_user_msgs@.len()
    { }
    pub broadcast proof fn partly_all(b: Seq<u8>, w: Seq<u8>)
        ensures #[trigger] io::partly(b, b + w, w)
    {
        assert(w.subrange(0, w.len() as int) =~= w);
    }
    pub broadcast group group_all { code_of_decoded, received_grows, kept_at, partly_all, partly_more, partly_later, partly_none, crate::xstd::group_x, crate::xstd::below_u64, slice_max, vec_max }
}
