// C12: what one layer writes, another one reads
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::xstd::*;
    use crate::chacha20_poly1305_aead::{aead_ct, aead_tag, aead_open};

    proof fn be8_len(n: u64) ensures be8(n).len() == 8 { }
    /// a frame followed by its signature or hash is read back as what it was made of
    pub proof fn parse_frame(th: Seq<u8>, p: Seq<u8>, tr: Seq<u8>)
        requires th.len() >= 2, hdr_len(th) == th.len(), th.len() + p.len() < 0x8000_0000_0000_0000
        ensures ({
            let d = frame(th, p) + tr;
            &&& parse(d) is Some && parse(d)->0.data == d
            &&& payload(parse(d)->0) =~= p && covered(parse(d)->0) =~= frame(th, p) && trailer(parse(d)->0) =~= tr
            &&& parse(d)->0.hdr == hdr_of(th)
            &&& clear(d)
        })
    {
        let n = (th.len() + p.len()) as u64;
        let d = frame(th, p) + tr;
        be8_len(n);
        assert(magic().len() == 4 && version().len() == 4);
        assert(d.subrange(0, 4) =~= magic());
        assert(d.subrange(4, 8) =~= version());
        assert(d.subrange(8, 16) =~= be8(n));
        un8_be8(n);
        let a = after16(d);
        assert(a =~= th + p + tr);
        assert(hdr_type(a) =~= hdr_type(th));
        if hdr_type(th) == ty_user() {
            assert(a.subrange(2, 10) =~= th.subrange(2, 10));
        } else if hdr_type(th) == ty_connect() {
            assert(a.subrange(2, 34) =~= th.subrange(2, 34));
            assert(a.subrange(34, 38) =~= th.subrange(34, 38));
            assert(a.subrange(38, 70) =~= th.subrange(38, 70));
        } else {
            assert(a.subrange(2, 34) =~= th.subrange(2, 34));
        }
        assert(hdr_len(a) == th.len());
        assert(hdr_of(a) == hdr_of(th));
        assert(un8(d.subrange(8, 16)) == n);
    }
    /// C12: a CONNECT created by one layer and followed by a valid signature is accepted wherever the negotiation permits it
    pub proof fn connect_is_read(epk_a: Seq<u8>, pk: Seq<u8>, p: Seq<u8>, sig: Seq<u8>, s: MSL, t: MSL, r: R)
        requires
            epk_a.len() == 32, pk.len() == 32, p.len() < 0x7fff_ffff_0000_0000,
            ed25519_valid(pk, connect_msg(epk_a, pk, p), sig),
            peer(s) is Some ==> peer(s)->0 == pk,
            may_receive(s.status, crate::MsgType::Connect),
            s.ephemeral_kp is Some, session_key(s.ephemeral_kp->0.privkey.sk(), epk(s.ephemeral_kp->0.pubkey), epk_a) is Some,
            read_c12(s, t, connect_msg(epk_a, pk, p) + sig, true, r),
        ensures got_connect(r), got_pk(r) == pk, got_payload(r) == opt(p)
    {
        let th = connect_th(epk_a, ed25519_code(), pk);
        assert(hdr_type(th) =~= ty_connect());
        assert(th.subrange(2, 34) =~= epk_a);
        assert(th.subrange(34, 38) =~= ed25519_code());
        assert(th.subrange(38, 70) =~= pk);
        assert(ty_connect() != ty_user()) by { assert(ty_connect()[1] != ty_user()[1]); }
        parse_frame(th, p, sig);
    }
    /// C12: likewise an ACK
    pub proof fn ack_is_read(pk: Seq<u8>, p: Seq<u8>, sig: Seq<u8>, s: MSL, t: MSL, r: R)
        requires
            p.len() < 0x7fff_ffff_0000_0000, peer(s) == Some(pk),
            ed25519_valid(pk, ack_msg(own_epk(s), p), sig),
            may_receive(s.status, crate::MsgType::Ack),
            read_c12(s, t, ack_msg(own_epk(s), p) + sig, true, r),
        ensures got_ack(r), got_payload(r) == opt(p)
    {
        let th = ack_th(own_epk(s));
        crate::ring::digest::sha256_len(own_epk(s));
        assert(hdr_type(th) =~= ty_ack());
        assert(th.subrange(2, 34) =~= sha(own_epk(s)));
        assert(ty_ack() != ty_user()) by { assert(ty_ack()[1] != ty_user()[1]); }
        assert(ty_ack() != ty_connect()) by { assert(ty_ack()[1] != ty_connect()[1]); }
        parse_frame(th, p, sig);
    }
    /// C12: likewise a user message, under the common key (unless its ciphertext happens to begin with the magic number)
    pub proof fn user_is_read(k: K, n: u64, p: Seq<u8>, s: MSL, t: MSL, r: R)
        requires
            p.len() < 0x7fff_ffff_0000_0000, key(s) == Some(k), success(s.status),
            !received(s, n), !is_kept(s, user_plain(n, p)), n == lowest(s) || orphans(s).len() < max_window(),
            !clear(seal(k, user_plain(n, p))),
            read_c12(s, t, seal(k, user_plain(n, p)), true, r),
        ensures got_user(r), got_payload(r) == opt(p)
    {
        let th = user_th(n);
        let pt = user_plain(n, p);
        let d = seal(k, pt);
        be8_len(n);
        assert(hdr_type(th) =~= ty_user());
        assert(th.subrange(2, 10) =~= be8(n));
        un8_be8(n);
        parse_frame(th, p, sha(user_frame(n, p)));
        crate::chacha20_poly1305_aead::aead_len(k.key, k.nonce, k.aad, pt);
        crate::chacha20_poly1305_aead::aead_inverse(k.key, k.nonce, k.aad, pt);
        assert(d.subrange(0, d.len() - 16) =~= aead_ct(k.key, k.nonce, k.aad, pt));
        assert(d.subrange(d.len() - 16, d.len() as int) =~= aead_tag(k.key, k.nonce, k.aad, pt));
        assert(unseal(k, d) == Some(pt));
    }
}
