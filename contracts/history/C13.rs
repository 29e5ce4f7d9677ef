// C13 over whole histories, and on both sides
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;

    /// C13: both sides of a session hold the same key
    pub proof fn same_key_on_both_sides(a: Seq<u8>, b: Seq<u8>)
        ensures session_key(a, base(a), base(b)) == session_key(b, base(b), base(a))
    {
        crate::ring::agreement::dh_symmetric(a, b);
        crate::xstd::lex_total(base(a), base(b));
        assert(larger(base(a), base(b)) == larger(base(b), base(a)));
    }
    /// the two layers of one session, each with its own key pair and the other's public key
    pub proof fn layers_agree(s: MSL, f: PFrame, t: MSL, g: PFrame)
        requires s.ephemeral_kp is Some, t.ephemeral_kp is Some, inv_kp(s), inv_kp(t), f.hdr->epk == own_epk(t), g.hdr->epk == own_epk(s)
        ensures new_key(s, f) == new_key(t, g)
    {
        same_key_on_both_sides(s.ephemeral_kp->0.privkey.sk(), t.ephemeral_kp->0.privkey.sk());
    }

    /// the key and the private key along a history
    pub struct Call { pub before: Option<K>, pub after: Option<K>, pub sk_before: bool, pub sk_after: bool }
    pub open spec fn sound(x: Call) -> bool {
        &&& (x.after != x.before ==> x.before is None && x.after is Some && !x.sk_after)
        &&& (x.sk_after ==> x.sk_before)
    }
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& forall|i: int| 0 <= i < h.len() ==> sound(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after && h[i].sk_before == h[i - 1].sk_after
    }
    /// C13: once computed, the key never changes
    pub proof fn never_changes(h: Seq<Call>, i: int, j: int)
        requires history(h), 0 <= i <= j < h.len(), h[i].after is Some
        ensures h[j].after == h[i].after
        decreases j - i
    {
        if i < j {
            never_changes(h, i, j - 1);
            assert(h[j].before == h[j - 1].after);
            assert(sound(h[j]));
        }
    }
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c13(s, t, d, true, r)
        ensures sound(Call { before: key(s), after: key(t), sk_before: s.ephemeral_kp is Some, sk_after: t.ephemeral_kp is Some })
    { }
    pub proof fn early_ack_is_call(s: MSL, t: MSL, r: R)
        requires early_ack(s) is Some, read_c13(no_early_ack(s), t, early_ack(s)->0, true, r)
        ensures sound(Call { before: key(s), after: key(t), sk_before: s.ephemeral_kp is Some, sk_after: t.ephemeral_kp is Some })
    { }
    pub proof fn bin_is_call(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool)
        requires bin_c13(s, t, d, v, ok)
        ensures sound(Call { before: key(s), after: key(t), sk_before: s.ephemeral_kp is Some, sk_after: t.ephemeral_kp is Some })
    { }
    pub proof fn other_is_call(s: MSL, t: MSL)
        requires q_c13(s, t) || q_c13r(s, t)
        ensures sound(Call { before: key(s), after: key(t), sk_before: s.ephemeral_kp is Some, sk_after: t.ephemeral_kp is Some })
    { }
}
