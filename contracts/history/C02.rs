// C02 over whole histories
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    /// one call: the peer's key before and after
    pub struct Call { pub before: Option<Seq<u8>>, pub after: Option<Seq<u8>> }
    pub open spec fn sound(x: Call) -> bool { x.before is Some ==> x.after == x.before }
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& forall|i: int| 0 <= i < h.len() ==> sound(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after
    }
    /// C02: the peer's key, expected or taken from the accepted CONNECT, never changes again
    pub proof fn pinned_for_ever(h: Seq<Call>, i: int, j: int)
        requires history(h), 0 <= i <= j < h.len(), h[i].before is Some
        ensures h[j].after == h[i].before
        decreases j - i
    {
        assert(sound(h[j]));
        if i < j { pinned_for_ever(h, i, j - 1); assert(h[j].before == h[j - 1].after); }
    }
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c02(s, t, d, true, r)
        ensures sound(Call { before: peer(s), after: peer(t) })
    { }
    pub proof fn early_ack_is_call(s: MSL, t: MSL, r: R)
        requires early_ack(s) is Some, read_c02(no_early_ack(s), t, early_ack(s)->0, true, r)
        ensures sound(Call { before: peer(s), after: peer(t) })
    { }
    pub proof fn bin_is_call(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool)
        requires bin_c02(s, t, d, v, ok)
        ensures sound(Call { before: peer(s), after: peer(t) })
    { }
    pub proof fn other_is_call(s: MSL, t: MSL)
        requires q_c02(s, t)
        ensures sound(Call { before: peer(s), after: peer(t) })
    { }
}
