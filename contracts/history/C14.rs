// C14 over whole histories: what was kept is still there, in order of arrival, when it is asked for
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    /// one call: the kept user messages before and after, and the kept ACK
    pub struct Call { pub before: Seq<Seq<u8>>, pub after: Seq<Seq<u8>>, pub ack_before: Option<Seq<u8>>, pub ack_after: Option<Seq<u8>> }
    /// a call that delivers no kept message
    pub open spec fn keeps(x: Call) -> bool {
        &&& x.before.len() <= x.after.len() && x.after.subrange(0, x.before.len() as int) =~= x.before
        &&& (x.ack_before is Some ==> x.ack_after == x.ack_before)
    }
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& forall|i: int| 0 <= i < h.len() ==> keeps(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after && h[i].ack_before == h[i - 1].ack_after
    }
    /// C14: until they are delivered none is lost and their order stays
    pub proof fn none_lost(h: Seq<Call>, i: int, j: int)
        requires history(h), 0 <= i <= j < h.len()
        ensures
            h[i].after.len() <= h[j].after.len(), h[j].after.subrange(0, h[i].after.len() as int) =~= h[i].after,
            h[i].ack_after is Some ==> h[j].ack_after == h[i].ack_after,
        decreases j - i
    {
        if i < j {
            none_lost(h, i, j - 1);
            assert(keeps(h[j]));
            let (a, b, c) = (h[i].after, h[j].before, h[j].after);
            assert(h[j].before == h[j - 1].after);
            assert forall|k: int| 0 <= k < a.len() implies #[trigger] c[k] == a[k] by {
                assert(c.subrange(0, b.len() as int)[k] == b[k]);
                assert(b.subrange(0, a.len() as int)[k] == a[k]);
            }
        }
    }
    pub open spec fn call(s: MSL, t: MSL) -> Call { Call { before: kept(s), after: kept(t), ack_before: early_ack(s), ack_after: early_ack(t) } }
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c14(s, t, d, true, r)
        ensures keeps(call(s, t))
    { }
    pub proof fn other_is_call(s: MSL, t: MSL)
        requires q_c14(s, t)
        ensures keeps(call(s, t))
    { }
    /// C14: kept messages that are genuine (their hashes right, their numbers different) can all be delivered
    pub proof fn genuine_is_deliverable(s: MSL)
        requires
            lowest(s) == 0, orphans(s) =~= Set::<u64>::empty(), kept(s).len() <= max_window(),
            forall|i: int| 0 <= i < kept(s).len() ==> hash_ok(frame_of(#[trigger] kept(s)[i])),
            forall|i: int, j: int| 0 <= i < j < kept(s).len() ==> user_nonce(#[trigger] kept(s)[i]) != user_nonce(#[trigger] kept(s)[j]),
        ensures deliverable(s)
    {
        assert forall|i: int| 0 <= i < kept(s).len() implies hash_ok(frame_of(#[trigger] kept(s)[i])) && is_new(recv(s), kept(s), i) by {
            not_before(s, i, i);
        }
    }
    proof fn not_before(s: MSL, i: int, n: int)
        requires
            lowest(s) == 0, orphans(s) =~= Set::<u64>::empty(), 0 <= n <= i < kept(s).len(),
            forall|i: int, j: int| 0 <= i < j < kept(s).len() ==> user_nonce(#[trigger] kept(s)[i]) != user_nonce(#[trigger] kept(s)[j]),
        ensures !received_after(recv(s), kept(s), n).contains(user_nonce(kept(s)[i]))
        decreases n
    {
        if n > 0 { not_before(s, i, n - 1); }
    }
}
