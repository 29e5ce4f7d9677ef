// C04 over whole histories: from the contracts of the single calls
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::MsgType;
    pub type St = crate::status::SecureLayerStatus;

    /// one call: the status before and after, which of the four events it was, and whether it delivered or wrote user messages
    pub struct Call { pub before: St, pub after: St, pub c: bool, pub p: bool, pub o: bool, pub a: bool, pub user: bool }
    pub open spec fn sound(x: Call) -> bool {
        &&& st_ok(x.after)
        &&& (failed(x.before) ==> failed(x.after) && !x.c && !x.p && !x.o && !x.a && !x.user)
        &&& (!failed(x.after) ==> !failed(x.before) && events(x.after, cc(x.before) || x.c, pc(x.before) || x.p, oa(x.before) || x.o, pa(x.before) || x.a))
        &&& (x.c ==> !cc(x.before)) && (x.p ==> !pc(x.before)) && (x.o ==> !oa(x.before) && pc(x.before)) && (x.a ==> !pa(x.before) && cc(x.before))
        &&& (x.c || x.p || x.o || x.a ==> !success(x.before))
        &&& (x.user ==> success(x.after) || success(x.before))
    }
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& h.len() > 0 ==> ongoing(h[0].before) && events(h[0].before, false, false, false, false)
        &&& forall|i: int| 0 <= i < h.len() ==> sound(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after
    }
    pub open spec fn did(x: Call, w: int) -> int {
        if w == 0 && x.c || w == 1 && x.p || w == 2 && x.o || w == 3 && x.a { 1 } else { 0 }
    }
    /// how often event w happened in the first n calls
    pub open spec fn times(h: Seq<Call>, w: int, n: int) -> int decreases n {
        if n <= 0 { 0 } else { times(h, w, n - 1) + did(h[n - 1], w) }
    }
    pub open spec fn has(s: St, w: int) -> bool {
        if w == 0 { cc(s) } else if w == 1 { pc(s) } else if w == 2 { oa(s) } else { pa(s) }
    }
    pub open spec fn at(h: Seq<Call>, n: int) -> St { if n < h.len() { h[n].before } else { h[n - 1].after } }
    pub proof fn counted(h: Seq<Call>, w: int, n: int)
        requires history(h), 0 <= w < 4, 0 <= n <= h.len(), h.len() > 0
        ensures 0 <= times(h, w, n) <= 1, !failed(at(h, n)) ==> times(h, w, n) == (if has(at(h, n), w) { 1int } else { 0int })
        decreases n
    {
        if n > 0 {
            counted(h, w, n - 1);
            assert(sound(h[n - 1]));
            assert(at(h, n) == h[n - 1].after) by { if n < h.len() { assert(h[n].before == h[n - 1].after); } }
            assert(at(h, n - 1) == h[n - 1].before);
        }
    }
    /// C04: each event happens at most once; the negotiation is successful exactly when all four have happened (and the
    /// layer has not failed)
    pub proof fn exactly_four(h: Seq<Call>, n: int)
        requires history(h), 0 <= n <= h.len(), h.len() > 0
        ensures
            forall|w: int| 0 <= w < 4 ==> 0 <= #[trigger] times(h, w, n) <= 1,
            success(at(h, n)) ==> forall|w: int| 0 <= w < 4 ==> #[trigger] times(h, w, n) == 1,
            !failed(at(h, n)) && (forall|w: int| 0 <= w < 4 ==> #[trigger] times(h, w, n) == 1) ==> success(at(h, n)),
    {
        assert forall|w: int| 0 <= w < 4 implies 0 <= #[trigger] times(h, w, n) <= 1 && (success(at(h, n)) ==> times(h, w, n) == 1) by { counted(h, w, n); }
        counted(h, 0, n); counted(h, 1, n); counted(h, 2, n); counted(h, 3, n);
        if n > 0 { assert(sound(h[n - 1])); if n < h.len() { assert(h[n].before == h[n - 1].after); } }
        if !failed(at(h, n)) && (forall|w: int| 0 <= w < 4 ==> #[trigger] times(h, w, n) == 1) {
            assert(times(h, 0, n) == 1 && times(h, 1, n) == 1 && times(h, 2, n) == 1 && times(h, 3, n) == 1);
        }
    }
    /// C04: the own ACK after the peer's CONNECT, the peer's ACK after the own CONNECT; nothing of the negotiation after
    /// success; user messages only with or after the last event
    pub proof fn in_order(h: Seq<Call>, n: int)
        requires history(h), 0 <= n < h.len()
        ensures
            h[n].o ==> times(h, 1, n) == 1,
            h[n].a ==> times(h, 0, n) == 1,
            success(h[n].before) ==> !h[n].c && !h[n].p && !h[n].o && !h[n].a,
            h[n].user ==> times(h, 0, n + 1) == 1 && times(h, 1, n + 1) == 1 && times(h, 2, n + 1) == 1 && times(h, 3, n + 1) == 1,
    {
        assert(sound(h[n]));
        counted(h, 0, n); counted(h, 1, n); counted(h, 2, n); counted(h, 3, n);
        counted(h, 0, n + 1); counted(h, 1, n + 1); counted(h, 2, n + 1); counted(h, 3, n + 1);
        if n + 1 < h.len() { assert(h[n + 1].before == h[n].after); }
    }

    // -------- every operation is such a call
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c04(s, t, d, true, r), st_ok(s.status)
        ensures sound(Call { before: s.status, after: t.status, c: false, p: got_connect(r), o: false, a: got_ack(r), user: got_user(r) })
    { }
    pub proof fn early_ack_is_call(s: MSL, t: MSL, r: R)
        requires early_ack(s) is Some, read_c04(no_early_ack(s), t, early_ack(s)->0, true, r), st_ok(s.status)
        ensures sound(Call { before: s.status, after: t.status, c: false, p: got_connect(r), o: false, a: got_ack(r), user: got_user(r) })
    { }
    pub proof fn drain_is_call(s: MSL, t: MSL, r: DR)
        requires r is Ok && r->Ok_0@.len() > 0 ==> success(s.status), t.status == s.status || failed(t.status), st_ok(s.status)
        ensures sound(Call { before: s.status, after: t.status, c: false, p: false, o: false, a: false, user: r is Ok && r->Ok_0@.len() > 0 })
    { }
    pub open spec fn connect_made(s: MSL, t: MSL) -> bool { may_create(s.status, MsgType::Connect) && events(t.status, true, pc(s.status), oa(s.status), pa(s.status)) }
    pub open spec fn ack_made(s: MSL, t: MSL) -> bool { may_create(s.status, MsgType::Ack) && events(t.status, cc(s.status), pc(s.status), true, pa(s.status)) }
    pub proof fn connect_is_call(s: MSL, t: MSL)
        requires t.status == s.status || failed(t.status) || connect_made(s, t), st_ok(s.status), st_ok(t.status)
        ensures sound(Call { before: s.status, after: t.status, c: connect_made(s, t), p: false, o: false, a: false, user: false })
    { }
    pub proof fn ack_is_call(s: MSL, t: MSL)
        requires t.status == s.status || failed(t.status) || ack_made(s, t), st_ok(s.status), st_ok(t.status)
        ensures sound(Call { before: s.status, after: t.status, c: false, p: false, o: ack_made(s, t), a: false, user: false })
    { }
    pub proof fn write_is_call(s: MSL, t: MSL, ok: bool)
        requires !success(s.status) ==> !ok, t.status == s.status || failed(t.status), st_ok(s.status)
        ensures sound(Call { before: s.status, after: t.status, c: false, p: false, o: false, a: false, user: ok })
    { }
    pub proof fn bin_is_call(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool)
        requires bin_c04(s, t, d, v, ok), bin_shape(s, v), st_ok(s.status), failed(s.status) ==> failed(t.status) && v.len() == 0
        ensures sound(Call { before: s.status, after: t.status, c: false, p: has_connect(v) || !failed(t.status) && pc(t.status) && !pc(s.status), o: false,
            a: has_ack(v) || with_early(v) || !failed(t.status) && pa(t.status) && !pa(s.status), user: has_user(v) || has_ack(v) && v.len() > 1 })
    { }
}
