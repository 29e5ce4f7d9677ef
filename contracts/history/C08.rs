// C08 over whole histories: from the contracts of the single calls
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;

    /// one call: the numbers received before and after, and the numbers of the messages it delivered
    pub struct Call { pub before: ISet<u64>, pub after: ISet<u64>, pub out: Seq<u64> }
    pub open spec fn sound(x: Call) -> bool {
        &&& forall|k: u64| x.before.contains(k) ==> #[trigger] x.after.contains(k)
        &&& forall|i: int| 0 <= i < x.out.len() ==> !x.before.contains(#[trigger] x.out[i]) && x.after.contains(x.out[i])
        &&& forall|i: int, j: int| 0 <= i < j < x.out.len() ==> #[trigger] x.out[i] != #[trigger] x.out[j]
    }
    /// every call begins with the numbers the call before it ended with
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& forall|i: int| 0 <= i < h.len() ==> sound(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before =~= h[i - 1].after
    }
    pub proof fn never_forgotten(h: Seq<Call>, i: int, j: int, k: u64)
        requires history(h), 0 <= i < j < h.len(), h[i].after.contains(k)
        ensures h[j].before.contains(k)
        decreases j - i
    {
        if i + 1 < j {
            never_forgotten(h, i, j - 1, k);
            assert(sound(h[j - 1]));
            assert(h[j - 1].after.contains(k));
        }
        assert(h[j].before =~= h[j - 1].after);
    }
    /// C08: no number is delivered twice
    pub proof fn at_most_once(h: Seq<Call>, i: int, a: int, j: int, b: int)
        requires history(h), 0 <= i < h.len(), 0 <= j < h.len(), 0 <= a < h[i].out.len(), 0 <= b < h[j].out.len(), i != j || a != b
        ensures h[i].out[a] != h[j].out[b]
    {
        assert(sound(h[i]) && sound(h[j]));
        if i < j { never_forgotten(h, i, j, h[i].out[a]); }
        if j < i { never_forgotten(h, j, i, h[j].out[b]); }
        if i == j && b < a { assert(h[i].out[b] != h[i].out[a]); }
    }

    // -------- every operation is such a call
    pub open spec fn of_read(s: MSL, t: MSL, d: Seq<u8>, r: R) -> Call {
        Call { before: recv(s), after: recv(t), out: if got_user(r) { seq![rd(key(s), d, true)->0.hdr->nonce] } else { seq![] } }
    }
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c08(s, t, d, true, r)
        ensures sound(of_read(s, t, d, r))
    {
        if got_user(r) { assert(recv(t) =~= recv(s).insert(rd(key(s), d, true)->0.hdr->nonce)); }
    }
    /// delivery of the kept ACK: as if it were read now
    pub proof fn early_ack_is_call(s: MSL, t: MSL, r: R)
        requires early_ack(s) is Some, read_c08(no_early_ack(s), t, early_ack(s)->0, true, r)
        ensures sound(of_read(no_early_ack(s), t, early_ack(s)->0, r)), of_read(no_early_ack(s), t, early_ack(s)->0, r).before == recv(s)
    {
        read_is_call(no_early_ack(s), t, early_ack(s)->0, r);
        assert(recv(no_early_ack(s)) =~= recv(s));
    }
    /// every operation that leaves the window alone
    pub proof fn quiet_is_call(s: MSL, t: MSL)
        requires q_c08(s, t)
        ensures sound(Call { before: recv(s), after: recv(t), out: seq![] })
    { }
    proof fn numbers(r: ISet<u64>, k: Seq<Seq<u8>>, i: int, j: int)
        requires 0 <= i < j <= k.len()
        ensures received_after(r, k, j).contains(user_nonce(k[i]))
        decreases j
    {
        if i < j - 1 { numbers(r, k, i, j - 1); }
    }
    pub open spec fn kept_numbers(s: MSL, n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| user_nonce(kept(s)[i])) }
    proof fn kept_sound(s: MSL, n: int)
        requires 0 <= n <= kept(s).len(), forall|i: int| 0 <= i < n ==> #[trigger] is_new(recv(s), kept(s), i)
        ensures sound(Call { before: recv(s), after: recv_after(s, n), out: kept_numbers(s, n) })
    {
        let o = kept_numbers(s, n);
        assert forall|k: u64| recv(s).contains(k) implies #[trigger] recv_after(s, n).contains(k) by { received_grows(recv(s), kept(s), n, k); }
        assert forall|i: int| 0 <= i < o.len() implies !recv(s).contains(#[trigger] o[i]) && recv_after(s, n).contains(o[i]) by {
            assert(is_new(recv(s), kept(s), i));
            if recv(s).contains(o[i]) { received_grows(recv(s), kept(s), i, o[i]); }
            numbers(recv(s), kept(s), i, n);
        }
        assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by {
            numbers(recv(s), kept(s), i, j);
            assert(is_new(recv(s), kept(s), j));
        }
    }
    /// delivery of the kept user messages
    pub proof fn drain_is_call(s: MSL, t: MSL, r: DR)
        requires drain_c08(s, t, r)
        ensures sound(Call { before: recv(s), after: recv(t), out: if r is Ok { kept_numbers(s, r->Ok_0@.len() as int) } else { seq![] } })
    {
        if r is Ok && r->Ok_0@.len() > 0 {
            kept_sound(s, r->Ok_0@.len() as int);
            assert(recv(t) =~= recv_after(s, r->Ok_0@.len() as int));
        } else {
            let n = choose|n: int| recv(t) =~= #[trigger] recv_after(s, n);
            assert forall|k: u64| recv(s).contains(k) implies #[trigger] recv(t).contains(k) by { received_grows(recv(s), kept(s), n, k); }
        }
    }
    /// one call of complete mode, with everything it delivers
    pub open spec fn of_bin(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>) -> Call {
        Call { before: recv(s), after: recv(t), out:
            if has_user(v) { seq![rd(key(s), d, true)->0.hdr->nonce] }
            else if has_ack(v) && v.len() > 1 { kept_numbers(s, v.len() - 1) }
            else { seq![] } }
    }
    pub proof fn bin_is_call(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool)
        requires bin_c08(s, t, d, v, ok), bin_shape(s, v)
        ensures sound(of_bin(s, t, d, v))
    {
        if has_user(v) {
            assert(recv(t) =~= recv(s).insert(rd(key(s), d, true)->0.hdr->nonce));
        } else if has_ack(v) && v.len() > 1 {
            let n = v.len() - 1;
            kept_sound(s, kept(s).len() as int);
            let a = kept_numbers(s, kept(s).len() as int);
            let o = kept_numbers(s, n);
            assert(recv(t) =~= recv_after(s, kept(s).len() as int));
            let w = Call { before: recv(s), after: recv_after(s, kept(s).len() as int), out: a };
            assert(sound(w) && w.out == a);
            assert forall|i: int| 0 <= i < a.len() implies !recv(s).contains(#[trigger] a[i]) && recv(t).contains(a[i]) by { assert(w.out[i] == a[i]); }
            assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by { assert(w.out[i] != w.out[j]); }
            assert forall|i: int| 0 <= i < o.len() implies !recv(s).contains(#[trigger] o[i]) && recv(t).contains(o[i]) by { assert(o[i] == a[i]); }
            assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by { assert(a[i] == o[i] && a[j] == o[j]); }
        }
    }
    /// a clone continues the history of its original: what was received before the copy stays received
    pub proof fn clone_continues(s: MSL, c: MSL)
        requires recv(c) =~= recv(s)
        ensures sound(Call { before: recv(s), after: recv(c), out: seq![] })
    { }
}
