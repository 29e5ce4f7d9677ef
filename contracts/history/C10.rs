// C10 over whole histories: from the contracts of the single calls
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    pub type St = crate::status::SecureLayerStatus;

    /// one call: the number of the next message before and after, the status, and the number it wrote
    pub struct Call { pub before: u64, pub after: u64, pub from: St, pub to: St, pub wrote: Option<u64>, pub failed_write: bool }
    pub open spec fn sound(x: Call) -> bool {
        &&& match x.wrote { Some(n) => n == x.before && x.after == x.before + 1 && !failed(x.from), None => x.after == x.before }
        &&& (x.failed_write && success(x.from) ==> failed(x.to))
        &&& (failed(x.from) ==> failed(x.to))
    }
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& h.len() > 0 ==> h[0].before == 0
        &&& forall|i: int| 0 <= i < h.len() ==> sound(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after && h[i].from == h[i - 1].to
    }
    /// the numbers written in the first n calls, in order
    pub open spec fn written(h: Seq<Call>, n: int) -> Seq<u64> decreases n {
        if n <= 0 { seq![] } else {
            match h[n - 1].wrote { Some(k) => written(h, n - 1).push(k), None => written(h, n - 1) }
        }
    }
    /// C10: they are 0, 1, 2, ... in this order
    pub proof fn consecutive(h: Seq<Call>, n: int)
        requires history(h), 0 <= n <= h.len()
        ensures
            forall|i: int| 0 <= i < written(h, n).len() ==> #[trigger] written(h, n)[i] == i,
            n > 0 ==> written(h, n).len() == h[n - 1].after, n < h.len() ==> written(h, n).len() == h[n].before,
        decreases n
    {
        if n > 0 {
            consecutive(h, n - 1);
            assert(sound(h[n - 1]));
            if n < h.len() { assert(h[n].before == h[n - 1].after); }
        }
    }
    proof fn stays_failed(h: Seq<Call>, i: int, j: int)
        requires history(h), 0 <= i <= j < h.len(), failed(h[i].to)
        ensures failed(h[j].to)
        decreases j - i
    {
        if i < j { stays_failed(h, i, j - 1); assert(h[j].from == h[j - 1].to); assert(sound(h[j])); }
    }
    /// C10: after a failed write no further message is written
    pub proof fn no_write_after_failure(h: Seq<Call>, i: int, j: int)
        requires history(h), 0 <= i < j < h.len(), h[i].failed_write, success(h[i].from)
        ensures h[j].wrote is None
    {
        assert(sound(h[i]) && sound(h[j]));
        stays_failed(h, i, j - 1);
        assert(h[j].from == h[j - 1].to);
    }
    pub proof fn quiet_is_call(s: MSL, t: MSL)
        requires q_c10(s, t), failed(s.status) ==> failed(t.status)
        ensures sound(Call { before: s.next_nonce_sent, after: t.next_nonce_sent, from: s.status, to: t.status, wrote: None, failed_write: false })
    { }
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c10(s, t, d, true, r), failed(s.status) ==> failed(t.status)
        ensures sound(Call { before: s.next_nonce_sent, after: t.next_nonce_sent, from: s.status, to: t.status, wrote: None, failed_write: false })
    { }
    /// writing: the bytes handed over carry the number, by the contract of writing
    pub proof fn write_is_call(s: MSL, t: MSL, ok: bool)
        requires
            ok ==> !failed(s.status) && t.next_nonce_sent == s.next_nonce_sent + 1,
            !ok ==> t.next_nonce_sent == s.next_nonce_sent && (success(s.status) ==> failed(t.status)),
            failed(s.status) ==> failed(t.status),
        ensures sound(Call { before: s.next_nonce_sent, after: t.next_nonce_sent, from: s.status, to: t.status,
            wrote: if ok { Some(s.next_nonce_sent) } else { None }, failed_write: !ok })
    { }
}
