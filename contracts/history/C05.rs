// C05 over whole histories: from the contracts of the single calls
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    pub type St = crate::status::SecureLayerStatus;

    /// one call: the status before and after, how many messages it delivered, created or wrote, whether it made a clone, and
    /// how many bytes it handed to a writer
    pub struct Call { pub before: St, pub after: St, pub messages: nat, pub clone: bool, pub bytes: nat }
    pub open spec fn sound(x: Call) -> bool {
        failed(x.before) ==> failed(x.after) && x.messages == 0 && !x.clone && x.bytes == 0
    }
    pub open spec fn history(h: Seq<Call>) -> bool {
        &&& forall|i: int| 0 <= i < h.len() ==> sound(#[trigger] h[i])
        &&& forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).before == h[i - 1].after
    }
    /// C05: once failed, nothing more ever happens
    pub proof fn silent_for_ever(h: Seq<Call>, i: int, j: int)
        requires history(h), 0 <= i <= j < h.len(), failed(h[i].before)
        ensures failed(h[j].before), failed(h[j].after), h[j].messages == 0, !h[j].clone, h[j].bytes == 0
        decreases j - i
    {
        if i < j {
            silent_for_ever(h, i, j - 1);
            assert(h[j].before == h[j - 1].after);
        }
        assert(sound(h[j]));
    }
    pub open spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
    pub proof fn read_is_call(s: MSL, t: MSL, d: Seq<u8>, r: R)
        requires read_c05(s, t, d, true, r)
        ensures sound(Call { before: s.status, after: t.status, messages: one(got_some(r)), clone: false, bytes: 0 })
    { }
    pub proof fn early_ack_is_call(s: MSL, t: MSL, r: R)
        requires early_ack(s) is Some, read_c05(no_early_ack(s), t, early_ack(s)->0, true, r)
        ensures sound(Call { before: s.status, after: t.status, messages: one(got_some(r)), clone: false, bytes: 0 })
    { }
    pub proof fn bin_is_call(s: MSL, t: MSL, d: Seq<u8>, v: Seq<IBM>, ok: bool)
        requires bin_c05(s, t, d, v, ok)
        ensures sound(Call { before: s.status, after: t.status, messages: v.len(), clone: false, bytes: 0 })
    { }
    /// creating and writing messages
    pub proof fn write_is_call(s: MSL, t: MSL, ok: bool, before: Seq<u8>, after: Seq<u8>)
        requires failed(s.status) ==> !ok && failed(t.status) && after == before
        ensures sound(Call { before: s.status, after: t.status, messages: one(ok), clone: false, bytes: (after.len() - before.len()) as nat })
    { }
    pub proof fn clone_is_call(s: MSL, t: MSL, c: MSL, ok: bool)
        requires t.status == s.status, ok ==> success(s.status)
        ensures sound(Call { before: s.status, after: t.status, messages: 0, clone: ok, bytes: 0 })
    { }
}
