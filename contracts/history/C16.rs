// C16: from what the sender gives to what the receiver delivers
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    /// C16: z, a payload the sender's contract allows for x, can be unpacked, and the receiver's contract allows nothing
    /// but x for it
    pub proof fn same_payload(z: Seq<u8>, x: Option<Seq<u8>>, y: Option<Seq<u8>>)
        requires packs(z, x)
        ensures unpackable(opt(z)), carries(opt(z), y) ==> y == x
    { }
}
