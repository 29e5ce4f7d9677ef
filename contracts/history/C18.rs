// C18: from the value the sender gives to the format the receiver decodes it with
pub mod history {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::format::MessageFormat;
    /// C18: what is serialized in format f is decoded in format f, whatever the receiver's settings; a present value is
    /// delivered as present
    pub proof fn same_format<M>(z: Seq<u8>, f: MessageFormat, x: &M, c: Option<Seq<u8>>, y: Option<M>)
        requires packs_typed(z, f, Some(x)), carries(opt(z), c), typed_data(c, y)
        ensures
            typed_format(f), enc(fcode(f), *x) is Some, y is Some,
            c == Some(code4(fcode(f)) + enc(fcode(f), *x)->0),
            y == dec::<M>(fcode(f), enc(fcode(f), *x)->0),
    {
        let b = code4(fcode(f)) + enc(fcode(f), *x)->0;
        assert(b.subrange(0, 4) =~= code4(fcode(f)));
        assert(b.subrange(4, b.len() as int) =~= enc(fcode(f), *x)->0);
        decoded_code(f);
    }
    /// C18: an absent value is delivered as absent
    pub proof fn absent<M>(z: Seq<u8>, f: MessageFormat, c: Option<Seq<u8>>, y: Option<M>)
        requires packs_typed::<M>(z, f, None), carries(opt(z), c), typed_data(c, y)
        ensures y is None
    { }
    /// C18: too short, unknown code, or a format without values: no value
    pub proof fn no_value<M>(b: Seq<u8>)
        requires b.len() < 4 || fdecode(b.subrange(0, 4)) is None || !typed_format(fdecode(b.subrange(0, 4))->0)
        ensures deser::<M>(b) is None
    { }
}
