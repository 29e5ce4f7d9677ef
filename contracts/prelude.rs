// Trusted base: assumed contracts of the libraries pkstl calls, plus verified helper functions the
// extractor rewrites to. Everything marked external_body / uninterp / axiom here is an assumption.
pub mod xstd {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    broadcast use vstd::laws_eq::group_laws_eq;

    // ---------------------------------------------------------------- equality of byte strings
    pub broadcast proof fn slice_eq_u8(a: &[u8], b: &[u8])
        ensures #[trigger] PartialEqSpec::eq_spec(a, b) == (a@ == b@)
    { if PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }
    pub broadcast proof fn vec_eq_u8(a: &Vec<u8>, b: &Vec<u8>)
        ensures #[trigger] PartialEqSpec::eq_spec(a, b) == (a@ == b@)
    { if PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }
    pub broadcast proof fn slice_arr_eq_u8<const N: usize>(a: &[u8], b: &[u8; N])
        ensures #[trigger] PartialEqSpec::eq_spec(a, b) == (a@ == b@)
    { if PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }
    pub broadcast proof fn arr_eq_u8<const N: usize>(a: &[u8; N], b: &[u8; N])
        ensures #[trigger] PartialEqSpec::eq_spec(a, b) == (a@ == b@)
    { if PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }
    pub broadcast proof fn arr_slice_eq_u8<const N: usize>(a: &[u8; N], b: &[u8])
        ensures #[trigger] PartialEqSpec::eq_spec(a, b) == (a@ == b@)
    { if PartialEqSpec::eq_spec(a, b) { assert(a@ =~= b@); } }

    pub broadcast proof fn cloned_vec_u8(a: Vec<u8>, b: Vec<u8>)
        requires #[trigger] vstd::pervasive::cloned(a, b)
        ensures a@ == b@
    { assert(a@ =~= b@); }
    // equality impls of core that vstd leaves unspecified (byte array against slice reference)
    pub broadcast axiom fn arr_refslice_eq<'a, const N: usize>(a: &[u8; N], b: &&'a [u8])
        ensures #[trigger] PartialEqSpec::<&'a [u8]>::eq_spec(a, b) == (a@ == b@),
            <[u8; N] as PartialEqSpec<&'a [u8]>>::obeys_eq_spec();
    pub broadcast axiom fn refslice_arr_eq<'a, const N: usize>(a: &&'a [u8], b: &[u8; N])
        ensures #[trigger] PartialEqSpec::<[u8; N]>::eq_spec(a, b) == (a@ == b@),
            <&'a [u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();

    // ---------------------------------------------------------------- byte containers (AsRef<[u8]>)
    pub trait Bytes { spec fn b(&self) -> Seq<u8>; }
    impl<'a> Bytes for &'a [u8] { open spec fn b(&self) -> Seq<u8> { (**self)@ } }
    impl<'a> Bytes for &'a &'a [u8] { open spec fn b(&self) -> Seq<u8> { (***self)@ } }
    impl<'a> Bytes for &'a Vec<u8> { open spec fn b(&self) -> Seq<u8> { (**self)@ } }
    impl Bytes for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> Bytes for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ } }
    impl<'a, const N: usize> Bytes for &'a [u8; N] { open spec fn b(&self) -> Seq<u8> { (**self)@ } }
    // `.as_ref()` on a std byte container is rewritten by the extractor to nothing else than this
    pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { broadcast use slice_eq_u8; a == b }

    pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
        ensures r@ == s@;

    pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
        ensures r == exists|i: int| 0 <= i < s@.len() && PartialEqSpec::eq_spec(#[trigger] &s@[i], x);

    // ---------------------------------------------------------------- further std functions (assumed as documented)
    pub assume_specification[ u8::max_value ]() -> (r: u8) ensures r == u8::MAX;
    pub assume_specification[ u16::max_value ]() -> (r: u16) ensures r == u16::MAX;
    pub assume_specification[ u32::max_value ]() -> (r: u32) ensures r == u32::MAX;
    pub assume_specification[ u64::max_value ]() -> (r: u64) ensures r == u64::MAX;
    pub assume_specification[ usize::max_value ]() -> (r: usize) ensures r == usize::MAX;
    pub assume_specification[ u64::min_value ]() -> (r: u64) ensures r == 0;
    pub assume_specification[ usize::min_value ]() -> (r: usize) ensures r == 0;
    pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == if a < b { b - a } else { a - b };
    pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == if a < b { b - a } else { a - b };
    pub assume_specification<T>[ core::mem::drop ](x: T);

    pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
        ensures r == *old(o), *final(o) == Some(v);
    pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == if o is Some { o } else { b };
    pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, b: Option<U>) -> (r: Option<U>)
        ensures r == if o is Some { b } else { None };
    pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, b: Option<T>) -> (r: Option<T>)
        ensures r == if o is Some && b is None { o } else if o is None && b is Some { b } else { None };
    pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
        requires o is Some ==> f.requires((o->0,)),
        ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
    pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
        requires o is Some ==> f.requires((o->0,)),
        ensures o is None ==> r == d, o is Some ==> f.ensures((o->0,), r);
    pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
        requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
        ensures o is None ==> d.ensures((), r), o is Some ==> f.ensures((o->0,), r);
    pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
        ensures r == if o is Ok { o->Ok_0 } else { d };
    pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
        requires o is Err ==> f.requires((o->Err_0,)),
        ensures o is Ok ==> r == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
    pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
        requires o is Ok ==> f.requires((o->Ok_0,)),
        ensures o is Ok ==> f.ensures((o->Ok_0,), r), o is Err ==> r is Err && r->Err_0 == o->Err_0;
    pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>>[ Result::<T, E>::or_else ](o: Result<T, E>, f: F) -> (r: Result<T, G>)
        requires o is Err ==> f.requires((o->Err_0,)),
        ensures o is Ok ==> r is Ok && r->Ok_0 == o->Ok_0, o is Err ==> f.ensures((o->Err_0,), r);
    pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](o: Result<T, E>, f: F) -> (r: bool)
        requires o is Ok ==> f.requires((o->Ok_0,)),
        ensures o is Err ==> !r, o is Ok ==> f.ensures((o->Ok_0,), r);

    pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
        requires a < old(s)@.len(), b < old(s)@.len(),
        ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
    pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
        ensures final(s)@ == old(s)@.reverse();
    pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
        ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> vstd::pervasive::cloned(v, #[trigger] final(s)@[i]);
    pub assume_specification<T: Ord>[ <[T]>::sort ](s: &mut [T])
        ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len();
    pub assume_specification<T: Ord>[ <[T]>::sort_unstable ](s: &mut [T])
        ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len();
    pub assume_specification[ <[u8]>::eq_ignore_ascii_case ](s: &[u8], o: &[u8]) -> (r: bool)
        ensures s@ == o@ ==> r, r ==> s@.len() == o@.len();
    pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::shrink_to_fit ](v: &mut Vec<T, A>)
        ensures final(v)@ == old(v)@;
    pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
        ensures r >= v@.len();
    pub assume_specification<T, A: core::alloc::Allocator, F: FnMut(&T) -> bool>[ Vec::<T, A>::retain ](v: &mut Vec<T, A>, f: F)
        ensures final(v)@.len() <= old(v)@.len(), forall|x: T| #[trigger] final(v)@.contains(x) ==> old(v)@.contains(x);
    pub assume_specification<T: PartialEq, A: core::alloc::Allocator>[ Vec::<T, A>::dedup ](v: &mut Vec<T, A>)
        ensures final(v)@.len() <= old(v)@.len(), forall|x: T| #[trigger] final(v)@.contains(x) ==> old(v)@.contains(x);

    /// the order of a BTreeSet's items: for numbers their own
    pub uninterp spec fn below<T, Q: ?Sized>(x: T, k: &Q) -> bool;
    pub broadcast axiom fn below_u64(x: u64, k: &u64) ensures #[trigger] below::<u64, u64>(x, k) == (x < *k);
    pub assume_specification<T: Ord, A: core::alloc::Allocator + Clone>[ std::collections::BTreeSet::<T, A>::first ](s: &std::collections::BTreeSet<T, A>) -> (r: Option<&T>)
        ensures r is None <==> s@ =~= Set::<T>::empty(), r is Some ==> s@.contains(*r->0) && forall|y: T| #[trigger] s@.contains(y) ==> !below::<T, T>(y, r->0);
    pub assume_specification<T: Ord, A: core::alloc::Allocator + Clone>[ std::collections::BTreeSet::<T, A>::last ](s: &std::collections::BTreeSet<T, A>) -> (r: Option<&T>)
        ensures r is None <==> s@ =~= Set::<T>::empty(), r is Some ==> s@.contains(*r->0) && forall|y: T| #[trigger] s@.contains(y) ==> !below::<T, T>(*r->0, &y);
    pub assume_specification<T: Ord, A: core::alloc::Allocator + Clone>[ std::collections::BTreeSet::<T, A>::pop_first ](s: &mut std::collections::BTreeSet<T, A>) -> (r: Option<T>)
        ensures r is None <==> old(s)@ =~= Set::<T>::empty(), r is None ==> final(s)@ == old(s)@,
            r is Some ==> old(s)@.contains(r->0) && final(s)@ == old(s)@.remove(r->0) && forall|y: T| #[trigger] old(s)@.contains(y) ==> !below::<T, T>(y, &r->0);
    pub assume_specification<T: Ord, A: core::alloc::Allocator + Clone>[ std::collections::BTreeSet::<T, A>::pop_last ](s: &mut std::collections::BTreeSet<T, A>) -> (r: Option<T>)
        ensures r is None <==> old(s)@ =~= Set::<T>::empty(), r is None ==> final(s)@ == old(s)@,
            r is Some ==> old(s)@.contains(r->0) && final(s)@ == old(s)@.remove(r->0) && forall|y: T| #[trigger] old(s)@.contains(y) ==> !below::<T, T>(r->0, &y);
    pub assume_specification<T, A: core::alloc::Allocator + Clone, Q: ?Sized + Ord>[ std::collections::BTreeSet::<T, A>::split_off::<Q> ](s: &mut std::collections::BTreeSet<T, A>, k: &Q) -> (r: std::collections::BTreeSet<T, A>)
        where T: core::borrow::Borrow<Q> + Ord, A: Clone,
        ensures forall|x: T| #[trigger] final(s)@.contains(x) <==> old(s)@.contains(x) && below::<T, Q>(x, k),
            forall|x: T| #[trigger] r@.contains(x) <==> old(s)@.contains(x) && !below::<T, Q>(x, k);
    pub assume_specification<T, A: core::alloc::Allocator + Clone>[ std::collections::BTreeSet::<T, A>::append ](s: &mut std::collections::BTreeSet<T, A>, o: &mut std::collections::BTreeSet<T, A>)
        where T: Ord, A: Clone,
        ensures final(s)@ =~= old(s)@.union(old(o)@), final(o)@ =~= Set::<T>::empty();
    pub assume_specification<T: Ord, A: core::alloc::Allocator + Clone>[ std::collections::BTreeSet::<T, A>::is_subset ](s: &std::collections::BTreeSet<T, A>, o: &std::collections::BTreeSet<T, A>) -> (r: bool)
        ensures r == s@.subset_of(o@);
    pub assume_specification<T: Ord, A: core::alloc::Allocator + Clone, F: FnMut(&T) -> bool>[ std::collections::BTreeSet::<T, A>::retain ](s: &mut std::collections::BTreeSet<T, A>, f: F)
        ensures final(s)@.subset_of(old(s)@);

    // ---------------------------------------------------------------- memory
    /// how many items may be asked for at once: no fixed number, only many times what is in memory already, so that
    /// a count that comes from outside has no room
    pub uninterp spec fn room() -> nat;
    pub broadcast axiom fn slice_room<T>(s: &[T])
        ensures #![trigger s@] s@.len() * 64 + 0x10_0000 <= room();
    pub broadcast axiom fn vec_room<T>(s: Vec<T>)
        ensures #![trigger s@] s@.len() * 64 + 0x10_0000 <= room();
    pub broadcast axiom fn some_room()
        ensures #![trigger room()] 0x10_0000 <= room();
    #[verifier::external_body]
    pub fn vec_cap<T>(n: usize) -> (v: Vec<T>)
        requires n <= room()
        ensures v@ == Seq::<T>::empty()
    { Vec::with_capacity(n) }
    #[verifier::external_body]
    pub fn vec_rep<T: Clone>(x: T, n: usize) -> (v: Vec<T>)
        requires n <= room()
        ensures v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vstd::pervasive::cloned(x, v@[i])
    { vec![x; n] }
    pub trait Roomy<T> {
        spec fn items(&self) -> Seq<T>;
        fn xreserve(&mut self, n: usize)
            requires n <= room()
            ensures final(self).items() == old(self).items();
        fn xresize(&mut self, n: usize, x: T) where T: Clone
            requires n <= room()
            ensures final(self).items().len() == n,
                forall|i: int| 0 <= i < n && i < old(self).items().len() ==> final(self).items()[i] == old(self).items()[i],
                forall|i: int| old(self).items().len() <= i < n ==> vstd::pervasive::cloned(x, #[trigger] final(self).items()[i]);
    }
    impl<T> Roomy<T> for Vec<T> {
        open spec fn items(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn xreserve(&mut self, n: usize) { self.reserve(n) }
        #[verifier::external_body]
        fn xresize(&mut self, n: usize, x: T) where T: Clone { self.resize(n, x) }
    }

    // a function that must never be reached (panic!, unreachable!, unimplemented!, failed assert!)
    #[verifier::external_body]
    pub fn unreached() -> !
        requires false
    { loop {} }

    #[verifier::external_body]
    pub fn any_string() -> String { String::new() }

    // ---------------------------------------------------------------- big-endian integers
    pub open spec fn be8(n: u64) -> Seq<u8> {
        seq![
            ((n >> 56) & 0xff) as u8, ((n >> 48) & 0xff) as u8, ((n >> 40) & 0xff) as u8,
            ((n >> 32) & 0xff) as u8, ((n >> 24) & 0xff) as u8, ((n >> 16) & 0xff) as u8,
            ((n >> 8) & 0xff) as u8, (n & 0xff) as u8
        ]
    }
    pub open spec fn un8(s: Seq<u8>) -> u64 {
        ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32)
            | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64)
    }
    pub broadcast proof fn un8_be8(n: u64)
        ensures un8(#[trigger] be8(n)) == n
    {
        assert(
            ((((n >> 56) & 0xff) as u8) as u64) << 56 | ((((n >> 48) & 0xff) as u8) as u64) << 48
            | ((((n >> 40) & 0xff) as u8) as u64) << 40 | ((((n >> 32) & 0xff) as u8) as u64) << 32
            | ((((n >> 24) & 0xff) as u8) as u64) << 24 | ((((n >> 16) & 0xff) as u8) as u64) << 16
            | ((((n >> 8) & 0xff) as u8) as u64) << 8 | (((n & 0xff) as u8) as u64) == n
        ) by (bit_vector);
    }
    #[verifier::external_body]
    pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64)
        ensures r == un8(b@)
    { u64::from_be_bytes(b) }
    pub trait XToBe { fn x_to_be_bytes(&self) -> [u8; 8]; }
    impl XToBe for u64 {
        #[verifier::external_body]
        fn x_to_be_bytes(&self) -> (r: [u8; 8])
            ensures r@ == be8(*self)
        { self.to_be_bytes() }
    }

    // ---------------------------------------------------------------- whole-slice and drain helpers
    pub trait XFull { type X; spec fn xview(&self) -> Seq<Self::X>; fn xfull(&self) -> (r: &[Self::X]) ensures r@ == self.xview(); }
    impl<T> XFull for Vec<T> {
        type X = T;
        open spec fn xview(&self) -> Seq<T> { self@ }
        fn xfull(&self) -> (r: &[T]) { self.as_slice() }
    }
    impl<T> XFull for [T] {
        type X = T;
        open spec fn xview(&self) -> Seq<T> { self@ }
        fn xfull(&self) -> (r: &[T]) { self }
    }
    impl<T, const N: usize> XFull for [T; N] {
        type X = T;
        open spec fn xview(&self) -> Seq<T> { self@ }
        fn xfull(&self) -> (r: &[T]) { self.as_slice() }
    }
    #[verifier::external_body]
    pub fn drain_collect<T>(v: &mut Vec<T>, a: usize, b: usize) -> (r: Vec<T>)
        requires a <= b <= old(v)@.len()
        ensures
            r@ == old(v)@.subrange(a as int, b as int),
            final(v)@ == old(v)@.subrange(0, a as int) + old(v)@.subrange(b as int, old(v)@.len() as int)
    { v.drain(a..b).collect() }

    // ---------------------------------------------------------------- byte-string order (slice `<`)
    pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool
        decreases a.len()
    {
        if b.len() == 0 { false }
        else if a.len() == 0 { true }
        else if a[0] != b[0] { a[0] < b[0] }
        else { lex_lt(a.drop_first(), b.drop_first()) }
    }
    pub proof fn lex_total(a: Seq<u8>, b: Seq<u8>)
        ensures lex_lt(a, b) || lex_lt(b, a) || a == b, !(lex_lt(a, b) && lex_lt(b, a))
        decreases a.len()
    {
        if a.len() != 0 && b.len() != 0 {
            lex_total(a.drop_first(), b.drop_first());
            if a[0] == b[0] && a.drop_first() == b.drop_first() {
                assert(a =~= seq![a[0]] + a.drop_first());
                assert(b =~= seq![b[0]] + b.drop_first());
            }
        } else if a.len() == 0 && b.len() == 0 {
            assert(a =~= b);
        }
    }
    #[verifier::external_body]
    pub fn bytes_lt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == lex_lt(a@, b@) { a < b }
    pub fn bytes_gt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == lex_lt(b@, a@) { bytes_lt(b, a) }
    pub fn bytes_ge(a: &[u8], b: &[u8]) -> (r: bool) ensures r == !lex_lt(a@, b@) { !bytes_lt(a, b) }
    pub fn bytes_le(a: &[u8], b: &[u8]) -> (r: bool) ensures r == !lex_lt(b@, a@) { !bytes_lt(b, a) }

    // ---------------------------------------------------------------- iteration (`for`)
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct XIter<T> { v: std::collections::VecDeque<T> }
    impl<T> XIter<T> {
        pub uninterp spec fn all(&self) -> Seq<T>;
        pub uninterp spec fn pos(&self) -> nat;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            requires old(self).pos() <= old(self).all().len()
            ensures
                final(self).all() == old(self).all(),
                match r {
                    Some(x) => old(self).pos() < old(self).all().len()
                        && x == old(self).all()[old(self).pos() as int]
                        && final(self).pos() == old(self).pos() + 1,
                    None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
                }
        { self.v.pop_front() }
        #[verifier::external_body]
        pub fn x_rev(self) -> (r: XIter<T>)
            requires self.pos() == 0
            ensures r.pos() == 0, r.all() == self.all().reverse()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_enumerate(self) -> (r: XIter<(usize, T)>)
            requires self.pos() == 0
            ensures r.pos() == 0, r.all().len() == self.all().len(),
                forall|i: int| 0 <= i < self.all().len() ==> #[trigger] r.all()[i] == (i as usize, self.all()[i]),
                self.all().len() <= usize::MAX
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_skip(self, n: usize) -> (r: XIter<T>)
            requires self.pos() == 0
            ensures r.pos() == 0,
                r.all() == if n <= self.all().len() { self.all().subrange(n as int, self.all().len() as int) } else { Seq::empty() }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_take(self, n: usize) -> (r: XIter<T>)
            requires self.pos() == 0
            ensures r.pos() == 0,
                r.all() == if n <= self.all().len() { self.all().subrange(0, n as int) } else { self.all() }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn drain_collect_all<T>(v: &mut Vec<T>) -> (r: Vec<T>)
        ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
    { v.drain(..).collect() }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct XIterRef<'a, T> { v: std::collections::VecDeque<&'a T> }
    impl<'a, T> XIterRef<'a, T> {
        pub uninterp spec fn all(&self) -> Seq<T>;
        pub uninterp spec fn pos(&self) -> nat;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a T>)
            requires old(self).pos() <= old(self).all().len()
            ensures
                final(self).all() == old(self).all(),
                match r {
                    Some(x) => old(self).pos() < old(self).all().len()
                        && *x == old(self).all()[old(self).pos() as int]
                        && final(self).pos() == old(self).pos() + 1,
                    None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
                }
        { self.v.pop_front() }
        #[verifier::external_body]
        pub fn x_rev(self) -> (r: XIterRef<'a, T>)
            requires self.pos() == 0
            ensures r.pos() == 0, r.all() == self.all().reverse()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_enumerate(self) -> (r: XIter<(usize, &'a T)>)
            requires self.pos() == 0
            ensures r.pos() == 0, r.all().len() == self.all().len(),
                forall|i: int| 0 <= i < self.all().len() ==> (#[trigger] r.all()[i]).0 == i && *r.all()[i].1 == self.all()[i],
                self.all().len() <= usize::MAX
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_skip(self, n: usize) -> (r: XIterRef<'a, T>)
            requires self.pos() == 0
            ensures r.pos() == 0,
                r.all() == if n <= self.all().len() { self.all().subrange(n as int, self.all().len() as int) } else { Seq::empty() }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_take(self, n: usize) -> (r: XIterRef<'a, T>)
            requires self.pos() == 0
            ensures r.pos() == 0,
                r.all() == if n <= self.all().len() { self.all().subrange(0, n as int) } else { self.all() }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn x_copied(self) -> (r: XIter<T>) where T: Copy
            requires self.pos() == 0
            ensures r.pos() == 0, r.all() == self.all()
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn x_iter<'a, T>(s: &'a [T]) -> (r: XIterRef<'a, T>)
        ensures r.pos() == 0, r.all() == s@
    { unimplemented!() }
    pub trait XIntoIter { type T; spec fn items(self) -> Seq<Self::T>; fn x_into_iter(self) -> (r: XIter<Self::T>) ensures r.all() == self.items(), r.pos() == 0; }
    impl<T> XIntoIter for Vec<T> {
        type T = T;
        open spec fn items(self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn x_into_iter(self) -> (r: XIter<T>) { XIter { v: self.into_iter().collect() } }
    }

    // ---------------------------------------------------------------- max, min, replace, take, extend
    pub trait XOrd: Sized { spec fn xle(self, o: Self) -> bool; fn x_le(&self, o: &Self) -> (r: bool) ensures r == self.xle(*o); }
    impl XOrd for usize { open spec fn xle(self, o: usize) -> bool { self <= o } fn x_le(&self, o: &usize) -> (r: bool) { *self <= *o } }
    impl XOrd for u64 { open spec fn xle(self, o: u64) -> bool { self <= o } fn x_le(&self, o: &u64) -> (r: bool) { *self <= *o } }
    impl XOrd for u32 { open spec fn xle(self, o: u32) -> bool { self <= o } fn x_le(&self, o: &u32) -> (r: bool) { *self <= *o } }
    impl<'a> XOrd for &'a [u8] {
        open spec fn xle(self, o: &'a [u8]) -> bool { !lex_lt(o@, self@) }
        fn x_le(&self, o: &&'a [u8]) -> (r: bool) { bytes_le(*self, *o) }
    }
    pub fn x_max<T: XOrd>(a: T, b: T) -> (r: T) ensures r == if a.xle(b) { b } else { a } { if a.x_le(&b) { b } else { a } }
    pub fn x_min<T: XOrd>(a: T, b: T) -> (r: T) ensures r == if a.xle(b) { a } else { b } { if a.x_le(&b) { a } else { b } }
    #[verifier::external_body]
    pub fn x_replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { core::mem::replace(d, v) }
    pub trait XEmpty: Sized { spec fn empty(self) -> bool; fn x_empty() -> (r: Self) ensures r.empty(); }
    impl<T> XEmpty for Vec<T> { open spec fn empty(self) -> bool { self@ == Seq::<T>::empty() } fn x_empty() -> (r: Vec<T>) { Vec::new() } }
    impl<T> XEmpty for Option<T> { open spec fn empty(self) -> bool { self is None } fn x_empty() -> (r: Option<T>) { None } }
    impl XEmpty for u64 { open spec fn empty(self) -> bool { self == 0 } fn x_empty() -> (r: u64) { 0 } }
    impl XEmpty for usize { open spec fn empty(self) -> bool { self == 0 } fn x_empty() -> (r: usize) { 0 } }
    impl XEmpty for bool { open spec fn empty(self) -> bool { !self } fn x_empty() -> (r: bool) { false } }
    pub fn x_take<T: XEmpty>(d: &mut T) -> (r: T) ensures r == *old(d), final(d).empty() { x_replace(d, T::x_empty()) }
    pub trait XItems<T>: Sized { spec fn xitems(self) -> Seq<T>; fn x_onto(self, v: &mut Vec<T>) ensures final(v)@ == old(v)@ + self.xitems(); }
    impl<T> XItems<T> for Option<T> {
        open spec fn xitems(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
        fn x_onto(self, v: &mut Vec<T>) {
            let ghost o = v@;
            if let Some(x) = self { v.push(x); assert(v@ =~= o + seq![x]); } else { assert(v@ =~= o + Seq::<T>::empty()); }
        }
    }
    impl<T> XItems<T> for Vec<T> {
        open spec fn xitems(self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn x_onto(self, v: &mut Vec<T>) { v.extend(self) }
    }
    impl<'a> XItems<u8> for &'a [u8] {
        open spec fn xitems(self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn x_onto(self, v: &mut Vec<u8>) { v.extend(self) }
    }
    impl<'a> XItems<u8> for &'a Vec<u8> {
        open spec fn xitems(self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn x_onto(self, v: &mut Vec<u8>) { v.extend(self) }
    }
    impl<'a, const N: usize> XItems<u8> for &'a [u8; N] {
        open spec fn xitems(self) -> Seq<u8> { self@ }
        #[verifier::external_body]
        fn x_onto(self, v: &mut Vec<u8>) { v.extend(self) }
    }
    pub fn x_extend<T, I: XItems<T>>(v: &mut Vec<T>, i: I) ensures final(v)@ == old(v)@ + i.xitems() { i.x_onto(v) }

    pub mod num {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct NonZeroU32 { n: core::num::NonZeroU32 }
        impl NonZeroU32 {
            pub uninterp spec fn v(&self) -> u32;
            #[verifier::external_body]
            pub fn new(n: u32) -> (r: Option<NonZeroU32>)
                ensures n == 0 ==> r is None, n != 0 ==> r is Some && r->0.v() == n
            { unimplemented!() }
        }
    }

    // ---------------------------------------------------------------- std::io
    pub mod io {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Error { e: () }
        pub type Result<T> = core::result::Result<T, Error>;

        /// `after` is `before` followed by some prefix of `what`
        pub open spec fn partly(before: Seq<u8>, after: Seq<u8>, what: Seq<u8>) -> bool {
            exists|k: int| 0 <= k <= what.len() && after == before + #[trigger] what.subrange(0, k)
        }

        pub trait Write {
            /// every byte accepted so far
            spec fn out(&self) -> Seq<u8>;
            /// write_all and flush cannot fail
            spec fn total(&self) -> bool;
            /// a single write accepts everything
            spec fn full(&self) -> bool;
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
                ensures
                    final(self).total() == old(self).total(),
                    final(self).full() == old(self).full(),
                    match r {
                        Ok(n) => n <= buf@.len() && final(self).out() == old(self).out() + buf@.subrange(0, n as int)
                            && (old(self).full() ==> n == buf@.len()
                                && final(self).out() == old(self).out() + buf@),
                        Err(_) => !old(self).full() && final(self).out() == old(self).out(),
                    };
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
                ensures
                    final(self).total() == old(self).total(),
                    final(self).full() == old(self).full(),
                    match r {
                        Ok(_) => final(self).out() == old(self).out() + buf@,
                        Err(_) => !old(self).total() && partly(old(self).out(), final(self).out(), buf@),
                    };
            fn flush(&mut self) -> (r: Result<()>)
                ensures
                    final(self).total() == old(self).total(),
                    final(self).full() == old(self).full(),
                    final(self).out() == old(self).out(),
                    old(self).total() ==> r is Ok;
        }
        impl Write for Vec<u8> {
            open spec fn out(&self) -> Seq<u8> { self@ }
            open spec fn total(&self) -> bool { true }
            open spec fn full(&self) -> bool { true }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(W)]
        pub struct BufWriter<W: Write> { w: W }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(W)]
        pub struct IntoInnerError<W> { w: W }
        impl<W: Write> BufWriter<W> {
            pub uninterp spec fn bout(&self) -> Seq<u8>;
            pub uninterp spec fn btotal(&self) -> bool;
            pub uninterp spec fn bfull(&self) -> bool;
            #[verifier::external_body]
            pub fn new(w: W) -> (r: BufWriter<W>)
                ensures r.bout() == w.out(), r.btotal() == w.total(), r.bfull() == w.full()
            { unimplemented!() }
            #[verifier::external_body]
            pub fn with_capacity(n: usize, w: W) -> (r: BufWriter<W>)
                requires n <= crate::xstd::room()
                ensures r.bout() == w.out(), r.btotal() == w.total(), r.bfull() == w.full()
            { unimplemented!() }
            #[verifier::external_body]
            pub fn into_inner(self) -> (r: core::result::Result<W, IntoInnerError<BufWriter<W>>>)
                ensures r is Ok ==> r->Ok_0.out() == self.bout(), self.btotal() ==> r is Ok
            { unimplemented!() }
        }
        impl<W: Write> Write for BufWriter<W> {
            open spec fn out(&self) -> Seq<u8> { self.bout() }
            open spec fn total(&self) -> bool { self.btotal() }
            open spec fn full(&self) -> bool { self.bfull() }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
        }

        pub trait Read {
            /// every byte that reading to the end yields
            spec fn rest(&self) -> Seq<u8>;
            /// in memory: reading cannot fail
            spec fn sure(&self) -> bool;
            fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
                ensures r is Ok ==> final(buf)@ == old(buf)@ + old(self).rest() && r->Ok_0 == old(self).rest().len(),
                    old(self).sure() ==> r is Ok;
        }
        impl<'a> Read for &'a [u8] {
            open spec fn rest(&self) -> Seq<u8> { (*self)@ }
            open spec fn sure(&self) -> bool { true }
            #[verifier::external_body]
            fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(R)]
        pub struct BufReader<R> { r: R }
        impl<R: Read> BufReader<R> {
            pub uninterp spec fn brest(&self) -> Seq<u8>;
            pub uninterp spec fn bsure(&self) -> bool;
            #[verifier::external_body]
            pub fn new(r: R) -> (b: BufReader<R>)
                ensures b.brest() == r.rest(), b.bsure() == r.sure()
            { unimplemented!() }
        }
        impl<R: Read> Read for BufReader<R> {
            open spec fn rest(&self) -> Seq<u8> { self.brest() }
            open spec fn sure(&self) -> bool { self.bsure() }
            #[verifier::external_body]
            fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
        }
    }

    pub broadcast group group_x {
        slice_room, vec_room, some_room, slice_eq_u8, vec_eq_u8, slice_arr_eq_u8, arr_eq_u8, arr_slice_eq_u8, arr_refslice_eq, refslice_arr_eq, cloned_vec_u8,
        vstd::laws_eq::group_laws_eq,
        un8_be8,
        crate::ring::digest::sha256_len,
        crate::ring::agreement::pk_len,
        crate::ring::pbkdf2::pbkdf2_len,
        crate::ring::signature::sign_ok,
        crate::ring::signature::edpk_len,
        crate::chacha20_poly1305_aead::aead_len,
        crate::chacha20_poly1305_aead::aead_inverse,
        crate::chacha20_poly1305_aead::aead_authentic,
        crate::flate2::inflate_deflate,
        crate::flate2::deflate_nonempty,
    }
}

// -------------------------------------------------------------------- ring 0.16
pub mod ring {
    pub mod error {
        use vstd::prelude::*;
        pub struct Unspecified;
        pub struct KeyRejected;
    }
    pub mod rand {
        use vstd::prelude::*;
        pub struct SystemRandom { e: () }
        impl SystemRandom { #[verifier::external_body] pub fn new() -> SystemRandom { SystemRandom { e: () } } }
        /// these bytes came from the system's random source
        pub uninterp spec fn drawn(x: Seq<u8>) -> bool;
        pub trait RandomlyConstructable { spec fn rb(&self) -> Seq<u8>; }
        impl<const N: usize> RandomlyConstructable for [u8; N] { open spec fn rb(&self) -> Seq<u8> { self@ } }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Random<T> { t: T }
        impl<T: RandomlyConstructable> Random<T> {
            pub uninterp spec fn v(&self) -> T;
            #[verifier::external_body]
            pub fn expose(self) -> (r: T) ensures r == self.v() { self.t }
        }
        #[verifier::external_body]
        pub fn generate<T: RandomlyConstructable>(rng: &SystemRandom) -> (r: Result<Random<T>, crate::ring::error::Unspecified>)
            ensures r is Ok, // assumed: the operating system's random source works
                drawn(r->Ok_0.v().rb())
        { unimplemented!() }
        pub trait SecureRandom { fn fill(&self, dest: &mut [u8]) -> (r: Result<(), crate::ring::error::Unspecified>); }
        impl SecureRandom for SystemRandom {
            #[verifier::external_body]
            fn fill(&self, dest: &mut [u8]) -> (r: Result<(), crate::ring::error::Unspecified>)
                ensures r is Ok, final(dest)@.len() == old(dest)@.len(), drawn(final(dest)@)
            { unimplemented!() }
        }
    }
    pub mod digest {
        use vstd::prelude::*;
        #[derive(Clone, Copy)]
        pub struct Algorithm { pub id: u8 }
        pub const SHA256: Algorithm = Algorithm { id: 0 };
        pub const SHA384: Algorithm = Algorithm { id: 1 };
        pub const SHA512: Algorithm = Algorithm { id: 2 };
        pub uninterp spec fn hash(alg: int, m: Seq<u8>) -> Seq<u8>;
        pub open spec fn sha256(m: Seq<u8>) -> Seq<u8> { hash(0, m) }
        pub broadcast axiom fn sha256_len(m: Seq<u8>) ensures (#[trigger] hash(0, m)).len() == 32;
        #[verifier::external_body]
        pub struct Digest { d: Vec<u8> }
        impl Digest {
            pub uninterp spec fn v(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn digest(alg: &Algorithm, data: &[u8]) -> (r: Digest)
            ensures r.v() == hash(alg.id as int, data@)
        { unimplemented!() }
    }
    pub mod signature {
        use vstd::prelude::*;
        pub struct EdDSAParameters { pub id: u8 }
        pub const ED25519: EdDSAParameters = EdDSAParameters { id: 0 };
        /// RFC 8032 verification of `sig` over `msg` under `pk`
        pub uninterp spec fn ed25519_valid(pk: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
        pub uninterp spec fn ed25519_sign(seed: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
        pub uninterp spec fn ed25519_pk(seed: Seq<u8>) -> Seq<u8>;
        pub broadcast axiom fn sign_ok(seed: Seq<u8>, msg: Seq<u8>)
            ensures ed25519_valid(ed25519_pk(seed), msg, #[trigger] ed25519_sign(seed, msg)),
                ed25519_sign(seed, msg).len() == 64;
        pub broadcast axiom fn edpk_len(seed: Seq<u8>)
            ensures (#[trigger] ed25519_pk(seed)).len() == 32;
        use crate::xstd::Bytes;
        pub struct UnparsedPublicKey<B> { pub alg: u8, pub bytes: B }
        impl<B: crate::xstd::Bytes> UnparsedPublicKey<B> {
            #[verifier::external_body]
            pub fn new(alg: &EdDSAParameters, bytes: B) -> (r: UnparsedPublicKey<B>)
                ensures r.alg == alg.id, r.bytes == bytes
            { unimplemented!() }
            #[verifier::external_body]
            pub fn verify(&self, msg: &[u8], sig: &[u8]) -> (r: Result<(), crate::ring::error::Unspecified>)
                ensures r is Ok == ed25519_valid(self.bytes.b(), msg@, sig@)
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct PublicKey { k: Vec<u8> }
        impl PublicKey {
            pub uninterp spec fn v(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Signature { k: Vec<u8> }
        impl Signature {
            pub uninterp spec fn v(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Ed25519KeyPair { k: Vec<u8> }
        pub trait KeyPair {
            spec fn pk(&self) -> Seq<u8>;
            fn public_key(&self) -> (r: &PublicKey) ensures r.v() == self.pk();
        }
        impl Ed25519KeyPair {
            pub uninterp spec fn seed(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn from_seed_unchecked(seed: &[u8]) -> (r: Result<Ed25519KeyPair, crate::ring::error::KeyRejected>)
                ensures r is Ok ==> r->Ok_0.seed() == seed@, seed@.len() == 32 ==> r is Ok
            { unimplemented!() }
            #[verifier::external_body]
            pub fn sign(&self, msg: &[u8]) -> (r: Signature)
                ensures r.v() == ed25519_sign(self.seed(), msg@)
            { unimplemented!() }
        }
        impl KeyPair for Ed25519KeyPair {
            open spec fn pk(&self) -> Seq<u8> { ed25519_pk(self.seed()) }
            #[verifier::external_body]
            fn public_key(&self) -> (r: &PublicKey) { unimplemented!() }
        }
    }
    pub mod agreement {
        use vstd::prelude::*;
        pub struct Algorithm { pub id: u8 }
        pub const X25519: Algorithm = Algorithm { id: 0 };
        /// X25519(private key, peer public key); None where ring refuses (wrong length, all-zero result)
        pub uninterp spec fn dh(sk: Seq<u8>, pk: Seq<u8>) -> Option<Seq<u8>>;
        pub uninterp spec fn base(sk: Seq<u8>) -> Seq<u8>;
        pub broadcast axiom fn pk_len(sk: Seq<u8>) ensures (#[trigger] base(sk)).len() == 32;
        pub axiom fn dh_symmetric(a: Seq<u8>, b: Seq<u8>) ensures dh(a, base(b)) == dh(b, base(a));
        #[verifier::external_body]
        pub struct EphemeralPrivateKey { k: Vec<u8> }
        #[verifier::external_body]
        pub struct PublicKey { k: Vec<u8> }
        impl PublicKey {
            pub uninterp spec fn v(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
        }
        impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: PublicKey) ensures r == *self { unimplemented!() } }
        impl EphemeralPrivateKey {
            pub uninterp spec fn sk(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn generate(alg: &Algorithm, rng: &crate::ring::rand::SystemRandom) -> (r: Result<EphemeralPrivateKey, crate::ring::error::Unspecified>)
                ensures r is Ok ==> crate::ring::rand::drawn(r->Ok_0.sk())
            { unimplemented!() }
            #[verifier::external_body]
            pub fn compute_public_key(&self) -> (r: Result<PublicKey, crate::ring::error::Unspecified>)
                ensures r is Ok ==> r->Ok_0.v() == base(self.sk())
            { unimplemented!() }
        }
        use crate::xstd::Bytes;
        pub struct UnparsedPublicKey<B> { pub alg: u8, pub bytes: B }
        impl<B: crate::xstd::Bytes> UnparsedPublicKey<B> {
            #[verifier::external_body]
            pub fn new(alg: &Algorithm, bytes: B) -> (r: UnparsedPublicKey<B>)
                ensures r.alg == alg.id, r.bytes == bytes
            { unimplemented!() }
        }
        // agree_ephemeral(priv, peer, error, kdf) is rewritten by the extractor to a match on this
        #[verifier::external_body]
        pub fn agree<B: crate::xstd::Bytes>(k: EphemeralPrivateKey, peer: &UnparsedPublicKey<B>) -> (r: Option<Vec<u8>>)
            ensures match dh(k.sk(), peer.bytes.b()) {
                Some(s) => r is Some && r->0@ == s,
                None => r is None,
            }
        { unimplemented!() }
    }
    pub mod pbkdf2 {
        use vstd::prelude::*;
        #[derive(Clone, Copy)]
        pub struct Algorithm { pub id: u8 }
        pub const PBKDF2_HMAC_SHA1: Algorithm = Algorithm { id: 0 };
        pub const PBKDF2_HMAC_SHA256: Algorithm = Algorithm { id: 1 };
        pub const PBKDF2_HMAC_SHA384: Algorithm = Algorithm { id: 2 };
        pub const PBKDF2_HMAC_SHA512: Algorithm = Algorithm { id: 3 };
        pub uninterp spec fn pbkdf2(alg: int, iterations: int, salt: Seq<u8>, secret: Seq<u8>, len: nat) -> Seq<u8>;
        pub broadcast axiom fn pbkdf2_len(alg: int, iterations: int, salt: Seq<u8>, secret: Seq<u8>, len: nat)
            ensures (#[trigger] pbkdf2(alg, iterations, salt, secret, len)).len() == len;
        #[verifier::external_body]
        pub fn derive(alg: Algorithm, iterations: crate::xstd::num::NonZeroU32, salt: &[u8], secret: &[u8], out: &mut [u8])
            ensures final(out)@ == pbkdf2(alg.id as int, iterations.v() as int, salt@, secret@, old(out)@.len())
        { unimplemented!() }
    }
}

// -------------------------------------------------------------------- chacha20-poly1305-aead 0.1.2
pub mod chacha20_poly1305_aead {
    use vstd::prelude::*;
    use crate::xstd::io;
    use crate::xstd::io::{Read, Write};
    pub uninterp spec fn aead_ct(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn aead_tag(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn aead_open(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, ct: Seq<u8>, tag: Seq<u8>) -> Option<Seq<u8>>;
    pub broadcast axiom fn aead_len(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, pt: Seq<u8>)
        ensures #![trigger aead_ct(k, n, a, pt)] #![trigger aead_tag(k, n, a, pt)]
            aead_ct(k, n, a, pt).len() == pt.len(), aead_tag(k, n, a, pt).len() == 16;
    pub broadcast axiom fn aead_inverse(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, pt: Seq<u8>)
        ensures #![trigger aead_ct(k, n, a, pt), aead_tag(k, n, a, pt)]
            aead_open(k, n, a, aead_ct(k, n, a, pt), aead_tag(k, n, a, pt)) == Some(pt);
    pub broadcast axiom fn aead_authentic(k: Seq<u8>, n: Seq<u8>, a: Seq<u8>, ct: Seq<u8>, tag: Seq<u8>)
        ensures #![trigger aead_open(k, n, a, ct, tag)]
            aead_open(k, n, a, ct, tag) is Some ==>
                ct == aead_ct(k, n, a, aead_open(k, n, a, ct, tag)->0)
                && tag == aead_tag(k, n, a, aead_open(k, n, a, ct, tag)->0);
    #[verifier::external_body]
    pub struct DecryptError { e: () }
    #[verifier::external_body]
    pub fn decrypt<W: Write>(key: &[u8], nonce: &[u8], aad: &[u8], input: &[u8], tag: &[u8], output: &mut W) -> (r: Result<(), DecryptError>)
        requires key@.len() == 32, nonce@.len() == 12, tag@.len() == 16
        ensures
            final(output).total() == old(output).total(),
            final(output).full() == old(output).full(),
            match r {
                Ok(_) => aead_open(key@, nonce@, aad@, input@, tag@) is Some
                    && final(output).out() == old(output).out() + aead_open(key@, nonce@, aad@, input@, tag@)->0,
                Err(_) => old(output).total() ==> aead_open(key@, nonce@, aad@, input@, tag@) is None
                    && final(output).out() == old(output).out(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt_read<R: Read, W: Write>(key: &[u8], nonce: &[u8], aad: &[u8], input: &mut R, output: &mut W) -> (r: io::Result<[u8; 16]>)
        requires key@.len() == 32, nonce@.len() == 12
        ensures
            final(output).total() == old(output).total(),
            final(output).full() == old(output).full(),
            match r {
                Ok(tag) => final(output).out() == old(output).out() + aead_ct(key@, nonce@, aad@, old(input).rest())
                    && tag@ == aead_tag(key@, nonce@, aad@, old(input).rest()),
                Err(_) => !(old(output).total() && old(input).sure())
                    && io::partly(old(output).out(), final(output).out(), aead_ct(key@, nonce@, aad@, old(input).rest())),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt<W: Write>(key: &[u8], nonce: &[u8], aad: &[u8], input: &[u8], output: &mut W) -> (r: io::Result<[u8; 16]>)
        requires key@.len() == 32, nonce@.len() == 12
        ensures
            final(output).total() == old(output).total(),
            final(output).full() == old(output).full(),
            match r {
                Ok(tag) => final(output).out() == old(output).out() + aead_ct(key@, nonce@, aad@, input@)
                    && tag@ == aead_tag(key@, nonce@, aad@, input@),
                Err(_) => !old(output).total()
                    && io::partly(old(output).out(), final(output).out(), aead_ct(key@, nonce@, aad@, input@)),
            }
    { unimplemented!() }
}

// -------------------------------------------------------------------- flate2 1.0
pub mod flate2 {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct Compression { pub l: u32 }
    impl Compression {
        pub fn new(l: u32) -> (r: Compression) ensures r.l == l { Compression { l } }
        pub fn none() -> (r: Compression) ensures r.l == 0 { Compression { l: 0 } }
        pub fn fast() -> (r: Compression) ensures r.l == 1 { Compression { l: 1 } }
        pub fn best() -> (r: Compression) ensures r.l == 9 { Compression { l: 9 } }
        pub fn level(&self) -> (r: u32) ensures r == self.l { self.l }
    }
    pub uninterp spec fn deflate(level: int, x: Seq<u8>) -> Seq<u8>;
    /// the bytes a complete raw-deflate stream stands for
    pub uninterp spec fn inflate(z: Seq<u8>) -> Option<Seq<u8>>;
    pub broadcast axiom fn inflate_deflate(level: int, x: Seq<u8>)
        ensures inflate(#[trigger] deflate(level, x)) == Some(x);
    pub broadcast axiom fn deflate_nonempty(level: int, x: Seq<u8>)
        ensures (#[trigger] deflate(level, x)).len() > 0;
    pub mod write {
        use vstd::prelude::*;
        use crate::xstd::io;
        use crate::xstd::io::Write;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(W)]
        pub struct DeflateEncoder<W: Write> { w: W }
        impl<W: Write> DeflateEncoder<W> {
            pub uninterp spec fn given(&self) -> Seq<u8>;
            pub uninterp spec fn inner(&self) -> Seq<u8>;
            pub uninterp spec fn itotal(&self) -> bool;
            pub uninterp spec fn lvl(&self) -> int;
            #[verifier::external_body]
            pub fn new(w: W, level: crate::flate2::Compression) -> (r: DeflateEncoder<W>)
                ensures r.given() == Seq::<u8>::empty(), r.inner() == w.out(), r.itotal() == w.total(), r.lvl() == level.l
            { unimplemented!() }
            #[verifier::external_body]
            pub fn finish(self) -> (r: io::Result<W>)
                ensures r is Ok ==> r->Ok_0.out() == self.inner() + crate::flate2::deflate(self.lvl(), self.given())
                        && r->Ok_0.total() == self.itotal(),
                    self.itotal() ==> r is Ok
            { unimplemented!() }
        }
        impl<W: Write> Write for DeflateEncoder<W> {
            open spec fn out(&self) -> Seq<u8> { self.given() }
            open spec fn total(&self) -> bool { self.itotal() }
            open spec fn full(&self) -> bool { false }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
                ensures final(self).inner() == old(self).inner(), final(self).lvl() == old(self).lvl()
            { unimplemented!() }
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
                ensures final(self).inner() == old(self).inner(), final(self).lvl() == old(self).lvl()
            { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: io::Result<()>)
                ensures final(self).inner() == old(self).inner(), final(self).lvl() == old(self).lvl()
            { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(W)]
        pub struct DeflateDecoder<W: Write> { w: W }
        impl<W: Write> DeflateDecoder<W> {
            pub uninterp spec fn given(&self) -> Seq<u8>;
            pub uninterp spec fn inner(&self) -> Seq<u8>;
            pub uninterp spec fn itotal(&self) -> bool;
            #[verifier::external_body]
            pub fn new(w: W) -> (r: DeflateDecoder<W>)
                ensures r.given() == Seq::<u8>::empty(), r.inner() == w.out(), r.itotal() == w.total()
            { unimplemented!() }
            #[verifier::external_body]
            pub fn finish(self) -> (r: io::Result<W>)
                ensures
                    crate::flate2::inflate(self.given()) is Some && r is Ok
                        ==> r->Ok_0.out() == self.inner() + crate::flate2::inflate(self.given())->0,
                    crate::flate2::inflate(self.given()) is Some && self.itotal() ==> r is Ok
            { unimplemented!() }
        }
        impl<W: Write> Write for DeflateDecoder<W> {
            open spec fn out(&self) -> Seq<u8> { self.given() }
            open spec fn total(&self) -> bool { false }
            open spec fn full(&self) -> bool { false }
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
                ensures final(self).inner() == old(self).inner(), final(self).itotal() == old(self).itotal()
            { unimplemented!() }
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
                ensures final(self).inner() == old(self).inner(), final(self).itotal() == old(self).itotal(),
                    old(self).itotal() && crate::flate2::inflate(old(self).given() + buf@) is Some ==> r is Ok
            { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: io::Result<()>)
                ensures final(self).inner() == old(self).inner(), final(self).itotal() == old(self).itotal()
            { unimplemented!() }
        }
    }
}

// -------------------------------------------------------------------- serde formats
pub mod serde {
    use vstd::prelude::*;
    pub trait Serialize: Sized {}
    pub mod de {
        use vstd::prelude::*;
        pub trait DeserializeOwned: Sized {}
    }
    /// the encoding of a value in a format (2 JSON, 3 CBOR, 4 bincode); None where the format refuses it
    pub uninterp spec fn enc<M>(fmt: int, m: M) -> Option<Seq<u8>>;
    pub uninterp spec fn dec<M>(fmt: int, b: Seq<u8>) -> Option<M>;
}
pub mod bincode {
    use vstd::prelude::*;
    use crate::serde::*;
    use crate::xstd::io::Write;
    #[verifier::external_body]
    pub struct Error { e: () }
    #[verifier::external_body]
    pub fn serialize_into<W: Write, M: Serialize>(w: &mut W, m: &M) -> (r: Result<(), Error>)
        ensures final(w).total() == old(w).total(), final(w).full() == old(w).full(),
            r is Ok ==> enc(4, *m) is Some && final(w).out() == old(w).out() + enc(4, *m)->0,
            old(w).total() && enc(4, *m) is Some ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<M: crate::serde::de::DeserializeOwned>(b: &[u8]) -> (r: Result<M, Error>)
        ensures match dec::<M>(4, b@) { Some(m) => r == Ok::<M, Error>(m), None => r is Err }
    { unimplemented!() }
}
pub mod serde_cbor {
    use vstd::prelude::*;
    use crate::serde::*;
    use crate::xstd::io::Write;
    pub mod error {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Error { e: () }
    }
    pub use error::Error;
    #[verifier::external_body]
    pub fn to_writer<W: Write, M: Serialize>(w: &mut W, m: &M) -> (r: Result<(), Error>)
        ensures final(w).total() == old(w).total(), final(w).full() == old(w).full(),
            r is Ok ==> enc(3, *m) is Some && final(w).out() == old(w).out() + enc(3, *m)->0,
            old(w).total() && enc(3, *m) is Some ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice<M: crate::serde::de::DeserializeOwned>(b: &[u8]) -> (r: Result<M, Error>)
        ensures match dec::<M>(3, b@) { Some(m) => r == Ok::<M, Error>(m), None => r is Err }
    { unimplemented!() }
}
pub mod serde_json {
    use vstd::prelude::*;
    use crate::serde::*;
    use crate::xstd::io::Write;
    #[verifier::external_body]
    pub struct Error { e: () }
    #[verifier::external_body]
    pub fn to_writer<W: Write, M: Serialize>(w: &mut W, m: &M) -> (r: Result<(), Error>)
        ensures final(w).total() == old(w).total(), final(w).full() == old(w).full(),
            r is Ok ==> enc(2, *m) is Some && final(w).out() == old(w).out() + enc(2, *m)->0,
            old(w).total() && enc(2, *m) is Some ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice<M: crate::serde::de::DeserializeOwned>(b: &[u8]) -> (r: Result<M, Error>)
        ensures match dec::<M>(2, b@) { Some(m) => r == Ok::<M, Error>(m), None => r is Err }
    { unimplemented!() }
}
