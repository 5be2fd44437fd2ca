// Contracts on animation channels of /repo: the keyframes they hold and their order in time.
// Extracted as core.rs is.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;

verus! {

// ======================================================================================
// Trusted contracts of the standard library
// ======================================================================================
pub mod stub {
    use vstd::prelude::*;
    use vstd::float::FloatBitsProperties;
    use vstd::std_specs::cmp::{partial_cmp_ensures, lt_ensures, le_ensures, gt_ensures, ge_ensures};
    use core::cmp::Ordering;

    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }

    // ---- f64: IEEE 754 order, over bit patterns. Checked over all pairs by the Kani harness k01_float_order ----
    /// the place of a number that is not NaN on the number line
    pub open spec fn key(x: f64) -> int {
        let b = x.to_bits_spec() as int;
        if b < 0x8000_0000_0000_0000 { b } else { 0x8000_0000_0000_0000 - b }
    }
    pub open spec fn nan(x: f64) -> bool { x.is_nan_spec() }
    pub open spec fn cmp_key(a: int, b: int) -> Ordering {
        if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
    }
    pub broadcast axiom fn f64_partial_cmp(a: f64, b: f64, o: Option<Ordering>)
        requires #[trigger] partial_cmp_ensures::<f64>(a, b, o),
        ensures o == if nan(a) || nan(b) { None } else { Some(cmp_key(key(a), key(b))) };
    pub broadcast axiom fn f64_lt(a: f64, b: f64, o: bool)
        requires #[trigger] lt_ensures::<f64>(a, b, o),
        ensures o == (!nan(a) && !nan(b) && key(a) < key(b));
    pub broadcast axiom fn f64_le(a: f64, b: f64, o: bool)
        requires #[trigger] le_ensures::<f64>(a, b, o),
        ensures o == (!nan(a) && !nan(b) && key(a) <= key(b));
    pub broadcast axiom fn f64_gt(a: f64, b: f64, o: bool)
        requires #[trigger] gt_ensures::<f64>(a, b, o),
        ensures o == (!nan(a) && !nan(b) && key(a) > key(b));
    pub broadcast axiom fn f64_ge(a: f64, b: f64, o: bool)
        requires #[trigger] ge_ensures::<f64>(a, b, o),
        ensures o == (!nan(a) && !nan(b) && key(a) >= key(b));
    pub broadcast group f64_order { f64_partial_cmp, f64_lt, f64_le, f64_gt, f64_ge }

    /// `std::iter::Iterator`, for iterators that end: `rem` is what is still to come
    pub trait Iterator: Sized {
        type Item;
        spec fn wf(&self) -> bool;
        spec fn rem(&self) -> Seq<Self::Item>;
        fn next(&mut self) -> (ret: Option<Self::Item>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
    }
    pub trait FromIterator<T>: Sized {
        spec fn of(&self, s: Seq<T>) -> bool;
    }
    impl<T> FromIterator<T> for Vec<T> {
        open spec fn of(&self, s: Seq<T>) -> bool { self@ == s }
    }
    /// `std::iter::Iterator::collect`
    pub trait IteratorCollect: Iterator {
        fn collect<B: FromIterator<Self::Item>>(self) -> (r: B)
            requires self.wf(),
            ensures r.of(self.rem());
    }
    impl<I: Iterator> IteratorCollect for I {
        #[verifier::external_body]
        fn collect<B: FromIterator<I::Item>>(self) -> B { unimplemented!() }
    }

    /// on the elements of `s`, the comparison function `f` answers as the total preorder `le` does
    pub open spec fn orders<T, F: FnMut(&T, &T) -> Ordering>(f: F, le: spec_fn(T, T) -> bool, s: Seq<T>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] le(s[i], s[j]) || le(s[j], s[i])
        &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
                && #[trigger] le(s[i], s[j]) && #[trigger] le(s[j], s[k]) ==> le(s[i], s[k])
        &&& forall|i: int, j: int, o: Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] f.ensures((&s[i], &s[j]), o) ==>
                o == if !le(s[j], s[i]) { Ordering::Less } else if !le(s[i], s[j]) { Ordering::Greater } else { Ordering::Equal }
    }
    pub open spec fn sorted<T>(s: Seq<T>, le: spec_fn(T, T) -> bool) -> bool {
        forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] le(s[i], s[j])
    }
    /// `slice::sort_by`, `slice::sort_unstable_by`: a permutation; sorted, if the function orders the elements
    pub trait Sort<T> {
        spec fn elements(&self) -> Seq<T>;
        fn sort_unstable_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F)
            requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
            ensures
                final(self).elements().to_multiset() == old(self).elements().to_multiset(),
                forall|le: spec_fn(T, T) -> bool| #[trigger] orders(f, le, old(self).elements()) ==> sorted(final(self).elements(), le);
        fn sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F)
            requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
            ensures
                final(self).elements().to_multiset() == old(self).elements().to_multiset(),
                forall|le: spec_fn(T, T) -> bool| #[trigger] orders(f, le, old(self).elements()) ==> sorted(final(self).elements(), le);
    }
    impl<T> Sort<T> for Vec<T> {
        open spec fn elements(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn sort_unstable_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
        #[verifier::external_body]
        fn sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    }
}

pub mod contract { pub mod properties {
    pub mod traits {
        pub trait ITpProperty {}
    }
    pub mod channels { pub mod channel {
        use vstd::prelude::*;
        use super::super::traits::ITpProperty;
        use crate::stub::*;
        use crate::stub::Iterator;

        //@struct tp_client::contract::properties::channels::channel::Keyframe
        //@struct tp_client::contract::properties::channels::channel::Channel

        /// no keyframe is at a time that is not a number
        pub open spec fn timed<T: ITpProperty>(s: Seq<Keyframe<T>>) -> bool {
            forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).time)
        }
        pub open spec fn not_after<T: ITpProperty>(a: Keyframe<T>, b: Keyframe<T>) -> bool { key(a.time) <= key(b.time) }
        pub open spec fn by_time<T: ITpProperty>() -> spec_fn(Keyframe<T>, Keyframe<T>) -> bool { |a: Keyframe<T>, b: Keyframe<T>| not_after(a, b) }
        pub open spec fn in_time_order<T: ITpProperty>(s: Seq<Keyframe<T>>) -> bool {
            sorted(s, by_time())
        }

        impl<T: ITpProperty> Keyframe<T> {
            //@fn tp_client::contract::properties::channels::channel::Keyframe::new
            //@spec
            ensures ret.value == $A0, ret.time == $A1
            //@end
            //@fn tp_client::contract::properties::channels::channel::Keyframe::value
            //@spec
            ensures *ret == self.value
            //@end
            //@fn tp_client::contract::properties::channels::channel::Keyframe::time
            //@spec
            ensures ret == self.time
            //@end
        }
        impl<T: ITpProperty> Channel<T> {
            //@fn tp_client::contract::properties::channels::channel::Channel::new
            //@hoist 0 v_cmp
            //@spec
            requires $A0.wf()
            ensures
                ret.0@.to_multiset() == $A0.rem().to_multiset(),
                timed($A0.rem()) ==> in_time_order(ret.0@),
            //@entry
            broadcast use f64_order;
            let ghost v_all = $A0.rem();
            //@closure 0
            |__c0: &Keyframe<T>, __c1: &Keyframe<T>| -> (o: core::cmp::Ordering)
                ensures o == if nan(__c0.time) || nan(__c1.time) { core::cmp::Ordering::Equal } else { cmp_key(key(__c0.time), key(__c1.time)) }
            //@tail
            proof {
                if timed(v_all) { assert(orders(v_cmp, by_time(), v_all)); }
            }
            //@end
            //@fn tp_client::contract::properties::channels::channel::Channel::keyframes
            //@spec
            ensures *ret == self.0
            //@end
            //@fn tp_client::contract::properties::channels::channel::Channel::keyframes_mut
            //@spec
            ensures *ret == old(self).0, final(self).0 == *final(ret)
            //@end
        }
    } }
} }

fn main() {}
} // verus!
