// Contracts on tweening of integers in /repo, over the arithmetic of f64. Extracted as core.rs is.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;

verus! {

// ======================================================================================
// Trusted contracts of the standard library and of num_traits
// ======================================================================================
pub mod stub {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use vstd::float::*;
    use vstd::std_specs::cmp::{PartialOrdSpec, PartialOrdSpecImpl};
    use core::cmp::Ordering;
    // ---- i128 ----
    pub open spec fn clamp(x: int) -> i128 { if x < i128::MIN { i128::MIN } else if x > i128::MAX { i128::MAX } else { x as i128 } }
    pub assume_specification [i128::saturating_add] (_0: i128, _1: i128) -> (r: i128) ensures r == clamp(_0 + _1);
    pub assume_specification [i128::saturating_sub] (_0: i128, _1: i128) -> (r: i128) ensures r == clamp(_0 - _1);

    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }

    // ---- f64 ----
    /// the place of a number that is not NaN on the number line
    pub open spec fn key(x: f64) -> int {
        let b = x.to_bits_spec() as int;
        if b < 0x8000_0000_0000_0000 { b } else { 0x8000_0000_0000_0000 - b }
    }
    pub open spec fn cmp_key(a: int, b: int) -> Ordering {
        if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
    }
    pub open spec fn nan(x: f64) -> bool { x.is_nan_spec() }
    pub open spec fn finite(x: f64) -> bool { -0x7ff0_0000_0000_0000 < key(x) < 0x7ff0_0000_0000_0000 }
    /// where zero and one are on the number line
    pub open spec fn zero() -> int { 0 }
    pub open spec fn one() -> int { 0x3ff0_0000_0000_0000 }
    pub open spec fn abs(i: int) -> int { if i < 0 { -i } else { i } }
    /// f64 holds it exactly
    pub open spec fn exact(i: int) -> bool { abs(i) <= 0x20_0000_0000_0000 || i % 0x1_0000_0000 == 0 && abs(i) <= 0x20_0000_0000_0000 * 0x1_0000_0000 }
    /// `r` is what `(t * i as f64) as i128` may be: the product, correctly rounded (so that it keeps the order), then cut off
    pub open spec fn scales(t: f64, i: int, r: int) -> bool {
        &&& i == 0 ==> r == 0
        &&& key(t) == zero() ==> r == 0
        &&& key(t) == one() ==> r == i
        &&& key(t) <= zero() ==> if i >= 0 { r <= 0 } else { r >= 0 }
        &&& key(t) >= one() ==> if i >= 0 { r >= i } else { r <= i }
        &&& zero() <= key(t) <= one() ==> if i >= 0 { 0 <= r <= i } else { i <= r <= 0 }
    }
    // f64_scales: Kani's k02_f64_* (all of it but factors between zero and one) and rocq/float_product.v (those)
    pub broadcast axiom fn f64_mul_total(t: f64, x: f64)
        ensures #[trigger] t.mul_req(x);
    pub broadcast axiom fn f64_scales(t: f64, i: i128, x: f64, y: f64, r: i128)
        requires #[trigger] float_cast_spec::<i128, f64>(i, x), #[trigger] mul_ensures(t, x, y), #[trigger] float_cast_spec::<f64, i128>(y, r), exact(i as int), finite(t),
        ensures scales(t, i as int, r as int);
    pub broadcast axiom fn f64_scales_r(t: f64, i: i128, x: f64, y: f64, r: i128)
        requires #[trigger] float_cast_spec::<i128, f64>(i, x), #[trigger] mul_ensures(x, t, y), #[trigger] float_cast_spec::<f64, i128>(y, r), exact(i as int), finite(t),
        ensures scales(t, i as int, r as int);
    pub broadcast group f64_arith { f64_mul_total, f64_scales, f64_scales_r }

    // ---- num_traits: a primitive integer has a value, and a range ----
    pub trait Int: Sized + Copy {
        spec fn v(self) -> int;
        spec fn lo() -> int;
        spec fn hi() -> int;
        proof fn ranges(self) ensures Self::lo() <= self.v() <= Self::hi(), Self::lo() <= 0 < Self::hi();
    }
    pub trait PrimInt: Int {
        fn to_i128(&self) -> (r: Option<i128>)
            ensures r == if i128::MIN <= self.v() <= i128::MAX { Some(self.v() as i128) } else { None };
        fn min_value() -> (r: Self) ensures r.v() == Self::lo();
        fn max_value() -> (r: Self) ensures r.v() == Self::hi();
    }
    pub trait FromPrimitive: Int {
        fn from_i128(n: i128) -> (r: Option<Self>)
            ensures match r { Some(x) => x.v() == n, None => n < Self::lo() || n > Self::hi() };
    }
    pub trait AsPrimitive<T> {}
    pub trait One: Sized {
        spec fn is_one(self) -> bool;
        fn one() -> (r: Self) ensures r.is_one();
    }
    pub trait Float: Sized + One + PartialOrd {
        spec fn num(self) -> f64;
        fn to_f64(&self) -> (r: Option<f64>) ensures r == Some(self.num());
    }
    pub broadcast axiom fn float_one<F: Float>(x: F)
        requires #[trigger] x.is_one(),
        ensures key(x.num()) == one(), !nan(x.num());
    pub broadcast axiom fn float_cmp<F: Float>(a: F, b: F)
        ensures
            #[trigger] a.partial_cmp_spec(&b) == if nan(a.num()) || nan(b.num()) { None } else { Some(cmp_key(key(a.num()), key(b.num()))) };
    pub broadcast axiom fn float_obeys<F: Float>()
        ensures #[trigger] <F as PartialOrdSpec>::obeys_partial_cmp_spec();
    pub broadcast group float_order { float_one, float_cmp, float_obeys }

    pub trait CanTween: Sized { fn ease(from: Self, to: Self, time: impl Float) -> Self; }
}
pub mod keyframe {
    pub use crate::stub::CanTween;
    pub mod num_traits { pub use crate::stub::{PrimInt, FromPrimitive, AsPrimitive, Float, One}; }
}
pub mod misc {
    use vstd::prelude::*;
    use crate::stub::*;
    use crate::keyframe;

    pub open spec fn between(a: int, x: int, b: int) -> bool { a <= x <= b || b <= x <= a }
    /// `x` is a tween of `a` and `b` at blend value `t`
    pub open spec fn tween(a: int, b: int, t: f64, x: int) -> bool {
        &&& key(t) == zero() ==> x == a
        &&& key(t) == one() ==> x == b
        &&& zero() <= key(t) <= one() ==> between(a, x, b)
        &&& key(t) >= one() ==> if b >= a { x >= b } else { x <= b }
        &&& key(t) <= zero() ==> if b >= a { x <= a } else { x >= a }
    }
    /// the integers of up to 64 bits
    pub open spec fn narrow<T: Int>() -> bool { T::lo() >= -0x8000_0000_0000_0000 && T::hi() <= 0xffff_ffff_ffff_ffff }

    //@struct tp_client::contract::properties::channels::misc::JumpTweenable
    impl<T> CanTween for JumpTweenable<T> {
        //@traitfn tp_client::contract::properties::channels::misc::CanTween@JumpTweenable::ease
        //@spec
        ensures !nan($A2.num()) ==> ret == if key($A2.num()) < one() { $A0 } else { $A1 }
        //@entry
        broadcast use float_order;
        //@end
    }
    //@struct tp_client::contract::properties::channels::misc::IntTweenable
    impl<T: PrimInt + AsPrimitive<f32> + FromPrimitive> CanTween for IntTweenable<T> {
        //@traitfn tp_client::contract::properties::channels::misc::CanTween@IntTweenable::ease
        //@spec
        ensures narrow::<T>() && finite($A2.num()) ==> tween($A0.0.v(), $A1.0.v(), $A2.num(), ret.0.v())
        //@entry
        broadcast use f64_arith;
        let ghost v_t = $A2.num();
        proof { $A0.0.ranges(); $A1.0.ranges(); assert(1i128 << 32i128 == 0x1_0000_0000) by (bit_vector); }
        //@closure 0
        |__c0: i128| -> (o: i128) ensures exact(__c0 as int) && finite(v_t) ==> scales(v_t, __c0 as int, o as int)
        //@end
    }
}

fn main() {}
} // verus!
