//! K01: the order of f64 that the contracts on channels assume.
use crate::given;
use crate::src::Src;
use std::cmp::Ordering;

/// the order of `a` and `b` on the number line, by their bits
fn key(x: f64) -> i128 {
    let b = x.to_bits() as i128;
    if b < 1 << 63 { b } else { (1 << 63) - b }
}
fn nan(x: f64) -> bool {
    x.to_bits() & !(1 << 63) > 0x7ff << 52
}
pub fn order(a: f64, b: f64) -> Option<Ordering> {
    if nan(a) || nan(b) { None } else { Some(key(a).cmp(&key(b))) }
}
pub fn k01_float_order<S: Src>(s: &mut S) {
    let (a, b) = (s.f64(), s.f64());
    let o = order(a, b);
    assert!(a.is_nan() == nan(a) && a.partial_cmp(&b) == o, "K01: comparison of times is their order on the number line");
    assert!((a < b) == (o == Some(Ordering::Less)) && (a > b) == (o == Some(Ordering::Greater)), "K01: comparison of times is their order on the number line");
    assert!((a <= b) == (o == Some(Ordering::Less) || o == Some(Ordering::Equal)), "K01: comparison of times is their order on the number line");
    assert!((a >= b) == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)), "K01: comparison of times is their order on the number line");
}

/// an integer f64 holds exactly: at most 2^53, or that many times 2^32
fn exact<S: Src>(s: &mut S) -> i128 {
    let (m, wide, down) = (s.u64(), s.bool(), s.bool());
    let i = ((m % ((1 << 53) + 1)) as i128) << if wide { 32 } else { 0 };
    if down { -i } else { i }
}
/// K02: what unit tween assumes of `(t * i as f64) as i128` (axiom f64_scales), except for t between zero and one
pub fn k02_f64_outer<S: Src>(s: &mut S) {
    let (i, t) = (exact(s), s.f64());
    given!(s, t.is_finite());
    let r = (t * i as f64) as i128;
    if i == 0 || t == 0.0 {
        assert!(r == 0, "K02: nothing, or nothing of something, is nothing");
    }
    if t == 1.0 {
        assert!(r == i, "K02: one times a number is the number");
    }
    if t <= 0.0 {
        assert!(if i >= 0 { r <= 0 } else { r >= 0 }, "K02: a negative factor turns the sign");
    }
}
pub fn k02_f64_over<S: Src>(s: &mut S) {
    let (i, t) = (exact(s), s.f64());
    given!(s, t.is_finite() && t >= 1.0);
    let r = (t * i as f64) as i128;
    assert!(if i >= 0 { r >= i } else { r <= i }, "K02: a factor above one makes no smaller");
}
/// ... and what is left of that case once float_product.v says where the product is
pub fn k02_f64_cut<S: Src>(s: &mut S) {
    let (i, y) = (exact(s), s.f64());
    let x = i as f64;
    given!(s, if i >= 0 { y >= 0.0 && y <= x } else { x <= y && y <= 0.0 });
    let r = y as i128;
    assert!(if i >= 0 { 0 <= r && r <= i } else { i <= r && r <= 0 }, "K02: cutting off the digits stays between zero and the number");
    assert!(x as i128 == i, "K02: the number is held exactly");
}
/// (the order `key` says: where zero and one are)
pub fn k02_f64_key<S: Src>(s: &mut S) {
    let t = s.f64();
    given!(s, !nan(t));
    assert!((t <= 0.0) == (key(t) <= 0) && (t >= 1.0) == (key(t) >= 0x3ff0_0000_0000_0000), "K02: zero and one are where they are");
    assert!((t >= 0.0) == (key(t) >= 0) && (t <= 1.0) == (key(t) <= 0x3ff0_0000_0000_0000), "K02: zero and one are where they are");
    assert!(t.is_finite() == (key(t).abs() < 0x7ff0_0000_0000_0000), "K02: the finite numbers are where they are");
}
