//! T01, T02, T03: time.
use crate::src::Src;
use tp_client::time::{ChannelTime, RealmTime, Ticks, TimeScale, TimeWarp};

fn sat(v: i64) -> i32 {
    v.clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

/// floor(v * scale / 1024), computed without the shift the implementation may use
fn scaled(v: i32, scale: i32) -> i32 {
    sat((v as i64 * scale as i64).div_euclid(1024))
}

pub fn t01_add<S: Src>(s: &mut S) {
    let (a, b) = (s.i32(), s.i32());
    let r = Ticks::new(a) + Ticks::new(b);
    assert!(r.as_millis() == sat(a as i64 + b as i64), "T01: the sum of two times is exact, or the nearest representable time");
}

pub fn t01_add_assign<S: Src>(s: &mut S) {
    let (a, b) = (s.i32(), s.i32());
    let mut r = Ticks::new(a);
    r += Ticks::new(b);
    assert!(r.as_millis() == sat(a as i64 + b as i64), "T01: adding in place agrees with addition");
}

pub fn t01_sub<S: Src>(s: &mut S) {
    let (a, b) = (s.i32(), s.i32());
    let r = Ticks::new(a) - Ticks::new(b);
    assert!(r.as_millis() == sat(a as i64 - b as i64), "T01: the difference of two times is exact, or the nearest representable time");
}

pub fn t01_sub_assign<S: Src>(s: &mut S) {
    let (a, b) = (s.i32(), s.i32());
    let mut r = Ticks::new(a);
    r -= Ticks::new(b);
    assert!(r.as_millis() == sat(a as i64 - b as i64), "T01: subtracting in place agrees with subtraction");
}


pub fn t01_mul<S: Src>(s: &mut S) {
    let (a, k) = (s.i32(), s.i32());
    let r = Ticks::new(a) * TimeScale::from(k);
    assert!(r.as_millis() == scaled(a, k), "T01: a scaled time is exact (rounded down to a tick), or the nearest representable time");
}

// The same obligation with the product of the specification written in other ways. All of them
// are the same number; which one a SAT solver can relate to the implementation depends on how
// the implementation writes its own product, so any one of them discharges the obligation.
pub fn t01_mul_alt1<S: Src>(s: &mut S) {
    let (a, k) = (s.i32(), s.i32());
    let r = Ticks::new(a) * TimeScale::from(k);
    assert!(r.as_millis() == scaled(k, a), "T01: a scaled time is exact (rounded down to a tick), or the nearest representable time");
}
pub fn t01_mul_alt2<S: Src>(s: &mut S) {
    let (a, k) = (s.i32(), s.i32());
    let r = Ticks::new(a) * TimeScale::from(k);
    assert!(r.as_millis() as i128 == wide(a as i128 * k as i128), "T01: a scaled time is exact (rounded down to a tick), or the nearest representable time");
}
pub fn t01_mul_alt3<S: Src>(s: &mut S) {
    let (a, k) = (s.i32(), s.i32());
    let r = Ticks::new(a) * TimeScale::from(k);
    assert!(r.as_millis() as i128 == wide(k as i128 * a as i128), "T01: a scaled time is exact (rounded down to a tick), or the nearest representable time");
}
fn wide(p: i128) -> i128 {
    p.div_euclid(1024).clamp(i32::MIN as i128, i32::MAX as i128)
}

pub fn t01_mul_assign<S: Src>(s: &mut S) {
    let (a, k) = (s.i32(), s.i32());
    let mut r = Ticks::new(a);
    r *= TimeScale::from(k);
    // t01_mul fixes the value of the product
    assert!(r == Ticks::new(a) * TimeScale::from(k), "T01: scaling in place agrees with scaling");
}

/// Every operator and method of an order says the same.
macro_rules! order { ($x:expr, $y:expr, $a:expr, $b:expr) => { {
    let (x, y, a, b) = ($x, $y, $a, $b);
    x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)) && (x == y) == (a == b) && (x != y) == (a != b)
        && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b)
        && x.max(y) == (if a > b { x } else { y }) && x.min(y) == (if a > b { y } else { x })
} } }
pub fn t01_order<S: Src>(s: &mut S) {
    let (a, b) = (s.i32(), s.i32());
    let (x, y) = (Ticks::new(a), Ticks::new(b));
    assert!(order!(x, y, a, b), "T01: times are ordered as their tick counts");
    let (x, y) = (ChannelTime::from(x), ChannelTime::from(y));
    assert!(order!(x, y, a, b) && x.ticks() == Ticks::new(a), "T01: channel times are ordered as their tick counts");
    let (mut x, y) = (RealmTime::from(Ticks::new(a)), RealmTime::from(Ticks::new(b)));
    assert!(order!(x, y, a, b) && x.ticks() == Ticks::new(a), "T01: realm times are ordered as their tick counts");
    *x.ticks_mut() = Ticks::new(b);
    assert!(x == y, "T01: setting a realm time's ticks sets that time");
}

fn warp(offset: i32, scale: i32) -> TimeWarp {
    TimeWarp { offset: Ticks::new(offset), scale: TimeScale::from(scale) }
}

// T01 (t01_sub, t01_mul) fixes the values of the difference and the product for every input.

pub fn t02_apply<S: Src>(s: &mut S) {
    let (p, o, k) = (s.i32(), s.i32(), s.i32());
    let r = warp(o, k).apply(ChannelTime::from(Ticks::new(p)));
    let d = Ticks::new(p) - Ticks::new(o);
    assert!(r.ticks() == d * TimeScale::from(k), "T02: object time is the scaled distance of the parent's time from the start offset");
}

pub fn t02_warp<S: Src>(s: &mut S) {
    let (p, o, k) = (s.i32(), s.i32(), s.i32());
    let t = ChannelTime::from(Ticks::new(p));
    assert!(t.warp(&warp(o, k)) == warp(o, k).apply(t), "T02: warping a time applies the warp to it");
}

pub fn t02_default<S: Src>(s: &mut S) {
    let p = s.i32();
    let t = ChannelTime::from(Ticks::new(p));
    assert!(TimeWarp::default().apply(t) == t, "T02: the default warp leaves every time as it is");
    assert!(TimeScale::default().numerator() == 1024, "T02: the default speed is 1x");
}

pub fn t02_start<S: Src>(s: &mut S) {
    let (o, k) = (s.i32(), s.i32());
    let r = warp(o, k).apply(ChannelTime::from(Ticks::new(o)));
    assert!(r == ChannelTime::default(), "T02: an object's time is zero when its parent's time is the offset");
}

pub fn t03_millis<S: Src>(s: &mut S) {
    let a = s.i32();
    let t = Ticks::new(a);
    assert!(t.as_millis() == a && t.as_millis_i64() == a as i64, "T03: milliseconds in, the same milliseconds out");
    assert!(Ticks::from(a) == t, "T03: a tick is a millisecond");
    assert!(Ticks::ticks_per_second() == 1000, "T03: there are 1000 ticks in a second");
}

pub fn t03_secs<S: Src>(s: &mut S) {
    let a = s.i32();
    let r = Ticks::new(a).as_secs() as i64;
    // r = a / 1000 rounded towards zero, without dividing
    let d = a as i64 - r * Ticks::ticks_per_second() as i64;
    assert!(d.abs() < 1000 && (d == 0 || (d < 0) == (a < 0)), "T03: whole seconds are the milliseconds over 1000, truncated");
}

pub fn t03_secs_f32<S: Src>(s: &mut S) {
    let a = s.i32();
    let r = Ticks::new(a).as_secs_f32();
    assert!(r == a as f32 / 1000.0, "T03: fractional seconds are the milliseconds over 1000");
}

pub fn t03_scale<S: Src>(s: &mut S) {
    let k = s.i32();
    let t = TimeScale::from(k);
    assert!(t.numerator() == k && t.numerator_as_i64() == k as i64, "T03: a speed keeps its numerator");
    assert!(TimeScale::denominator() as u32 == 1024 && 1u32 << TimeScale::denominator_as_log2() == 1024, "T03: speeds are in 1024ths");
    assert!(t.as_f64() == k as f64 / 1024.0, "T03: a speed's double is the numerator over 1024");
    assert!(t.as_f32() == k as f32 / 1024.0, "T03: a speed's float is the numerator over 1024");
}
