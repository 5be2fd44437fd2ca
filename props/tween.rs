//! K02: tweening of values that are not themselves numbers on a line.
use crate::given;
use crate::src::Src;
use keyframe::CanTween;
#[path = "/repo/client/rust/src/contract/properties/channels/misc.rs"]
#[allow(dead_code)]
mod misc;
use misc::{IntTweenable, JumpTweenable};

pub fn k02_jump<S: Src>(s: &mut S) {
    let (a, b, t, u) = (s.u32(), s.u32(), s.f64(), s.f32());
    let r = JumpTweenable::ease(JumpTweenable(a), JumpTweenable(b), t).0;
    assert!(r == a || r == b, "K02: a jump is at one of its ends");
    if t < 1.0 {
        assert!(r == a, "K02: a jump stays at the start until the blend value is one");
    }
    if t >= 1.0 {
        assert!(r == b, "K02: a jump is at the target from the blend value one on");
    }
    let r = JumpTweenable::ease(JumpTweenable(a), JumpTweenable(b), u).0;
    if u < 1.0 {
        assert!(r == a, "K02: a jump stays at the start until the blend value is one");
    }
    if u >= 1.0 {
        assert!(r == b, "K02: a jump is at the target from the blend value one on");
    }
}

macro_rules! int_tweens { ($($t:ident $ends:ident $within:ident $near:ident $any:ident $loose:literal;)*) => { $(
    pub fn $ends<S: Src>(s: &mut S) {
        let (a, b) = (s.$t(), s.$t());
        let at = |x: f64| IntTweenable::ease(IntTweenable(a), IntTweenable(b), x).0;
        assert!(at(0.0) == a, "K02: an integer tween starts at the start");
        assert!(at(1.0) == b, "K02: an integer tween ends at the target");
    }
    pub fn $within<S: Src>(s: &mut S) {
        let (a, b, x) = (s.$t(), s.$t(), s.f64());
        given!(s, x >= 0.0 && x <= 1.0);
        let r = IntTweenable::ease(IntTweenable(a), IntTweenable(b), x).0;
        assert!(r >= a.min(b) && r <= a.max(b), "K02: an integer tween stays between its ends");
    }
    pub fn $near<S: Src>(s: &mut S) {
        // (times in 65536ths, where the exact place is easily told; for wide types within two)
        let (a, b, k) = (s.$t(), s.$t(), s.u32());
        given!(s, k <= 65536);
        let r = IntTweenable::ease(IntTweenable(a), IntTweenable(b), k as f64 / 65536.0).0;
        let exact = a as i128 * 65536 + k as i128 * (b as i128 - a as i128);
        assert!((r as i128 * 65536 - exact).abs() < 65536 << $loose, "K02: an integer tween is less than one from the exact value");
    }
    pub fn $any<S: Src>(s: &mut S) {
        let (a, b, x) = (s.$t(), s.$t(), s.f64());
        given!(s, x.is_finite());
        let r = IntTweenable::ease(IntTweenable(a), IntTweenable(b), x).0;
        // overshoot is on the side of the target, undershoot on the side of the start
        if x >= 1.0 {
            assert!(if b >= a { r >= b } else { r <= b }, "K02: an overshooting tween does not fall short of the target");
        }
        if x <= 0.0 {
            assert!(if b >= a { r <= a } else { r >= a }, "K02: an undershooting tween does not pass the start");
        }
    }
)* } }
int_tweens! {
    u64 k02_u64_ends k02_u64_within k02_u64_near k02_u64_any 1; i64 k02_i64_ends k02_i64_within k02_i64_near k02_i64_any 1;
    u8 k02_u8_ends k02_u8_within k02_u8_near k02_u8_any 0; i8 k02_i8_ends k02_i8_within k02_i8_near k02_i8_any 0;
    u16 k02_u16_ends k02_u16_within k02_u16_near k02_u16_any 0; i16 k02_i16_ends k02_i16_within k02_i16_near k02_i16_any 0;
    u32 k02_u32_ends k02_u32_within k02_u32_near k02_u32_any 0; i32 k02_i32_ends k02_i32_within k02_i32_near k02_i32_any 0;
}
