//! Kani harnesses over a private source file of /repo. See kani/src/lib.rs.
#![cfg(kani)]
#[macro_use]
#[path = "../../props/sym.rs"]
mod sym;
#[path = "../../props/src.rs"]
mod src;
#[path = "../../props/tween.rs"]
mod tween;
#[path = "../../props/float.rs"]
mod float;
proofs! {
    float::k02_f64_outer; float::k02_f64_over; float::k02_f64_cut; float::k02_f64_key; tween::k02_jump; tween::k02_u64_ends; tween::k02_u64_within; tween::k02_u64_near; tween::k02_u64_any; tween::k02_i64_ends; tween::k02_i64_within; tween::k02_i64_near; tween::k02_i64_any; tween::k02_u8_ends; tween::k02_u8_within; tween::k02_u8_near; tween::k02_u8_any; tween::k02_i8_ends; tween::k02_i8_within; tween::k02_i8_near; tween::k02_i8_any; tween::k02_u16_ends; tween::k02_u16_within; tween::k02_u16_near; tween::k02_u16_any; tween::k02_i16_ends; tween::k02_i16_within; tween::k02_i16_near; tween::k02_i16_any; tween::k02_u32_ends; tween::k02_u32_within; tween::k02_u32_near; tween::k02_u32_any; tween::k02_i32_ends; tween::k02_i32_within; tween::k02_i32_near; tween::k02_i32_any;
}
