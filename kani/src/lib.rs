//! Kani harnesses: every property body of /verif/props over fully symbolic inputs, against the
//! real crates in /repo.
#![cfg(kani)]
#[macro_use]
#[path = "../../props/sym.rs"]
mod sym;
#[path = "../../props/src.rs"]
mod src;
#[path = "../../props/time.rs"]
mod time;
#[path = "../../props/float.rs"]
mod float;

proofs! {
    time::t01_add; time::t01_add_assign; time::t01_sub; time::t01_sub_assign; time::t01_mul;
    time::t01_mul_alt1; time::t01_mul_alt2; time::t01_mul_alt3; time::t01_mul_assign; time::t01_order;
    time::t02_apply; time::t02_warp; time::t02_default; time::t02_start;
    time::t03_millis; time::t03_secs; time::t03_secs_f32; time::t03_scale;
    float::k01_float_order;
}
