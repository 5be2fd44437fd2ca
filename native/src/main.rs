//! See props/harness.rs.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
#[path = "../../props/harness.rs"]
mod harness;
#[path = "../../props/src.rs"]
mod src;
#[cfg(any(feature = "t01", feature = "t02", feature = "t03"))]
#[path = "../../props/time.rs"]
mod time;
#[cfg(any(feature = "f01", feature = "a01", feature = "c01", feature = "c02", feature = "o01", feature = "o02", feature = "o03", feature = "o04", feature = "s01", feature = "s02", feature = "r01", feature = "i01", feature = "t02", feature = "d01", feature = "k01", feature = "d02", feature = "d03", feature = "e01"))]
#[path = "../../props/model.rs"]
mod model;
#[cfg(any(feature = "c02", feature = "o01", feature = "o02", feature = "o03", feature = "s01", feature = "a01", feature = "c01"))]
#[path = "../../props/scale.rs"]
mod scale;
#[cfg(any(feature = "a01", feature = "a02"))]
#[path = "../../props/arena.rs"]
mod arenas;
#[cfg(any(feature = "d01", feature = "d02", feature = "d03"))]
#[path = "../../props/dynamic.rs"]
mod dynamic;
#[cfg(any(feature = "r01", feature = "e01"))]
#[path = "../../props/engine.rs"]
mod engine;
#[cfg(any(feature = "k01"))]
#[path = "../../props/float.rs"]
mod float;
#[cfg(any(feature = "k01"))]
#[path = "../../props/channel.rs"]
mod channel;
#[cfg(feature = "m01")]
#[path = "../../props/decl.rs"]
mod decls;
#[cfg(feature = "f01")]
#[path = "../../props/capi.rs"]
mod capi;

/// Only the bodies of the properties asked for are compiled (one cargo feature each).
static BODIES: &[(&str, harness::Body)] = &[
    #[cfg(feature = "t01")]
    ("t01_add", time::t01_add::<harness::Rec>),
    #[cfg(feature = "t01")]
    ("t01_add_assign", time::t01_add_assign::<harness::Rec>),
    #[cfg(feature = "t01")]
    ("t01_sub", time::t01_sub::<harness::Rec>),
    #[cfg(feature = "t01")]
    ("t01_sub_assign", time::t01_sub_assign::<harness::Rec>),
    #[cfg(feature = "t01")]
    ("t01_mul", time::t01_mul::<harness::Rec>),
    #[cfg(feature = "t01")]
    ("t01_mul_assign", time::t01_mul_assign::<harness::Rec>),
    #[cfg(feature = "t01")]
    ("t01_order", time::t01_order::<harness::Rec>),
    #[cfg(feature = "t02")]
    ("t02_apply", time::t02_apply::<harness::Rec>),
    #[cfg(feature = "t02")]
    ("t02_warp", time::t02_warp::<harness::Rec>),
    #[cfg(feature = "t02")]
    ("t02_default", time::t02_default::<harness::Rec>),
    #[cfg(feature = "t02")]
    ("t02_start", time::t02_start::<harness::Rec>),
    #[cfg(feature = "a01")]
    ("a01_history", model::a01_history::<harness::Rec>),
    #[cfg(feature = "c01")]
    ("c01_history", model::c01_history::<harness::Rec>),
    #[cfg(feature = "c02")]
    ("c02_history", model::c02_history::<harness::Rec>),
    #[cfg(feature = "o01")]
    ("o01_history", model::o01_history::<harness::Rec>),
    #[cfg(feature = "o02")]
    ("o02_history", model::o02_history::<harness::Rec>),
    #[cfg(feature = "o03")]
    ("o03_history", model::o03_history::<harness::Rec>),
    #[cfg(feature = "o04")]
    ("o04_history", model::o04_history::<harness::Rec>),
    #[cfg(feature = "s01")]
    ("s01_history", model::s01_history::<harness::Rec>),
    #[cfg(feature = "s02")]
    ("s02_history", model::s02_history::<harness::Rec>),
    #[cfg(feature = "r01")]
    ("r01_history", model::r01_history::<harness::Rec>),
    #[cfg(feature = "i01")]
    ("i01_history", model::i01_history::<harness::Rec>),
    #[cfg(feature = "t02")]
    ("t02_history", model::t02_history::<harness::Rec>),
    #[cfg(feature = "d01")]
    ("d01_history", model::d01_history::<harness::Rec>),
    #[cfg(feature = "d01")]
    ("d01_static", dynamic::d01_static::<harness::Rec>),
    #[cfg(feature = "d01")]
    ("d01_tags_apart", dynamic::d01_tags_apart::<harness::Rec>),
    #[cfg(feature = "d01")]
    ("d01_value", dynamic::d01_value::<harness::Rec>),
    #[cfg(feature = "d01")]
    ("d01_handles", dynamic::d01_handles::<harness::Rec>),
    #[cfg(feature = "d01")]
    ("d01_channel", dynamic::d01_channel::<harness::Rec>),
    #[cfg(feature = "d02")]
    ("d02_convert", dynamic::d02_convert::<harness::Rec>),
    #[cfg(feature = "d02")]
    ("d02_borrow_mut", dynamic::d02_borrow_mut::<harness::Rec>),
    #[cfg(feature = "d03")]
    ("d03_same_type", dynamic::d03_same_type::<harness::Rec>),
    #[cfg(feature = "d03")]
    ("d03_other_type", dynamic::d03_other_type::<harness::Rec>),
    #[cfg(feature = "d03")]
    ("d03_vec", dynamic::d03_vec::<harness::Rec>),
    #[cfg(feature = "d03")]
    ("d03_vec_other_type", dynamic::d03_vec_other_type::<harness::Rec>),
    #[cfg(feature = "d03")]
    ("d03_value_and_list", dynamic::d03_value_and_list::<harness::Rec>),
    #[cfg(feature = "d03")]
    ("d03_refs", dynamic::d03_refs::<harness::Rec>),
    #[cfg(feature = "c02")]
    ("c02_many", scale::c02_many::<harness::Rec>),
    #[cfg(feature = "o02")]
    ("o02_many", scale::o02_many::<harness::Rec>),
    #[cfg(feature = "o03")]
    ("o03_many", scale::o03_many::<harness::Rec>),
    #[cfg(feature = "s01")]
    ("s01_many", scale::s01_many::<harness::Rec>),
    #[cfg(feature = "a01")]
    ("a01_many", scale::a01_many::<harness::Rec>),
    #[cfg(feature = "c01")]
    ("c01_contracts", scale::c01_contracts::<harness::Rec>),
    #[cfg(feature = "o01")]
    ("o01_contracts", scale::o01_contracts::<harness::Rec>),
    #[cfg(feature = "o03")]
    ("o03_contracts", scale::o03_contracts::<harness::Rec>),
    #[cfg(feature = "c02")]
    ("c02_contracts", scale::c02_contracts::<harness::Rec>),
    #[cfg(feature = "a01")]
    ("a01_wear", arenas::a01_wear::<harness::Rec>),
    #[cfg(feature = "a02")]
    ("a02_history", arenas::a02_history::<harness::Rec>),
    #[cfg(feature = "a02")]
    ("a02_keys", arenas::a02_keys::<harness::Rec>),
    #[cfg(feature = "r01")]
    ("r01_access", engine::r01_access::<harness::Rec>),
    #[cfg(feature = "e01")]
    ("e01_verdicts", engine::e01_verdicts::<harness::Rec>),
    #[cfg(feature = "e01")]
    ("e01_capacity", engine::e01_capacity::<harness::Rec>),
    #[cfg(feature = "e01")]
    ("e01_tick", engine::e01_tick::<harness::Rec>),
    #[cfg(feature = "k01")]
    ("k01_float_order", float::k01_float_order::<harness::Rec>),
    #[cfg(feature = "k01")]
    ("k01_keyframe", channel::k01_keyframe::<harness::Rec>),
    #[cfg(feature = "k01")]
    ("k01_channel", channel::k01_channel::<harness::Rec>),
    #[cfg(feature = "k01")]
    ("k01_nan", channel::k01_nan::<harness::Rec>),
    #[cfg(feature = "t03")]
    ("t03_millis", time::t03_millis::<harness::Rec>),
    #[cfg(feature = "t03")]
    ("t03_secs", time::t03_secs::<harness::Rec>),
    #[cfg(feature = "t03")]
    ("t03_secs_f32", time::t03_secs_f32::<harness::Rec>),
    #[cfg(feature = "t03")]
    ("t03_scale", time::t03_scale::<harness::Rec>),
    #[cfg(feature = "m01")]
    ("m01_decl", decls::m01_decl::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_state", capi::f01_state::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_channel", capi::f01_channel::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_box", capi::f01_box::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_text", capi::f01_text::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_baseline", capi::f01_baseline::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_many", capi::f01_many::<harness::Rec>),
    #[cfg(feature = "f01")]
    ("f01_example", capi::f01_example::<harness::Rec>),
];


fn main() {
    harness::run_main(BODIES)
}
