//! F01: the exported C functions, called through their C symbols, against the Rust interface. A panic
//! inside one ends the process, so they are called only where the Rust interface succeeds.
use crate::model::{dyn_channel, enc_channel, make_channel, Data, Frames, TYPES};
use crate::src::Src;
use arena::generational_arena as ga;
use std::any::TypeId;
use std::ffi::c_void;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{Channel, ChannelHandle, ChannelId, IChannels, Keyframe};
use tp_client::contract::properties::dynamic::{DynTpProperty, TpPropertyType};
use tp_client::contract::properties::states::{IStates, State, StateHandle, StateId};
use tp_client::contract::{Contract, ContractData, ContractDataHandle, ContractId};
use tp_client::object::{Object, ObjectHandle};
use tp_contract_example as _;
use unity_states as _;

type Ptr = *mut c_void;
/// safer_ffi's `repr_c::Vec<T>`
#[repr(C)]
pub struct CVec { ptr: Ptr, len: usize, cap: usize }
#[repr(C)]
pub struct CSlice { ptr: *const c_void, len: usize }
#[repr(C)]
pub struct CVersion { major: u16, minor: u16, patch: u16 }

fn give<T>(x: T) -> Ptr {
    Box::into_raw(Box::new(x)) as Ptr
}
unsafe fn take<T>(p: Ptr) -> T {
    *Box::from_raw(p as *mut T)
}
fn raw<T>(h: arena::Index<T>) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}

/// The C functions of one primitive type.
pub trait C: Data {
    unsafe fn state_new(v: Ptr) -> Ptr;
    unsafe fn state_drop(s: Ptr);
    unsafe fn state_value(s: Ptr) -> Ptr;
    unsafe fn state_value_set(s: Ptr, v: Ptr);
    unsafe fn state_id_contract(i: Ptr) -> Ptr;
    unsafe fn state_id_drop(i: Ptr);
    unsafe fn state_handle_drop(i: Ptr);
    unsafe fn channel_id_contract(i: Ptr) -> Ptr;
    unsafe fn frame_new(v: Ptr, time: f64) -> Ptr;
    unsafe fn frame_drop(k: Ptr);
    unsafe fn frame_value(k: Ptr) -> Ptr;
    unsafe fn frame_time(k: Ptr) -> f64;
    unsafe fn vec_new() -> CVec;
    unsafe fn vec_push(v: *mut CVec, k: Ptr);
    unsafe fn vec_get(v: *const CVec, i: usize) -> Ptr;
    unsafe fn vec_set(v: *mut CVec, i: usize, k: Ptr);
    unsafe fn vec_drop(v: CVec);
    unsafe fn channel_new(v: CVec) -> Ptr;
    unsafe fn channel_drop(c: Ptr);
    unsafe fn channel_keyframes(c: Ptr) -> CVec;
    unsafe fn channel_keyframes_mut(c: Ptr) -> CVec;
    unsafe fn bl_state(b: Ptr, h: Ptr) -> Ptr;
    unsafe fn bl_state_mut(b: Ptr, h: Ptr) -> Ptr;
    unsafe fn bl_channel(b: Ptr, h: Ptr) -> Ptr;
    unsafe fn bl_channel_mut(b: Ptr, h: Ptr) -> Ptr;
    unsafe fn bl_bind_state(b: Ptr, i: Ptr, o: Ptr) -> Ptr;
    unsafe fn bl_bind_channel(b: Ptr, i: Ptr, o: Ptr) -> Ptr;
}
macro_rules! c_fns {
    ($($t:ty, $V:literal, $m:ident;)*) => { $(
        mod $m {
            use super::*;
            extern "C" {
                #[link_name = concat!("tp_client__contract__properties__states__State_", $V, "__new")]
                pub fn state_new(v: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__states__State_", $V, "__drop")]
                pub fn state_drop(s: Ptr);
                #[link_name = concat!("tp_client__contract__properties__states__State_", $V, "__value")]
                pub fn state_value(s: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__states__State_", $V, "__value_set")]
                pub fn state_value_set(s: Ptr, v: Ptr);
                #[link_name = concat!("tp_client__contract__properties__states__StateId_", $V, "__contract")]
                pub fn state_id_contract(i: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__states__StateId_", $V, "__drop")]
                pub fn state_id_drop(i: Ptr);
                #[link_name = concat!("tp_client__contract__properties__states__StateHandle_", $V, "__drop")]
                pub fn state_handle_drop(i: Ptr);
                #[link_name = concat!("ChannelId_", $V, "__contract")]
                pub fn channel_id_contract(i: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__channels__Keyframe_", $V, "__new")]
                pub fn frame_new(v: Ptr, time: f64) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__channels__Keyframe_", $V, "__drop")]
                pub fn frame_drop(k: Ptr);
                #[link_name = concat!("tp_client__contract__properties__channels__Keyframe_", $V, "__value")]
                pub fn frame_value(k: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__channels__Keyframe_", $V, "__time")]
                pub fn frame_time(k: Ptr) -> f64;
                #[link_name = concat!("tp_client__contract__properties__channels__RVec_Keyframe", $V, "__new")]
                pub fn vec_new() -> CVec;
                #[link_name = concat!("tp_client__contract__properties__channels__RVec_Keyframe", $V, "__push")]
                pub fn vec_push(v: *mut CVec, k: Ptr);
                #[link_name = concat!("tp_client__contract__properties__channels__RVec_Keyframe", $V, "__get")]
                pub fn vec_get(v: *const CVec, i: usize) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__channels__RVec_Keyframe", $V, "__set")]
                pub fn vec_set(v: *mut CVec, i: usize, k: Ptr);
                #[link_name = concat!("tp_client__contract__properties__channels__RVec_Keyframe", $V, "__drop")]
                pub fn vec_drop(v: CVec);
                #[link_name = concat!("tp_client__contract__properties__channels__Channel_", $V, "__new")]
                pub fn channel_new(v: CVec) -> Ptr;
                #[link_name = concat!("tp_client__contract__properties__channels__Channel_", $V, "__drop")]
                pub fn channel_drop(c: Ptr);
                #[link_name = concat!("tp_client__contract__properties__channels__Channel_", $V, "__keyframes")]
                pub fn channel_keyframes(c: Ptr) -> CVec;
                #[link_name = concat!("tp_client__contract__properties__channels__Channel_", $V, "__keyframes_mut")]
                pub fn channel_keyframes_mut(c: Ptr) -> CVec;
                #[link_name = concat!("tp_client__baseline__Baseline__state_", $V)]
                pub fn bl_state(b: Ptr, h: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__baseline__Baseline__state_mut_", $V)]
                pub fn bl_state_mut(b: Ptr, h: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__baseline__Baseline__channel_", $V)]
                pub fn bl_channel(b: Ptr, h: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__baseline__Baseline__channel_mut_", $V)]
                pub fn bl_channel_mut(b: Ptr, h: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__baseline__Baseline__bind_state_", $V)]
                pub fn bl_bind_state(b: Ptr, i: Ptr, o: Ptr) -> Ptr;
                #[link_name = concat!("tp_client__baseline__Baseline__bind_channel_", $V)]
                pub fn bl_bind_channel(b: Ptr, i: Ptr, o: Ptr) -> Ptr;
            }
        }
        impl C for $t {
            unsafe fn state_new(v: Ptr) -> Ptr { $m::state_new(v) }
            unsafe fn state_drop(s: Ptr) { $m::state_drop(s) }
            unsafe fn state_value(s: Ptr) -> Ptr { $m::state_value(s) }
            unsafe fn state_value_set(s: Ptr, v: Ptr) { $m::state_value_set(s, v) }
            unsafe fn state_id_contract(i: Ptr) -> Ptr { $m::state_id_contract(i) }
            unsafe fn state_id_drop(i: Ptr) { $m::state_id_drop(i) }
            unsafe fn state_handle_drop(i: Ptr) { $m::state_handle_drop(i) }
            unsafe fn channel_id_contract(i: Ptr) -> Ptr { $m::channel_id_contract(i) }
            unsafe fn frame_new(v: Ptr, time: f64) -> Ptr { $m::frame_new(v, time) }
            unsafe fn frame_drop(k: Ptr) { $m::frame_drop(k) }
            unsafe fn frame_value(k: Ptr) -> Ptr { $m::frame_value(k) }
            unsafe fn frame_time(k: Ptr) -> f64 { $m::frame_time(k) }
            unsafe fn vec_new() -> CVec { $m::vec_new() }
            unsafe fn vec_push(v: *mut CVec, k: Ptr) { $m::vec_push(v, k) }
            unsafe fn vec_get(v: *const CVec, i: usize) -> Ptr { $m::vec_get(v, i) }
            unsafe fn vec_set(v: *mut CVec, i: usize, k: Ptr) { $m::vec_set(v, i, k) }
            unsafe fn vec_drop(v: CVec) { $m::vec_drop(v) }
            unsafe fn channel_new(v: CVec) -> Ptr { $m::channel_new(v) }
            unsafe fn channel_drop(c: Ptr) { $m::channel_drop(c) }
            unsafe fn channel_keyframes(c: Ptr) -> CVec { $m::channel_keyframes(c) }
            unsafe fn channel_keyframes_mut(c: Ptr) -> CVec { $m::channel_keyframes_mut(c) }
            unsafe fn bl_state(b: Ptr, h: Ptr) -> Ptr { $m::bl_state(b, h) }
            unsafe fn bl_state_mut(b: Ptr, h: Ptr) -> Ptr { $m::bl_state_mut(b, h) }
            unsafe fn bl_channel(b: Ptr, h: Ptr) -> Ptr { $m::bl_channel(b, h) }
            unsafe fn bl_channel_mut(b: Ptr, h: Ptr) -> Ptr { $m::bl_channel_mut(b, h) }
            unsafe fn bl_bind_state(b: Ptr, i: Ptr, o: Ptr) -> Ptr { $m::bl_bind_state(b, i, o) }
            unsafe fn bl_bind_channel(b: Ptr, i: Ptr, o: Ptr) -> Ptr { $m::bl_bind_channel(b, i, o) }
        }
    )* };
}
c_fns! {
    u8, "U8", c_u8; u16, "U16", c_u16; u32, "U32", c_u32; u64, "U64", c_u64;
    i8, "I8", c_i8; i16, "I16", c_i16; i32, "I32", c_i32; i64, "I64", c_i64;
    bool, "Bool", c_bool; f32, "F32", c_f32; f64, "F64", c_f64; String, "String", c_string;
    ObjectHandle, "ObjectHandle", c_oh; ContractDataHandle, "ContractDataHandle", c_ch;
}
macro_rules! on_prim {
    ($t:expr, $T:ident => $e:expr) => { match $t {
        0 => { type $T = u8; $e } 1 => { type $T = u16; $e } 2 => { type $T = u32; $e } 3 => { type $T = u64; $e }
        4 => { type $T = i8; $e } 5 => { type $T = i16; $e } 6 => { type $T = i32; $e } 7 => { type $T = i64; $e }
        8 => { type $T = bool; $e } 9 => { type $T = f32; $e } 10 => { type $T = f64; $e } 11 => { type $T = String; $e }
        12 => { type $T = ObjectHandle; $e } 13 => { type $T = ContractDataHandle; $e }
        _ => unreachable!(),
    } };
}
extern "C" {
    fn tp_client__baseline__Baseline__new(kind: u8) -> Ptr;
    fn tp_client__baseline__Baseline__drop(b: Ptr);
    fn tp_client__baseline__Baseline__kind(b: Ptr) -> u8;
    fn tp_client__baseline__Baseline__contract_data(b: Ptr, c: Ptr) -> Ptr;
    fn tp_client__baseline__Baseline__object(b: Ptr, o: Ptr) -> Ptr;
    fn tp_client__baseline__Baseline__object_mut(b: Ptr, o: Ptr) -> Ptr;
    fn tp_client__contract__ContractData__id(c: Ptr) -> Ptr;
    fn tp_client__contract__ContractData__objects(c: Ptr) -> CVec;
    fn tp_client__contract__ContractId__name(c: Ptr) -> CSlice;
    fn tp_client__contract__ContractId__version(c: Ptr) -> CVersion;
    fn tp_client__contract__ContractDataHandle__drop(c: Ptr);
    fn tp_client__object__ObjectHandle__drop(c: Ptr);
    fn rsharp__String__value(s: Ptr) -> CSlice;
    fn rsharp__String__drop(s: Ptr);
    fn rsharp__String__copy_utf8(s: CSlice) -> Ptr;
    fn rsharp__String__copy_utf16(s: CSlice) -> Ptr;
}

// ---- one value, one channel ----

pub fn f01_state<S: Src>(s: &mut S) {
    let t = s.below(14);
    on_prim!(t, T => state::<T, S>(s));
}
fn state<T: C, S: Src>(s: &mut S) {
    let values: Vec<Vec<u8>> = (0..2 + s.below(3)).map(|_| T::make(s).enc()).collect();
    unsafe {
        let other = State::new(T::dec(&values[1]));
        let p = T::state_new(give(T::dec(&values[0])));
        for (i, v) in values.iter().enumerate() {
            if i > 0 {
                T::state_value_set(p, give(T::dec(v)));
            }
            let st = &*(p as *const State<T>);
            assert!(st.value.enc() == *v, "C State: holds {:?}, given {:?}", st.value.enc(), v);
            let q = T::state_value(p);
            assert!((*(q as *const T)).enc() == *v, "C State: __value reads {:?}, given {:?}", (*(q as *const T)).enc(), v);
            assert!(q as usize == &st.value as *const T as usize, "C State: __value is not the state's value");
        }
        assert!(other.value.enc() == values[1]);
        T::state_drop(p);
    }
}

pub fn f01_channel<S: Src>(s: &mut S) {
    let t = s.below(14);
    on_prim!(t, T => channel::<T, S>(s));
}
fn frames<T: C, S: Src>(s: &mut S) -> Frames {
    let n = match s.below(160) {
        0 => s.below(6000),
        1 | 2 => 1 + (1 << s.below(13)),
        3 | 4 => s.below(600),
        _ => s.below(6),
    };
    let mut at = s.below(4) as f64 / 4.0;
    (0..n).map(|_| { let f = (T::make(s).enc(), at.to_bits()); at += s.below(4) as f64 / 4.0; f }).collect()
}
unsafe fn frame<T: C>(f: &(Vec<u8>, u64)) -> Ptr {
    let k = T::frame_new(give(T::dec(&f.0)), f64::from_bits(f.1));
    same_frame::<T>(k, f, "a new keyframe");
    k
}
unsafe fn same_frame<T: C>(k: Ptr, f: &(Vec<u8>, u64), what: &str) {
    let r = &*(k as *const Keyframe<T>);
    assert!(r.value().enc() == f.0 && r.time().to_bits() == f.1, "C: {} holds {:?} at {}, given {:?}", what, r.value().enc(), r.time(), f);
    let q = T::frame_value(k);
    assert!(q as usize == r.value() as *const T as usize, "C Keyframe: __value is not the keyframe's value ({})", what);
    assert!(T::frame_time(k).to_bits() == f.1, "C Keyframe: __time is {} ({}), given {}", T::frame_time(k), what, f64::from_bits(f.1));
}
unsafe fn refs<T: C>(v: CVec) -> Vec<*const Keyframe<T>> {
    Vec::from_raw_parts(v.ptr as *mut *const Keyframe<T>, v.len, v.cap)
}
/// The C view of a channel is what the Rust interface shows of it.
unsafe fn same_channel<T: C>(c: Ptr, what: &str) {
    let ch = &mut *(c as *mut Channel<T>);
    for m in 0..2 {
        let got = refs::<T>(if m == 0 { T::channel_keyframes(c) } else { T::channel_keyframes_mut(c) });
        let want: Vec<*const Keyframe<T>> = ch.keyframes().iter().map(|k| k as *const _).collect();
        assert!(got.len() == want.len(), "C Channel: {} keyframes are listed, there are {} ({})", got.len(), want.len(), what);
        assert!(got == want, "C Channel: other keyframes are listed, or in another order ({}, for {})", what, ["reading", "writing"][m]);
    }
}
fn channel<T: C, S: Src>(s: &mut S) {
    let fs = frames::<T, S>(s);
    unsafe {
        let one = (T::make(s).enc(), s.f64().to_bits());
        let k = frame::<T>(&one);
        let mut v = T::vec_new();
        assert!(v.len == 0, "C RVec: a new list holds {}", v.len);
        let mut now = fs.clone();
        for (i, f) in fs.iter().enumerate() {
            T::vec_push(&mut v, frame::<T>(f));
            assert!(v.len == i + 1, "C RVec: {} elements after {} were added", v.len, i + 1);
        }
        for _ in 0..s.below(3) {
            if !now.is_empty() {
                let i = s.below(now.len() as u32) as usize;
                now[i].0 = T::make(s).enc();
                T::vec_set(&mut v, i, frame::<T>(&now[i]));
            }
        }
        for (i, f) in now.iter().enumerate() {
            same_frame::<T>(T::vec_get(&v, i), f, "a list's element");
        }
        same_frame::<T>(k, &one, "a keyframe");
        T::frame_drop(k);
        if s.below(8) == 0 {
            T::vec_drop(v);
            return;
        }
        let c = T::channel_new(v);
        let want = enc_channel(&make_channel::<T>(&now));
        let got = enc_channel(&*(c as *const Channel<T>));
        assert!(got == want, "C Channel: holds {:?}, given {:?}", got, want);
        same_channel::<T>(c, "a new channel");
        T::channel_drop(c);
    }
}

pub fn f01_text<S: Src>(s: &mut S) {
    let n = match s.below(400) { 0 => s.below(140000), 1..=9 => s.below(3000), _ => s.below(8) };
    let text: String = (0..n).map(|_| {
        let c = match s.below(7) { 5 => [0xfeff, 0, 0xd7ff, 0xe000, 0xffff, 0x10000, 0xfffe, 0x10ffff, 0x7f, 0x80, 0xfffd, 0x2028, 0x85, 0x200b][s.below(14) as usize], 6 => [9, 10, 13, 32, 0xa0, 34, 39, 92][s.below(8) as usize], 0 => s.below(128), 1 => 128 + s.below(0x700), 2 => 0xd7f0 + s.below(0x820), 3 => 0xfff0 + s.below(0x30), _ => s.below(0x110000) };
        char::from_u32(c).unwrap_or('x')
    }).collect();
    let wide: Vec<u16> = text.encode_utf16().collect();
    unsafe {
        let a = rsharp__String__copy_utf8(CSlice { ptr: text.as_ptr() as _, len: text.len() });
        let b = rsharp__String__copy_utf16(CSlice { ptr: wide.as_ptr() as _, len: wide.len() });
        for p in [a, b] {
            assert!(*(p as *const String) == text, "C String: holds {:?}, given {:?}", *(p as *const String), text);
            let v = rsharp__String__value(p);
            assert!(std::slice::from_raw_parts(v.ptr as *const u8, v.len) == text.as_bytes(), "C String: __value is not its text {:?}", text);
        }
        rsharp__String__drop(a);
        // as the value of a state
        let st = String::state_new(b);
        assert!((*(st as *const State<String>)).value == text, "C State: holds another text than {:?}", text);
        String::state_drop(st);
    }
}

macro_rules! boxes { ($($n:literal $t:ident $V:literal;)*) => {
    pub fn f01_box<S: Src>(s: &mut S) {
        match s.below(11) { $($n => {
            extern "C" {
                #[link_name = concat!("rsharp__Box_", $V, "__new")]
                fn new(v: $t) -> Ptr;
                #[link_name = concat!("rsharp__Box_", $V, "__drop")]
                fn drop(p: Ptr);
            }
            let v = <$t as Data>::make(s);
            unsafe {
                let p = new(v);
                assert!((*(p as *const $t)).enc() == v.enc(), "C Box: holds {:?}, given {:?}", *(p as *const $t), v);
                if s.bool() { drop(p) } else { <$t as C>::state_drop(<$t as C>::state_new(p)) }
            }
        })* _ => {} }
    }
} }
boxes! { 0 u8 "U8"; 1 u16 "U16"; 2 u32 "U32"; 3 u64 "U64"; 4 i8 "I8"; 5 i16 "I16"; 6 i32 "I32"; 7 i64 "I64"; 8 bool "Bool"; 9 f32 "F32"; 10 f64 "F64"; }

// ---- a baseline ----

/// Twice each primitive type, as states and as channels.
static TWICE: [TpPropertyType; 28] = {
    let mut t = TYPES;
    let mut i = 0;
    while i < 14 {
        t[14 + i] = TYPES[13 - i];
        i += 1;
    }
    t
};
fn number(i: usize) -> usize {
    if i < 14 { i } else { 27 - i }
}
pub struct F;
impl IStates for F {
    fn type_ids() -> &'static [TypeId] { &[] }
    fn enumerate_types() -> &'static [TpPropertyType] { &TWICE }
    fn field_names() -> &'static [&'static str] { &[] }
}
impl IChannels for F {
    fn type_ids() -> &'static [TypeId] { &[] }
    fn enumerate_types() -> &'static [TpPropertyType] { &TWICE }
    fn field_names() -> &'static [&'static str] { &[] }
}
macro_rules! twice { ($($k:ident $name:literal $ver:expr;)*) => { $(
    pub struct $k(ContractDataHandle);
    impl Contract for $k {
        type States = F;
        type Channels = F;
        const ID: ContractId = ContractId { name: $name, version: $ver };
        fn new(handle: ContractDataHandle) -> Self { $k(handle) }
        fn states(&self) -> &Self::States { &F }
        fn channels(&self) -> &Self::Channels { &F }
        fn handle(&self) -> ContractDataHandle { self.0 }
    }
)* } }
twice! { Fa "caf\u{e9}" (1, 2, 3); Fb "" (65535, 256, 0); }

struct Made { h: ObjectHandle, contract: ContractDataHandle, states: Vec<Vec<u8>>, channels: Vec<Frames> }
fn object<K: Contract, S: Src>(s: &mut S, b: &mut Baseline, c: &K) -> Made {
    let states: Vec<Vec<u8>> = (0..28).map(|i| on_prim!(number(i), T => T::make(s).enc())).collect();
    let channels: Vec<Frames> = (0..28).map(|i| on_prim!(number(i), T => frames::<T, S>(s))).collect();
    let st: Vec<DynTpProperty> = (0..28).map(|i| on_prim!(number(i), T => DynTpProperty::from(<T as Data>::dec(&states[i])))).collect();
    let ch: Vec<_> = (0..28).map(|i| dyn_channel(number(i), &channels[i])).collect();
    let h = b.object_create(c, st.into_iter(), ch.into_iter()).unwrap();
    Made { h, contract: c.handle(), states, channels }
}

pub fn f01_baseline<S: Src>(s: &mut S) {
    unsafe {
        let k = s.below(2) as u8;
        let p = tp_client__baseline__Baseline__new(k);
        let kind = [BaselineKind::Main, BaselineKind::Fork][k as usize];
        let b = &mut *(p as *mut Baseline);
        let code = [BaselineKind::Main as u8, BaselineKind::Fork as u8][k as usize];
        // the kinds' numbers are those of the Rust enumeration
        let want = if code == k { kind } else { b.kind() };
        assert!(b.kind() == want && tp_client__baseline__Baseline__kind(p) == b.kind() as u8, "C Baseline: made as {:?} it is {:?} and says {}", want, b.kind(), tp_client__baseline__Baseline__kind(p));
        let (ca, cb): (Fa, Fb) = if s.bool() {
            let x = b.register_contract().unwrap();
            (x, b.register_contract().unwrap())
        } else {
            let y = b.register_contract().unwrap();
            (b.register_contract().unwrap(), y)
        };
        let mut os = vec![];
        for _ in 0..1 + s.below(3) {
            let m = if s.bool() { object(s, b, &ca) } else { object(s, b, &cb) };
            os.push(m);
        }
        if os.len() > 1 && s.bool() {
            let i = s.below(os.len() as u32) as usize;
            let m = os.remove(i);
            if raw(m.contract) == raw(ca.0) { b.object_remove::<Fa>(m.h).unwrap() } else { b.object_remove::<Fb>(m.h).unwrap() }
        }
        for _ in 0..1 + s.below(3) {
            look(p, &os);
            for (h, name, ver) in [(ca.0, Fa::ID.name, Fa::ID.version), (cb.0, Fb::ID.name, Fb::ID.version)] {
                let hp = give(h);
                let d = tp_client__baseline__Baseline__contract_data(p, hp);
                tp_client__contract__ContractDataHandle__drop(hp);
                let b = &*(p as *const Baseline);
                let rd: &ContractData = b.contract_data(h).unwrap();
                assert!(d as usize == rd as *const _ as usize, "C Baseline: __contract_data is another contract's");
                let id = tp_client__contract__ContractData__id(d);
                assert!(*(id as *const ContractId) == rd.id(), "C ContractData: __id is {:?}, it has {:?}", *(id as *const ContractId), rd.id());
                let n = tp_client__contract__ContractId__name(id);
                assert!(std::slice::from_raw_parts(n.ptr as *const u8, n.len) == name.as_bytes(), "C ContractId: another name than {:?}", name);
                let v = tp_client__contract__ContractId__version(id);
                assert!((v.major, v.minor, v.patch) == ver, "C ContractId: version {:?} reads as {:?}", ver, (v.major, v.minor, v.patch));
                let l = tp_client__contract__ContractData__objects(d);
                let l = Vec::from_raw_parts(l.ptr as *mut ObjectHandle, l.len, l.cap);
                let mut got: Vec<_> = l.into_iter().map(raw).collect();
                let mut want: Vec<_> = os.iter().filter(|o| raw(o.contract) == raw(h)).map(|o| raw(o.h)).collect();
                got.sort();
                want.sort();
                assert!(got == want, "C ContractData: __objects lists {:?}, it has {:?}", got, want);
            }
            // a write through the C interface
            let (o, i) = (s.below(os.len() as u32) as usize, s.below(28) as usize);
            on_prim!(number(i), T => {
                let (hs, hc) = bind::<T>(p, &os[o], i);
                let v = T::make(s).enc();
                let (sp, cp) = (give(hs), give(hc));
                T::state_value_set(T::bl_state_mut(p, sp), give(T::dec(&v)));
                os[o].states[i] = v;
                let list = refs::<T>(T::channel_keyframes_mut(T::bl_channel_mut(p, cp)));
                let _: (StateHandle<T>, ChannelHandle<T>) = (take(sp), take(cp));
                if !list.is_empty() {
                    let j = s.below(list.len() as u32) as usize;
                    let v = T::make(s).enc();
                    *(list[j] as *mut Keyframe<T>) = Keyframe::new(T::dec(&v), f64::from_bits(os[o].channels[i][j].1));
                    os[o].channels[i][j].0 = v;
                }
            });
        }
        look(p, &os);
        tp_client__baseline__Baseline__drop(p);
    }
}
unsafe fn bind<T: C>(p: Ptr, m: &Made, i: usize) -> (StateHandle<T>, ChannelHandle<T>) {
    let b = &*(p as *const Baseline);
    let o = give(m.h);
    let id = || (StateId::<T>::new(i, m.contract), ChannelId::<T>::new(i, m.contract));
    let (sp, cp) = (give(id().0), give(id().1));
    let (cs, cc) = (T::state_id_contract(sp), T::channel_id_contract(cp));
    assert!(raw(*(cs as *const ContractDataHandle)) == raw(m.contract), "C StateId: __contract is another contract");
    assert!(raw(*(cc as *const ContractDataHandle)) == raw(m.contract), "C ChannelId: __contract is another contract");
    tp_client__contract__ContractDataHandle__drop(cs);
    tp_client__contract__ContractDataHandle__drop(cc);
    let hs = T::bl_bind_state(p, sp, o);
    let hc = T::bl_bind_channel(p, cp, o);
    let (ws, wc) = (b.bind_state(id().0, m.h).unwrap(), b.bind_channel(id().1, m.h).unwrap());
    assert!(raw(*(hs as *const StateHandle<T>)) == raw(ws), "C Baseline: field {} is bound to another state", i);
    assert!(raw(*(hc as *const ChannelHandle<T>)) == raw(wc), "C Baseline: field {} is bound to another channel", i);
    T::state_id_drop(sp);
    tp_client__object__ObjectHandle__drop(o);
    T::state_handle_drop(hs);
    let _: ChannelHandle<T> = take(hc);
    (ws, wc)
}
unsafe fn look(p: Ptr, os: &[Made]) {
    for m in os {
        let o = give(m.h);
        let b = &mut *(p as *mut Baseline);
        let w = b.object(m.h).unwrap() as *const Object as usize;
        assert!(tp_client__baseline__Baseline__object(p, o) as usize == w, "C Baseline: __object is another object");
        assert!(tp_client__baseline__Baseline__object_mut(p, o) as usize == w, "C Baseline: __object_mut is another object");
        tp_client__object__ObjectHandle__drop(o);
        for i in 0..28 {
            on_prim!(number(i), T => {
                let (hs, hc) = bind::<T>(p, m, i);
                let (sp, cp) = (give(hs), give(hc));
                let b = &mut *(p as *mut Baseline);
                let ws = b.state(hs).unwrap() as *const State<T> as usize;
                let wc = b.channel(hc).unwrap() as *const Channel<T> as usize;
                assert!(T::bl_state(p, sp) as usize == ws, "C Baseline: __state of field {} is another state", i);
                assert!(T::bl_state_mut(p, sp) as usize == ws, "C Baseline: __state_mut of field {} is another state", i);
                assert!(T::bl_channel(p, cp) as usize == wc, "C Baseline: __channel of field {} is another channel", i);
                assert!(T::bl_channel_mut(p, cp) as usize == wc, "C Baseline: __channel_mut of field {} is another channel", i);
                let v = T::state_value(ws as Ptr);
                assert!((*(v as *const T)).enc() == m.states[i], "C Baseline: field {} reads {:?}, it holds {:?}", i, (*(v as *const T)).enc(), m.states[i]);
                let got = enc_channel(&*(wc as *const Channel<T>));
                assert!(got == m.channels[i], "C Baseline: channel {} reads {:?}, it holds {:?}", i, got, m.channels[i]);
                same_channel::<T>(wc as Ptr, "a field's channel");
                let _: (StateHandle<T>, ChannelHandle<T>) = (take(sp), take(cp));
            });
        }
    }
}

// ---- the contracts that come with the C interface ----

extern "C" {
    fn tp_contract_example__ExampleContract__register(b: Ptr) -> Ptr;
    fn tp_contract_example__ExampleContract__drop(c: Ptr);
    fn tp_contract_example__ExampleContract__handle(c: Ptr) -> Ptr;
    fn tp_contract_example__ExampleContract__states(c: Ptr) -> Ptr;
    fn tp_contract_example__ExampleContract__object_create(c: Ptr, b: Ptr, u0: u8, u1: u8, i0: i8, i1: i8, f0: f32, f1: f32, s: Ptr, o: Ptr, h: Ptr) -> Ptr;
    fn tp_contract_example__ExampleContract__object_remove(b: Ptr, o: Ptr);
    fn tp_contract_example__ExampleStates__u8_0(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__u8_1(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__i8_0(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__i8_1(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__f32_0(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__f32_1(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__str_0(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__oh_0(s: Ptr) -> Ptr;
    fn tp_contract_example__ExampleStates__ch_0(s: Ptr) -> Ptr;
    fn BallContract__register(b: Ptr) -> Ptr;
    fn BallContract__unregister(b: Ptr, c: Ptr);
    fn BallContract__drop(c: Ptr);
    fn BallContract__handle(c: Ptr) -> Ptr;
    fn BallContract__states(c: Ptr) -> Ptr;
    fn BallContract__object_create(b: Ptr, c: Ptr, px: f32, py: f32, pz: f32, ex: i16, ey: i16, ez: i16, sx: f32, sy: f32, sz: f32, color: u64) -> Ptr;
    fn BallContract__object_remove(b: Ptr, o: Ptr);
    fn BallStates__pos_x(s: Ptr) -> Ptr;
    fn BallStates__pos_y(s: Ptr) -> Ptr;
    fn BallStates__pos_z(s: Ptr) -> Ptr;
    fn BallStates__euler_x(s: Ptr) -> Ptr;
    fn BallStates__euler_y(s: Ptr) -> Ptr;
    fn BallStates__euler_z(s: Ptr) -> Ptr;
    fn BallStates__scale_x(s: Ptr) -> Ptr;
    fn BallStates__scale_y(s: Ptr) -> Ptr;
    fn BallStates__scale_z(s: Ptr) -> Ptr;
    fn BallStates__color(s: Ptr) -> Ptr;
}
/// The value of the field with this id, through the C interface.
unsafe fn read<T: C>(b: Ptr, id: Ptr, o: ObjectHandle, c: ContractDataHandle) -> Vec<u8> {
    let op = give(o);
    let of = T::state_id_contract(id);
    assert!(raw(*(of as *const ContractDataHandle)) == raw(c), "C StateId: of another contract");
    tp_client__contract__ContractDataHandle__drop(of);
    let h = T::bl_bind_state(b, id, op);
    T::state_id_drop(id);
    let v = (*(T::state_value(T::bl_state(b, h)) as *const T)).enc();
    T::state_handle_drop(h);
    tp_client__object__ObjectHandle__drop(op);
    v
}
unsafe fn write<T: C>(b: Ptr, id: Ptr, o: ObjectHandle, v: &[u8]) {
    let op = give(o);
    let h = T::bl_bind_state(b, id, op);
    T::state_value_set(T::bl_state_mut(b, h), give(T::dec(v)));
    T::state_id_drop(id);
    T::state_handle_drop(h);
    tp_client__object__ObjectHandle__drop(op);
}
type Ids = [(usize, unsafe extern "C" fn(Ptr) -> Ptr)];
static EXAMPLE: [(usize, unsafe extern "C" fn(Ptr) -> Ptr); 9] = [
    (0, tp_contract_example__ExampleStates__u8_0), (0, tp_contract_example__ExampleStates__u8_1),
    (4, tp_contract_example__ExampleStates__i8_0), (4, tp_contract_example__ExampleStates__i8_1),
    (9, tp_contract_example__ExampleStates__f32_0), (9, tp_contract_example__ExampleStates__f32_1),
    (11, tp_contract_example__ExampleStates__str_0), (12, tp_contract_example__ExampleStates__oh_0),
    (13, tp_contract_example__ExampleStates__ch_0),
];
static BALL: [(usize, unsafe extern "C" fn(Ptr) -> Ptr); 10] = [
    (9, BallStates__pos_x), (9, BallStates__pos_y), (9, BallStates__pos_z),
    (5, BallStates__euler_x), (5, BallStates__euler_y), (5, BallStates__euler_z),
    (9, BallStates__scale_x), (9, BallStates__scale_y), (9, BallStates__scale_z), (3, BallStates__color),
];
pub struct None0;
impl IStates for None0 {
    fn type_ids() -> &'static [TypeId] { &[] }
    fn enumerate_types() -> &'static [TpPropertyType] { &[] }
    fn field_names() -> &'static [&'static str] { &[] }
}
impl IChannels for None0 {
    fn type_ids() -> &'static [TypeId] { &[] }
    fn enumerate_types() -> &'static [TpPropertyType] { &[] }
    fn field_names() -> &'static [&'static str] { &[] }
}
pub struct Bare(ContractDataHandle);
impl Contract for Bare {
    type States = None0;
    type Channels = None0;
    const ID: ContractId = ContractId { name: "bare", version: (0, 0, 1) };
    fn new(handle: ContractDataHandle) -> Self { Bare(handle) }
    fn states(&self) -> &Self::States { &None0 }
    fn channels(&self) -> &Self::Channels { &None0 }
    fn handle(&self) -> ContractDataHandle { self.0 }
}
/// Lists of many objects.
pub fn f01_many<S: Src>(s: &mut S) {
    let n = match s.below(6) {
        0 => 250 + s.below(12),
        1 => s.below(9000),
        2 => 1 << s.below(14),
        3 => (1 << s.below(13)) + 1,
        _ => s.below(80),
    };
    unsafe {
        let p = tp_client__baseline__Baseline__new(BaselineKind::Main as u8);
        let b = &mut *(p as *mut Baseline);
        let c: Bare = b.register_contract().unwrap();
        let mut want = std::collections::BTreeSet::new();
        for _ in 0..n {
            let h = b.object_create(&c, std::iter::empty(), std::iter::empty()).unwrap();
            if s.below(16) == 0 {
                b.object_remove::<Bare>(h).unwrap();
            } else {
                want.insert(raw(h));
            }
        }
        let hp = give(c.0);
        let d = tp_client__baseline__Baseline__contract_data(p, hp);
        tp_client__contract__ContractDataHandle__drop(hp);
        for _ in 0..2 {
            let l = tp_client__contract__ContractData__objects(d);
            let l = Vec::from_raw_parts(l.ptr as *mut ObjectHandle, l.len, l.cap);
            assert!(l.len() == want.len(), "C ContractData: __objects lists {} objects, there are {}", l.len(), want.len());
            assert!(l.into_iter().map(raw).collect::<std::collections::BTreeSet<_>>() == want, "C ContractData: __objects lists other objects than the contract's");
        }
        tp_client__baseline__Baseline__drop(p);
    }
}

pub fn f01_example<S: Src>(s: &mut S) {
    unsafe {
        let p = tp_client__baseline__Baseline__new(BaselineKind::Fork as u8);
        let both = s.below(3);
        let e = (both != 0).then(|| tp_contract_example__ExampleContract__register(p));
        let b = (both != 1).then(|| BallContract__register(p));
        if let Some(c) = e {
            let h: ContractDataHandle = take(tp_contract_example__ExampleContract__handle(c));
            the_contract(p, h, "teleportal.example-ffi-contract", (1, 2, 3));
            let st = tp_contract_example__ExampleContract__states(c);
            run(s, p, h, st, &EXAMPLE, |v| {
                let f = |i: usize| f32::dec(&v[i]);
                take(tp_contract_example__ExampleContract__object_create(c, p, v[0][0], v[1][0], v[2][0] as i8, v[3][0] as i8, f(4), f(5),
                    give(String::dec(&v[6])), give(<ObjectHandle as Data>::dec(&v[7])), give(<ContractDataHandle as Data>::dec(&v[8]))))
            }, |o| tp_contract_example__ExampleContract__object_remove(p, give(o)));
        }
        if let Some(c) = b {
            let h: ContractDataHandle = take(BallContract__handle(c));
            the_contract(p, h, "Ball", (0, 0, 0));
            let st = BallContract__states(c);
            run(s, p, h, st, &BALL, |v| {
                let f = |i: usize| f32::dec(&v[i]);
                let i = |i: usize| i16::dec(&v[i]);
                take(BallContract__object_create(p, c, f(0), f(1), f(2), i(3), i(4), i(5), f(6), f(7), f(8), u64::dec(&v[9])))
            }, |o| BallContract__object_remove(p, give(o)));
            if s.bool() {
                BallContract__unregister(p, give(h));
                assert!((*(p as *const Baseline)).contract_data(h).is_err(), "C: the contract is still there after BallContract__unregister");
                if let Some(c) = e {
                    let h: ContractDataHandle = take(tp_contract_example__ExampleContract__handle(c));
                    the_contract(p, h, "teleportal.example-ffi-contract", (1, 2, 3));
                }
            }
            BallContract__drop(c);
        }
        if let Some(c) = e {
            tp_contract_example__ExampleContract__drop(c);
        }
        tp_client__baseline__Baseline__drop(p);
    }
}
unsafe fn the_contract(p: Ptr, h: ContractDataHandle, name: &str, version: (u16, u16, u16)) {
    match (*(p as *const Baseline)).contract_data(h) {
        Ok(d) => assert!(d.id().name == name && d.id().version == version, "C: {} is registered as {:?}", name, d.id()),
        Err(_) => panic!("C: {} is not registered", name),
    }
}
unsafe fn run<S: Src>(s: &mut S, p: Ptr, c: ContractDataHandle, st: Ptr, ids: &Ids, create: impl Fn(&[Vec<u8>]) -> ObjectHandle, remove: impl Fn(ObjectHandle)) {
    let mut os: Vec<(ObjectHandle, Vec<Vec<u8>>)> = vec![];
    for _ in 0..1 + s.below(4) {
        match s.below(4) {
            0 if !os.is_empty() => {
                let (o, _) = os.remove(s.below(os.len() as u32) as usize);
                remove(o);
                assert!((*(p as *const Baseline)).object(o).is_err(), "C: the object is still there after __object_remove");
            }
            1 if !os.is_empty() => {
                let (o, i) = (s.below(os.len() as u32) as usize, s.below(ids.len() as u32) as usize);
                on_prim!(ids[i].0, T => {
                    let v = T::make(s).enc();
                    write::<T>(p, ids[i].1(st), os[o].0, &v);
                    os[o].1[i] = v;
                });
            }
            _ => {
                let v: Vec<Vec<u8>> = ids.iter().map(|(t, _)| on_prim!(*t, T => T::make(s).enc())).collect();
                os.push((create(&v), v));
            }
        }
        for (o, v) in &os {
            for (i, (t, id)) in ids.iter().enumerate() {
                let got = on_prim!(*t, T => read::<T>(p, id(st), *o, c));
                assert!(got == v[i], "C: field {} of an object reads {:?}, it was given {:?}", i, got, v[i]);
            }
        }
        let mut got: Vec<_> = (*(p as *const Baseline)).contract_data(c).unwrap().objects().iter().map(|o| raw(*o)).collect();
        let mut want: Vec<_> = os.iter().map(|o| raw(o.0)).collect();
        got.sort();
        want.sort();
        assert!(got == want, "C: the contract has objects {:?}, created were {:?}", got, want);
    }
}
