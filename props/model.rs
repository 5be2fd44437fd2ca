//! Histories of operations on a realm's two baselines, compared after every step with a reference
//! model that is written from the properties alone. Shared by A01 C01 C02 O01 O02 O03 O04 S01 S02
//! R01 I01: the body of a property runs the same histories and reports what concerns that property.
use crate::src::Src;
use arena::generational_arena as ga;
use std::any::TypeId;
use std::collections::BTreeSet;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::dyn_handle::DynChannelHandle;
use tp_client::contract::properties::channels::{
    Channel, ChannelHandle, ChannelId, ChannelsIter, DynChannel, DynChannelId, DynChannelMut,
    DynChannelRef, IChannelHandle, IChannels, Keyframe,
};
use tp_client::contract::properties::dynamic::{
    DynTpProperty, DynTpPropertyMut, DynTpPropertyRef, TpPrimitiveType as P, TpPropertyType,
};
use tp_client::contract::properties::states::{
    DynStateHandle, DynStateId, IStateHandle, IStates, StateHandle, StateId, StatesIter,
};
use tp_client::contract::properties::traits::ITpPropertyStatic;
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{Ticks, TimeScale, TimeWarp};

// ---- values of every type a field can have ----

pub trait Data: ITpPropertyStatic {
    fn make<S: Src>(s: &mut S) -> Self;
    fn enc(&self) -> Vec<u8>;
    fn dec(b: &[u8]) -> Self;
    /// what `old` is after `new` was written to a dynamic borrow of it: lists keep their length
    fn written(_old: &[u8], new: &[u8]) -> Vec<u8> { new.to_vec() }
}
macro_rules! num_data { ($($t:ident)*) => { $(impl Data for $t {
    fn make<S: Src>(s: &mut S) -> Self { s.$t() }
    fn enc(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    fn dec(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
})* } }
num_data!(u8 u16 u32 u64 i8 i16 i32 i64 f32 f64);
impl Data for bool {
    fn make<S: Src>(s: &mut S) -> Self { s.bool() }
    fn enc(&self) -> Vec<u8> { vec![*self as u8] }
    fn dec(b: &[u8]) -> Self { b[0] == 1 }
}
impl Data for String {
    fn make<S: Src>(s: &mut S) -> Self {
        if s.below(400) == 0 {
            return "long".repeat(s.below(5000) as usize);
        }
        ["", "a", "b", "aa", "h\u{e9}llo", "\0", "a much longer piece of text"][s.below(7) as usize].into()
    }
    fn enc(&self) -> Vec<u8> { self.as_bytes().to_vec() }
    fn dec(b: &[u8]) -> Self { String::from_utf8(b.to_vec()).unwrap() }
}
fn index<S: Src>(s: &mut S) -> ga::Index {
    ga::Index::from_raw_parts(s.below(5) as usize, s.below(5) as u64)
}
fn enc_index(i: ga::Index) -> Vec<u8> {
    let (a, b) = i.into_raw_parts();
    [(a as u64).to_le_bytes(), b.to_le_bytes()].concat()
}
fn dec_index(b: &[u8]) -> ga::Index {
    ga::Index::from_raw_parts(u64::from_le_bytes(b[..8].try_into().unwrap()) as usize, u64::from_le_bytes(b[8..].try_into().unwrap()))
}
impl Data for ObjectHandle {
    fn make<S: Src>(s: &mut S) -> Self { arena::Index::new(index(s)) }
    fn enc(&self) -> Vec<u8> { enc_index((*self).into()) }
    fn dec(b: &[u8]) -> Self { arena::Index::new(dec_index(b)) }
}
impl Data for ContractDataHandle {
    fn make<S: Src>(s: &mut S) -> Self { arena::Index::new(index(s)) }
    fn enc(&self) -> Vec<u8> { enc_index((*self).into()) }
    fn dec(b: &[u8]) -> Self { arena::Index::new(dec_index(b)) }
}
impl<T: Data> Data for Vec<T> where Vec<T>: ITpPropertyStatic {
    fn make<S: Src>(s: &mut S) -> Self {
        let mut v: Vec<T> = match s.below(400) {
            // long, the last element another
            0 => {
                let (n, a, b) = (s.below(6000), T::make(s).enc(), T::make(s));
                let mut v: Vec<T> = (0..n).map(|_| T::dec(&a)).collect();
                v.push(b);
                v
            }
            _ => (0..s.below(4)).map(|_| T::make(s)).collect(),
        };
        v.reserve(s.below(3) as usize * 5);
        v
    }
    fn enc(&self) -> Vec<u8> {
        self.iter().flat_map(|x| { let e = x.enc(); let mut v = (e.len() as u32).to_le_bytes().to_vec(); v.extend(e); v }).collect()
    }
    fn written(old: &[u8], new: &[u8]) -> Vec<u8> {
        let mut v = <Self as Data>::dec(old);
        put_all(&mut v, new);
        v.enc()
    }
    fn dec(mut b: &[u8]) -> Self {
        let mut v = vec![];
        while !b.is_empty() {
            let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
            v.push(T::dec(&b[4..n + 4]));
            b = &b[n + 4..];
        }
        v
    }
}

/// The 28 types, in the order of `on_type!`. Written out here, not taken from the code.
pub static TYPES: [TpPropertyType; 28] = {
    [A(P::U8), A(P::U16), A(P::U32), A(P::U64), A(P::I8), A(P::I16), A(P::I32), A(P::I64), A(P::Bool), A(P::F32),
     A(P::F64), A(P::String), A(P::ObjectHandle), A(P::ContractDataHandle),
     V(P::U8), V(P::U16), V(P::U32), V(P::U64), V(P::I8), V(P::I16), V(P::I32), V(P::I64), V(P::Bool), V(P::F32),
     V(P::F64), V(P::String), V(P::ObjectHandle), V(P::ContractDataHandle)]
};
/// Runs a closure without inlining it: one function with every type's code in it compiles very slowly.
#[inline(never)]
pub fn apart<R>(f: Box<dyn FnOnce() -> R + '_>) -> R {
    f()
}
#[macro_export]
macro_rules! on_type {
    ($t:expr, $T:ident => $e:expr) => { match $t {
        0 => { type $T = u8; $crate::model::apart(Box::new(|| $e)) } 1 => { type $T = u16; $crate::model::apart(Box::new(|| $e)) } 2 => { type $T = u32; $crate::model::apart(Box::new(|| $e)) } 3 => { type $T = u64; $crate::model::apart(Box::new(|| $e)) }
        4 => { type $T = i8; $crate::model::apart(Box::new(|| $e)) } 5 => { type $T = i16; $crate::model::apart(Box::new(|| $e)) } 6 => { type $T = i32; $crate::model::apart(Box::new(|| $e)) } 7 => { type $T = i64; $crate::model::apart(Box::new(|| $e)) }
        8 => { type $T = bool; $crate::model::apart(Box::new(|| $e)) } 9 => { type $T = f32; $crate::model::apart(Box::new(|| $e)) } 10 => { type $T = f64; $crate::model::apart(Box::new(|| $e)) } 11 => { type $T = String; $crate::model::apart(Box::new(|| $e)) }
        12 => { type $T = ObjectHandle; $crate::model::apart(Box::new(|| $e)) } 13 => { type $T = ContractDataHandle; $crate::model::apart(Box::new(|| $e)) }
        14 => { type $T = Vec<u8>; $crate::model::apart(Box::new(|| $e)) } 15 => { type $T = Vec<u16>; $crate::model::apart(Box::new(|| $e)) } 16 => { type $T = Vec<u32>; $crate::model::apart(Box::new(|| $e)) } 17 => { type $T = Vec<u64>; $crate::model::apart(Box::new(|| $e)) }
        18 => { type $T = Vec<i8>; $crate::model::apart(Box::new(|| $e)) } 19 => { type $T = Vec<i16>; $crate::model::apart(Box::new(|| $e)) } 20 => { type $T = Vec<i32>; $crate::model::apart(Box::new(|| $e)) } 21 => { type $T = Vec<i64>; $crate::model::apart(Box::new(|| $e)) }
        22 => { type $T = Vec<bool>; $crate::model::apart(Box::new(|| $e)) } 23 => { type $T = Vec<f32>; $crate::model::apart(Box::new(|| $e)) } 24 => { type $T = Vec<f64>; $crate::model::apart(Box::new(|| $e)) } 25 => { type $T = Vec<String>; $crate::model::apart(Box::new(|| $e)) }
        26 => { type $T = Vec<ObjectHandle>; $crate::model::apart(Box::new(|| $e)) } 27 => { type $T = Vec<ContractDataHandle>; $crate::model::apart(Box::new(|| $e)) }
        _ => unreachable!(),
    } };
}
/// The type number and contents of a borrowed dynamic value.
pub fn enc_ref(r: &DynTpPropertyRef<'_>) -> (usize, Vec<u8>) {
    use tp_client::contract::properties::dynamic::{DynTpPrimitiveRef as A, DynTpVecRef as V};
    match r {
        DynTpPropertyRef::Primitive(p) => match p {
            A::U8(x) => (0, x.enc()), A::U16(x) => (1, x.enc()), A::U32(x) => (2, x.enc()), A::U64(x) => (3, x.enc()),
            A::I8(x) => (4, x.enc()), A::I16(x) => (5, x.enc()), A::I32(x) => (6, x.enc()), A::I64(x) => (7, x.enc()),
            A::Bool(x) => (8, x.enc()), A::F32(x) => (9, x.enc()), A::F64(x) => (10, x.enc()), A::String(x) => (11, x.enc()),
            A::ObjectHandle(x) => (12, x.enc()), A::ContractDataHandle(x) => (13, x.enc()),
        },
        DynTpPropertyRef::Vec(p) => match p {
            V::U8(x) => (14, x.to_vec().enc()), V::U16(x) => (15, x.to_vec().enc()), V::U32(x) => (16, x.to_vec().enc()), V::U64(x) => (17, x.to_vec().enc()),
            V::I8(x) => (18, x.to_vec().enc()), V::I16(x) => (19, x.to_vec().enc()), V::I32(x) => (20, x.to_vec().enc()), V::I64(x) => (21, x.to_vec().enc()),
            V::Bool(x) => (22, x.to_vec().enc()), V::F32(x) => (23, x.to_vec().enc()), V::F64(x) => (24, x.to_vec().enc()), V::String(x) => (25, x.to_vec().enc()),
            V::ObjectHandle(x) => (26, x.to_vec().enc()), V::ContractDataHandle(x) => (27, x.to_vec().enc()),
        },
    }
}
fn put_all<T: Data>(x: &mut [T], new: &[u8]) where Vec<T>: ITpPropertyStatic {
    for (a, b) in x.iter_mut().zip(<Vec<T> as Data>::dec(new)) {
        *a = b;
    }
}
/// As `enc_ref`, and overwrites what is there with `new` when its type is `t`.
pub fn enc_mut(r: DynTpPropertyMut<'_>, t: usize, new: &[u8]) -> (usize, Vec<u8>, bool) {
    use tp_client::contract::properties::dynamic::{DynTpPrimitiveMut as A, DynTpVecMut as V};
    macro_rules! put { ($i:expr, $x:expr) => {{ let old = $x.enc(); if t == $i { *$x = Data::dec(new); } ($i, old, t == $i) }} }
    macro_rules! puts { ($i:expr, $x:expr) => {{ let old = $x.to_vec().enc(); if t == $i { put_all($x, new); } ($i, old, t == $i) }} }
    match r {
        DynTpPropertyMut::Primitive(p) => match p {
            A::U8(x) => put!(0, x), A::U16(x) => put!(1, x), A::U32(x) => put!(2, x), A::U64(x) => put!(3, x),
            A::I8(x) => put!(4, x), A::I16(x) => put!(5, x), A::I32(x) => put!(6, x), A::I64(x) => put!(7, x),
            A::Bool(x) => put!(8, x), A::F32(x) => put!(9, x), A::F64(x) => put!(10, x), A::String(x) => put!(11, x),
            A::ObjectHandle(x) => put!(12, x), A::ContractDataHandle(x) => put!(13, x),
        },
        DynTpPropertyMut::Vec(p) => match p {
            V::U8(x) => puts!(14, x), V::U16(x) => puts!(15, x), V::U32(x) => puts!(16, x), V::U64(x) => puts!(17, x),
            V::I8(x) => puts!(18, x), V::I16(x) => puts!(19, x), V::I32(x) => puts!(20, x), V::I64(x) => puts!(21, x),
            V::Bool(x) => puts!(22, x), V::F32(x) => puts!(23, x), V::F64(x) => puts!(24, x), V::String(x) => puts!(25, x),
            V::ObjectHandle(x) => puts!(26, x), V::ContractDataHandle(x) => puts!(27, x),
        },
    }
}

pub type Frames = Vec<(Vec<u8>, u64)>;
pub fn enc_channel<T: Data>(c: &Channel<T>) -> Frames {
    c.keyframes().iter().map(|k| (k.value().enc(), k.time().to_bits())).collect()
}
pub fn enc_channel_ref(r: &DynChannelRef<'_>) -> (usize, Frames) {
    use tp_client::contract::properties::channels::dyn_channel::{DynChannelPrimitiveRef as A, DynChannelVecRef as V};
    macro_rules! e { ($n:expr, $x:expr) => { ($n, enc_channel(*$x)) } }
    match r {
        DynChannelRef::Primitive(p) => match p {
            A::U8(x) => e!(0, x), A::U16(x) => e!(1, x), A::U32(x) => e!(2, x), A::U64(x) => e!(3, x),
            A::I8(x) => e!(4, x), A::I16(x) => e!(5, x), A::I32(x) => e!(6, x), A::I64(x) => e!(7, x),
            A::Bool(x) => e!(8, x), A::F32(x) => e!(9, x), A::F64(x) => e!(10, x), A::String(x) => e!(11, x),
            A::ObjectHandle(x) => e!(12, x), A::ContractDataHandle(x) => e!(13, x),
        },
        DynChannelRef::Vec(p) => match p {
            V::U8(x) => e!(14, x), V::U16(x) => e!(15, x), V::U32(x) => e!(16, x), V::U64(x) => e!(17, x),
            V::I8(x) => e!(18, x), V::I16(x) => e!(19, x), V::I32(x) => e!(20, x), V::I64(x) => e!(21, x),
            V::Bool(x) => e!(22, x), V::F32(x) => e!(23, x), V::F64(x) => e!(24, x), V::String(x) => e!(25, x),
            V::ObjectHandle(x) => e!(26, x), V::ContractDataHandle(x) => e!(27, x),
        },
    }
}
/// Clears the channel through a mutable dynamic reference; gives its type and former contents.
pub fn enc_channel_mut(r: DynChannelMut<'_>) -> (usize, Frames) {
    use tp_client::contract::properties::channels::dyn_channel::{DynChannelPrimitiveMut as A, DynChannelVecMut as V};
    macro_rules! e { ($n:expr, $x:expr) => {{ let f = enc_channel($x); $x.keyframes_mut().clear(); ($n, f) }} }
    match r {
        DynChannelMut::Primitive(p) => match p {
            A::U8(x) => e!(0, x), A::U16(x) => e!(1, x), A::U32(x) => e!(2, x), A::U64(x) => e!(3, x),
            A::I8(x) => e!(4, x), A::I16(x) => e!(5, x), A::I32(x) => e!(6, x), A::I64(x) => e!(7, x),
            A::Bool(x) => e!(8, x), A::F32(x) => e!(9, x), A::F64(x) => e!(10, x), A::String(x) => e!(11, x),
            A::ObjectHandle(x) => e!(12, x), A::ContractDataHandle(x) => e!(13, x),
        },
        DynChannelMut::Vec(p) => match p {
            V::U8(x) => e!(14, x), V::U16(x) => e!(15, x), V::U32(x) => e!(16, x), V::U64(x) => e!(17, x),
            V::I8(x) => e!(18, x), V::I16(x) => e!(19, x), V::I32(x) => e!(20, x), V::I64(x) => e!(21, x),
            V::Bool(x) => e!(22, x), V::F32(x) => e!(23, x), V::F64(x) => e!(24, x), V::String(x) => e!(25, x),
            V::ObjectHandle(x) => e!(26, x), V::ContractDataHandle(x) => e!(27, x),
        },
    }
}

// ---- contracts ----

/// State and channel fields of each test contract, as type numbers.
static STATES: [&[usize]; 6] = [&[0, 11], &[14, 2, 2], &[0, 11], &[], &ALL, &[11, 0]];
static CHANNELS: [&[usize]; 6] = [&[9], &[], &[9], &[], &ALL, &[9, 9, 27]];
/// The fields of the contracts 6 and 7 are chosen anew for each history.
#[derive(Clone, Copy)]
struct Any { numbers: &'static [usize], types: &'static [TpPropertyType] }
const NONE: Any = Any { numbers: &[], types: &[] };
thread_local!(static CHOSEN: std::cell::Cell<[Any; 4]> = const { std::cell::Cell::new([NONE; 4]) });
fn chosen(i: usize) -> Any {
    CHOSEN.with(|c| c.get()[i])
}
fn choose<S: Src>(s: &mut S) {
    let mut all = [NONE; 4];
    for a in all.iter_mut() {
        // few types, so that they repeat
        let few: Vec<usize> = (0..1 + s.below(4)).map(|_| s.below(28) as usize).collect();
        let n = match s.below(256) { 0..=7 => s.below(20), 8 => 250 + s.below(20), _ => s.below(7) };
        let numbers: Vec<usize> = (0..n).map(|_| if s.below(8) == 0 { s.below(28) as usize } else { few[s.below(few.len() as u32) as usize] }).collect();
        let types: Vec<TpPropertyType> = numbers.iter().map(|t| TYPES[*t]).collect();
        *a = Any { numbers: Box::leak(numbers.into_boxed_slice()), types: Box::leak(types.into_boxed_slice()) };
    }
    CHOSEN.with(|c| c.set(all));
}
fn states(k: usize) -> &'static [usize] {
    if k < 6 { STATES[k] } else { chosen(k - 6).numbers }
}
fn channels(k: usize) -> &'static [usize] {
    if k < 6 { CHANNELS[k] } else { chosen(k - 4).numbers }
}
static ALL: [usize; 28] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27];
static IDS: [(&str, (u16, u16, u16)); 8] =
    [("alpha", (1, 0, 0)), ("alpha", (1, 0, 1)), ("beta", (1, 0, 0)), ("alpha", (0, 1, 0)), ("all", (1, 2, 3)), ("alpha", (1, 1, 0)), ("", (0, 0, 0)), ("any", (u16::MAX, u16::MAX, u16::MAX))];
pub const KINDS: u32 = 8;

macro_rules! kinds { ($($n:literal $k:ident: $name:literal $ver:expr, [$($s:expr),*] [$($c:expr),*];)*) => { $(
    pub struct $k { handle: ContractDataHandle, fields: (Fields<$n>, Fields<$n>) }
    impl Contract for $k {
        type States = Fields<$n>;
        type Channels = Fields<$n>;
        const ID: ContractId = ContractId { name: $name, version: $ver };
        fn new(handle: ContractDataHandle) -> Self { $k { handle, fields: (Fields, Fields) } }
        fn states(&self) -> &Self::States { &self.fields.0 }
        fn channels(&self) -> &Self::Channels { &self.fields.1 }
        fn handle(&self) -> ContractDataHandle { self.handle }
    }
    impl IStates for Fields<$n> {
        fn type_ids() -> &'static [TypeId] { &[] }
        fn enumerate_types() -> &'static [TpPropertyType] { static T: &[TpPropertyType] = &[$($s),*]; if $n < 6 { T } else { chosen(($n as usize).saturating_sub(6)).types } }
        fn field_names() -> &'static [&'static str] { &[] }
    }
    impl IChannels for Fields<$n> {
        fn type_ids() -> &'static [TypeId] { &[] }
        fn enumerate_types() -> &'static [TpPropertyType] { static T: &[TpPropertyType] = &[$($c),*]; if $n < 6 { T } else { chosen(($n as usize).saturating_sub(4)).types } }
        fn field_names() -> &'static [&'static str] { &[] }
    }
)* } }
pub struct Fields<const N: u8>;
use TpPropertyType::{Primitive as A, Vec as V};
kinds! {
    0 K0: "alpha" (1, 0, 0), [A(P::U8), A(P::String)] [A(P::F32)];
    1 K1: "alpha" (1, 0, 1), [V(P::U8), A(P::U32), A(P::U32)] [];
    2 K2: "beta" (1, 0, 0), [A(P::U8), A(P::String)] [A(P::F32)];
    3 K3: "alpha" (0, 1, 0), [] [];
    4 K4: "all" (1, 2, 3), [A(P::U8), A(P::U16), A(P::U32), A(P::U64), A(P::I8), A(P::I16), A(P::I32), A(P::I64), A(P::Bool), A(P::F32),
     A(P::F64), A(P::String), A(P::ObjectHandle), A(P::ContractDataHandle),
     V(P::U8), V(P::U16), V(P::U32), V(P::U64), V(P::I8), V(P::I16), V(P::I32), V(P::I64), V(P::Bool), V(P::F32),
     V(P::F64), V(P::String), V(P::ObjectHandle), V(P::ContractDataHandle)] [A(P::U8), A(P::U16), A(P::U32), A(P::U64), A(P::I8), A(P::I16), A(P::I32), A(P::I64), A(P::Bool), A(P::F32),
     A(P::F64), A(P::String), A(P::ObjectHandle), A(P::ContractDataHandle),
     V(P::U8), V(P::U16), V(P::U32), V(P::U64), V(P::I8), V(P::I16), V(P::I32), V(P::I64), V(P::Bool), V(P::F32),
     V(P::F64), V(P::String), V(P::ObjectHandle), V(P::ContractDataHandle)];
    5 K5: "alpha" (1, 1, 0), [A(P::String), A(P::U8)] [A(P::F32), A(P::F32), V(P::ContractDataHandle)];
    6 K6: "" (0, 0, 0), [] [];
    7 K7: "any" (u16::MAX, u16::MAX, u16::MAX), [] [];
}
macro_rules! on_kind {
    ($k:expr, $C:ident => $e:expr) => { match $k {
        0 => { type $C = K0; apart(Box::new(|| $e)) } 1 => { type $C = K1; apart(Box::new(|| $e)) } 2 => { type $C = K2; apart(Box::new(|| $e)) } 3 => { type $C = K3; apart(Box::new(|| $e)) }
        4 => { type $C = K4; apart(Box::new(|| $e)) } 5 => { type $C = K5; apart(Box::new(|| $e)) } 6 => { type $C = K6; apart(Box::new(|| $e)) } 7 => { type $C = K7; apart(Box::new(|| $e)) } _ => unreachable!(),
    } };
}

// ---- the model ----

#[derive(Clone)]
struct MContract { handle: ContractDataHandle, kind: usize, live: bool }
#[derive(Clone)]
struct MObject {
    handle: ObjectHandle,
    contract: usize,
    live: bool,
    states: Vec<Vec<u8>>,
    channels: Vec<Frames>,
    warp: (i32, i32),
    /// handles of the fields, as bound right after creation
    state_handles: Vec<ga::Index>,
    channel_handles: Vec<ga::Index>,
}
#[derive(Clone, Default)]
struct Model { contracts: Vec<MContract>, objects: Vec<MObject> }
impl Model {
    fn live_contract(&self, h: ContractDataHandle) -> Option<usize> {
        self.contracts.iter().position(|c| c.live && same(c.handle, h))
    }
    fn live_object(&self, h: ObjectHandle) -> Option<usize> {
        self.objects.iter().position(|o| o.live && same(o.handle, h))
    }
}
fn raw<T>(h: arena::Index<T>) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}
fn same<T>(a: arena::Index<T>, b: arena::Index<T>) -> bool {
    raw(a) == raw(b)
}

/// Failures found after a step: the properties each concerns, and what is wrong.
struct Fails(Vec<(String, String)>);
impl Fails {
    fn check(&mut self, ok: bool, props: &str, what: impl FnOnce() -> String) {
        if !ok {
            self.0.push((props.into(), what()));
        }
    }
}

const N: [&str; 2] = ["main", "fork"];
const BK: [BaselineKind; 2] = [BaselineKind::Main, BaselineKind::Fork];

/// Where a dead or foreign handle resolves: try every way of reaching a field, for reading and for writing.
fn agree(w: [bool; 6], t: usize, what: &str, f: &mut Fails) -> bool {
    f.check(w.iter().all(|x| *x == w[0]), "S02", || format!("a {} handle of type {:?} resolves {:?} (baseline, handle, dynamic handle; for reading, for writing)", what, TYPES[t], w));
    w.iter().any(|x| *x)
}
fn state_resolves(b: &mut Baseline, t: usize, h: ga::Index, f: &mut Fails) -> bool {
    let w = on_type!(t, T => {
        let h: StateHandle<T> = arena::Index::new(h);
        let d = DynStateHandle::from(h);
        [b.state(h).is_ok(), h.get(b).is_ok(), d.get(b).is_ok(), b.state_mut(h).is_ok(), h.get_mut(b).is_ok(), d.get_mut(b).is_ok()]
    });
    agree(w, t, "state", f)
}
fn channel_resolves(b: &mut Baseline, t: usize, h: ga::Index, f: &mut Fails) -> bool {
    let w = on_type!(t, T => {
        let h: ChannelHandle<T> = arena::Index::new(h);
        let d = dyn_channel_handle(t, h.into());
        [b.channel(h).is_ok(), h.get(b).is_ok(), d.get(b).is_ok(), b.channel_mut(h).is_ok(), h.get_mut(b).is_ok(), d.get_mut(b).is_ok()]
    });
    agree(w, t, "channel", f)
}
pub fn dyn_channel_handle(t: usize, h: ga::Index) -> DynChannelHandle {
    use tp_client::contract::properties::channels::dyn_handle::{DynChannelHandlePrimitive as DA, DynChannelHandleVec as DV};
    if t < 14 {
        DynChannelHandle::Primitive(match t {
            0 => DA::U8(arena::Index::new(h)), 1 => DA::U16(arena::Index::new(h)), 2 => DA::U32(arena::Index::new(h)), 3 => DA::U64(arena::Index::new(h)),
            4 => DA::I8(arena::Index::new(h)), 5 => DA::I16(arena::Index::new(h)), 6 => DA::I32(arena::Index::new(h)), 7 => DA::I64(arena::Index::new(h)),
            8 => DA::Bool(arena::Index::new(h)), 9 => DA::F32(arena::Index::new(h)), 10 => DA::F64(arena::Index::new(h)), 11 => DA::String(arena::Index::new(h)),
            12 => DA::ObjectHandle(arena::Index::new(h)), _ => DA::ContractDataHandle(arena::Index::new(h)),
        })
    } else {
        DynChannelHandle::Vec(match t {
            14 => DV::U8(arena::Index::new(h)), 15 => DV::U16(arena::Index::new(h)), 16 => DV::U32(arena::Index::new(h)), 17 => DV::U64(arena::Index::new(h)),
            18 => DV::I8(arena::Index::new(h)), 19 => DV::I16(arena::Index::new(h)), 20 => DV::I32(arena::Index::new(h)), 21 => DV::I64(arena::Index::new(h)),
            22 => DV::Bool(arena::Index::new(h)), 23 => DV::F32(arena::Index::new(h)), 24 => DV::F64(arena::Index::new(h)), 25 => DV::String(arena::Index::new(h)),
            26 => DV::ObjectHandle(arena::Index::new(h)), _ => DV::ContractDataHandle(arena::Index::new(h)),
        })
    }
}

/// Compares a baseline with its model. `last` names the properties that the last operation on this
/// baseline is about.
fn compare(b: &mut Baseline, m: &Model, which: usize, last: &str, thorough: bool, f: &mut Fails) {
    let n = N[which];
    f.check(b.kind() == BK[which], "R01", || format!("the {} baseline calls itself {:?}", n, b.kind()));
    for c in &m.contracts {
        let got = b.contract_data(c.handle).ok().map(|d| (d.id(), d.objects().iter().map(|o| raw(*o)).collect::<BTreeSet<_>>(), d.objects().len()));
        // a dead handle may equal a live one only if the code reissued it
        let want = c.live.then(|| {
            let objs: BTreeSet<_> = m.objects.iter().filter(|o| o.live && same(m.contracts[o.contract].handle, c.handle)).map(|o| raw(o.handle)).collect();
            let n = objs.len();
            (ContractId { name: IDS[c.kind].0, version: IDS[c.kind].1 }, objs, n)
        });
        match (&got, &want) {
            (None, None) => {}
            (Some(_), None) => f.check(false, &format!("A01 {}", last), || format!("{}: a handle of an unregistered contract resolves", n)),
            (None, Some(_)) => f.check(false, last, || format!("{}: a registered contract is gone", n)),
            (Some(g), Some(w)) => {
                f.check(g.0 == w.0, last, || format!("{}: contract {:?} reads as {:?}", n, w.0, g.0));
                f.check(g.1 == w.1 && g.2 == w.2, last, || format!("{}: contract {:?} lists objects {:?}, it has {:?}", n, w.0, g.1, w.1));
            }
        }
    }
    let listed: Vec<_> = b.iter_objects().map(|(h, _)| raw(h)).collect();
    let mut sorted = listed.clone();
    sorted.sort();
    let mut want: Vec<_> = m.objects.iter().filter(|o| o.live).map(|o| raw(o.handle)).collect();
    want.sort();
    f.check(sorted == want, last, || format!("{}: iterating lists objects {:?}, there are {:?}", n, sorted, want));
    for o in &m.objects {
        let c = m.contracts[o.contract].handle;
        let kind = m.contracts[o.contract].kind;
        if !o.live {
            f.check(b.object(o.handle).is_err() && b.object_mut(o.handle).is_err(), &format!("A01 {}", last), || format!("{}: a handle of a removed object resolves", n));
            for (i, h) in o.state_handles.iter().enumerate() {
                let x = state_resolves(b, states(kind)[i], *h, f);
                f.check(!x, &format!("A01 {}", last), || format!("{}: the handle of state {} of a removed object resolves", n, i));
            }
            for (i, h) in o.channel_handles.iter().enumerate() {
                let x = channel_resolves(b, channels(kind)[i], *h, f);
                f.check(!x, &format!("A01 {}", last), || format!("{}: the handle of channel {} of a removed object resolves", n, i));
            }
            if let Some(i) = states(kind).first() {
                f.check(on_type!(*i, T => b.bind_state(StateId::<T>::new(0, c), o.handle).is_err()), &format!("A01 O04 {}", last), || format!("{}: a removed object binds a state", n));
            }
            if let Some(i) = channels(kind).first() {
                f.check(on_type!(*i, T => b.bind_channel(ChannelId::<T>::new(0, c), o.handle).is_err()), &format!("A01 O04 {}", last), || format!("{}: a removed object binds a channel", n));
            }
            continue;
        }
        match b.object(o.handle) {
            Err(_) => f.check(false, last, || format!("{}: a live object is gone", n)),
            Ok(obj) => {
                f.check(same(obj.contract(), c), &format!("O04 {}", last), || format!("{}: an object names another contract", n));
                let w = obj.time_warp();
                f.check(w.offset.as_millis() == o.warp.0 && w.scale.numerator() == o.warp.1, &format!("T02 {}", last), || format!("{}: an object's time warp is {:?}, was set to {:?}", n, w, o.warp));
            }
        }
        let step = |i: usize| thorough || i < 4 || states(kind).len() < 8;
        for (i, t) in states(kind).iter().enumerate().filter(|(i, _)| step(*i)) {
            let (got, dynamic) = on_type!(*t, T => {
                match b.bind_state(StateId::<T>::new(i, c), o.handle) {
                    Err(_) => (None, None),
                    Ok(h) => {
                        f.check(ga::Index::from(h) == o.state_handles[i], &format!("O04 {}", last), || format!("{}: state {} of an object is bound to another handle than before", n, i));
                        let d = DynStateHandle::from(h);
                        f.check(d.prop_type() == TYPES[*t] && h.prop_type() == TYPES[*t], "S02 D01", || format!("a handle of type {:?} reports {:?}/{:?}", TYPES[*t], d.prop_type(), h.prop_type()));
                        (b.state(h).ok().map(|s| s.value.enc()), d.get(b).ok().map(|r| enc_ref(&r.0)))
                    }
                }
            });
            f.check(dynamic == got.clone().map(|g| (*t, g)), "S02", || format!("{}: state {} read dynamically is {:?}, statically {:?} of type {:?}", n, i, dynamic, got, TYPES[*t]));
            f.check(got.as_ref() == Some(&o.states[i]), last, || format!("{}: state {} (type {:?}) of an object holds {:?}, should hold {:?}", n, i, TYPES[*t], got, o.states[i]));
        }
        for (i, t) in channels(kind).iter().enumerate().filter(|(i, _)| step(*i)) {
            let (got, dynamic) = on_type!(*t, T => {
                match b.bind_channel(ChannelId::<T>::new(i, c), o.handle) {
                    Err(_) => (None, None),
                    Ok(h) => {
                        f.check(ga::Index::from(h) == o.channel_handles[i], &format!("O04 {}", last), || format!("{}: channel {} of an object is bound to another handle than before", n, i));
                        let d = dyn_channel_handle(*t, h.into());
                        f.check(d.prop_type() == TYPES[*t] && h.prop_type() == TYPES[*t], "S02 D01", || format!("a channel handle of type {:?} reports {:?}/{:?}", TYPES[*t], d.prop_type(), h.prop_type()));
                        (b.channel(h).ok().map(enc_channel), d.get(b).ok().map(|r| {
                            f.check(r.prop_type() == TYPES[*t], "S02 D01", || format!("a channel of type {:?} reports {:?}", TYPES[*t], r.prop_type()));
                            enc_channel_ref(&r)
                        }))
                    }
                }
            });
            f.check(dynamic == got.clone().map(|g| (*t, g)), "S02", || format!("{}: channel {} read dynamically is {:?}, statically {:?} of type {:?}", n, i, dynamic, got, TYPES[*t]));
            f.check(got.as_ref() == Some(&o.channels[i]), last, || format!("{}: channel {} (type {:?}) of an object holds {:?}, should hold {:?}", n, i, TYPES[*t], got, o.channels[i]));
        }
    }
}

fn pick_contract<S: Src>(s: &mut S, m: &Model) -> ContractDataHandle {
    if m.contracts.is_empty() || s.below(12) == 0 {
        arena::Index::new(index(s))
    } else {
        m.contracts[s.below(m.contracts.len() as u32) as usize].handle
    }
}
fn pick_object<S: Src>(s: &mut S, m: &Model) -> ObjectHandle {
    if m.objects.is_empty() || s.below(12) == 0 {
        arena::Index::new(index(s))
    } else {
        m.objects[s.below(m.objects.len() as u32) as usize].handle
    }
}
/// The right contract type for this handle, or now and then any other.
fn pick_kind<S: Src>(s: &mut S, of: Option<usize>) -> usize {
    match of {
        Some(k) if s.below(5) != 0 => k,
        _ => s.below(KINDS) as usize,
    }
}
fn make_state<S: Src>(s: &mut S, t: usize) -> (DynTpProperty, Vec<u8>) {
    on_type!(t, T => { let v = <T as Data>::make(s); let e = v.enc(); (DynTpProperty::from(v), e) })
}
fn make_frames<S: Src>(s: &mut S, t: usize) -> Frames {
    // ordered times, so that what a channel stores is what it is given (K01 is about its order)
    (0..s.below(3)).map(|i| (on_type!(t, T => <T as Data>::make(s).enc()), (i as f64 + 0.5).to_bits())).collect()
}
pub fn make_channel<T: Data>(f: &Frames) -> Channel<T> {
    Channel::new(f.iter().map(|(v, t)| Keyframe::new(T::dec(v), f64::from_bits(*t))))
}
pub fn dyn_channel(t: usize, f: &Frames) -> DynChannel {
    use tp_client::contract::properties::channels::dyn_channel::{DynChannelPrimitive as DA, DynChannelVec as DV};
    if t < 14 {
        DynChannel::Primitive(match t {
            0 => DA::U8(make_channel(f)), 1 => DA::U16(make_channel(f)), 2 => DA::U32(make_channel(f)), 3 => DA::U64(make_channel(f)),
            4 => DA::I8(make_channel(f)), 5 => DA::I16(make_channel(f)), 6 => DA::I32(make_channel(f)), 7 => DA::I64(make_channel(f)),
            8 => DA::Bool(make_channel(f)), 9 => DA::F32(make_channel(f)), 10 => DA::F64(make_channel(f)), 11 => DA::String(make_channel(f)),
            12 => DA::ObjectHandle(make_channel(f)), _ => DA::ContractDataHandle(make_channel(f)),
        })
    } else {
        DynChannel::Vec(match t {
            14 => DV::U8(make_channel(f)), 15 => DV::U16(make_channel(f)), 16 => DV::U32(make_channel(f)), 17 => DV::U64(make_channel(f)),
            18 => DV::I8(make_channel(f)), 19 => DV::I16(make_channel(f)), 20 => DV::I32(make_channel(f)), 21 => DV::I64(make_channel(f)),
            22 => DV::Bool(make_channel(f)), 23 => DV::F32(make_channel(f)), 24 => DV::F64(make_channel(f)), 25 => DV::String(make_channel(f)),
            26 => DV::ObjectHandle(make_channel(f)), _ => DV::ContractDataHandle(make_channel(f)),
        })
    }
}

/// One operation; gives the properties it is about.
/// An iterator that knows how many items are left, or does not say.
struct Given<T>(std::vec::IntoIter<T>, bool);
impl<T> Iterator for Given<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { if self.1 { self.0.size_hint() } else { (0, Some(self.0.len())) } }
}
fn step<S: Src>(s: &mut S, b: &mut Baseline, m: &mut Model, f: &mut Fails) -> &'static str {
    match s.below(16) {
        0 | 1 => {
            let k = s.below(KINDS) as usize;
            let want = !m.contracts.iter().any(|c| c.live && c.kind == k);
            let got = on_kind!(k, C => b.register_contract::<C>().ok().map(|c| c.handle()));
            f.check(got.is_some() == want, "C01", || format!("registering {:?} gave {}, expected {}", IDS[k], got.is_some(), want));
            if let Some(h) = got {
                f.check(m.contracts.iter().all(|c| !same(c.handle, h)), "A01 C01", || "a contract handle was issued twice".into());
                m.contracts.push(MContract { handle: h, kind: k, live: true });
            }
            "C01"
        }
        2 => {
            let h = pick_contract(s, m);
            let of = m.live_contract(h);
            let k = pick_kind(s, of.map(|c| m.contracts[c].kind));
            let want = of.map_or(false, |c| m.contracts[c].kind == k);
            let got = on_kind!(k, C => b.unregister_contract::<C>(h).is_ok());
            f.check(got == want, "C01 C02", || format!("unregistering {:?} gave {}, expected {}", IDS[k], got, want));
            if got && want {
                let c = of.unwrap();
                m.contracts[c].live = false;
                m.objects.iter_mut().filter(|o| o.contract == c).for_each(|o| o.live = false);
            }
            "C02"
        }
        3..=7 => {
            let h = pick_contract(s, m);
            let of = m.live_contract(h);
            let k = pick_kind(s, of.map(|c| m.contracts[c].kind));
            let (mut ts, mut tc) = (states(k).to_vec(), channels(k).to_vec());
            let mut good = of.map_or(false, |c| m.contracts[c].kind == k);
            let spoil = s.below(12);
            if spoil < 6 {
                let list = if s.bool() { &mut ts } else { &mut tc };
                match spoil {
                    0 if !list.is_empty() => { list.pop(); good = false; }
                    1 => { list.push(s.below(28) as usize); good = false; }
                    2 if !list.is_empty() => {
                        let i = s.below(list.len() as u32) as usize;
                        let t = s.below(28) as usize;
                        good &= list[i] == t;
                        list[i] = t;
                    }
                    3 if !list.is_empty() => {
                        // the same primitive type in the other container
                        let i = s.below(list.len() as u32) as usize;
                        list[i] = (list[i] + 14) % 28;
                        good = false;
                    }
                    4 if list.len() > 1 => {
                        let i = s.below(list.len() as u32 - 1) as usize;
                        good &= list[i] == list[i + 1];
                        list.swap(i, i + 1);
                    }
                    5 if !list.is_empty() => { list.clear(); good = false; }
                    _ => {}
                }
            }
            let given: Vec<_> = ts.iter().map(|t| make_state(s, *t)).collect();
            let frames: Vec<_> = tc.iter().map(|t| make_frames(s, *t)).collect();
            let want_states: Vec<_> = given.iter().map(|x| x.1.clone()).collect();
            let hint = s.bool();
            let si = Given(given.into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter(), hint);
            let ci = Given(tc.iter().zip(&frames).map(|(t, f)| dyn_channel(*t, f)).collect::<Vec<_>>().into_iter(), hint);
            let got = on_kind!(k, C => b.object_create(&C::new(h), si, ci));
            f.check(got.is_ok() == good, "O01", || format!("creating an object of {:?} with states {:?} and channels {:?} gave {}, expected {}", IDS[k], ts, tc, got.is_ok(), good));
            if let (Ok(o), true) = (got, good) {
                f.check(m.objects.iter().all(|x| !same(x.handle, o)), "A01 O01", || "an object handle was issued twice".into());
                let ch = m.contracts[of.unwrap()].handle;
                let (mut sh, mut chh) = (vec![], vec![]);
                for (i, t) in ts.iter().enumerate() {
                    let x = on_type!(*t, T => b.bind_state(StateId::<T>::new(i, ch), o).ok().map(ga::Index::from));
                    f.check(x.is_some(), "O04 O02", || format!("state {} of a new object cannot be bound", i));
                    let via = on_type!(*t, T => b.object(o).ok().map(|ob| ga::Index::from(ob.state(StateId::<ScalarOf<T>>::new(i, ch)))));
                    f.check(via == x, "O04", || format!("the object and the baseline bind state {} differently", i));
                    if let Some(x) = x {
                        f.check(m.objects.iter().all(|p| p.state_handles.iter().enumerate().all(|(j, y)| states(m.contracts[p.contract].kind)[j] != *t || *y != x)), "A01 O02 S01", || "a state handle was issued twice".into());
                        sh.push(x);
                    }
                }
                for (i, t) in tc.iter().enumerate() {
                    let x = on_type!(*t, T => b.bind_channel(ChannelId::<T>::new(i, ch), o).ok().map(ga::Index::from));
                    f.check(x.is_some(), "O04 O02", || format!("channel {} of a new object cannot be bound", i));
                    let via = on_type!(*t, T => b.object(o).ok().map(|ob| ga::Index::from(ob.channel(ChannelId::<ScalarOf<T>>::new(i, ch)))));
                    f.check(via == x, "O04", || format!("the object and the baseline bind channel {} differently", i));
                    if let Some(x) = x {
                        f.check(m.objects.iter().all(|p| p.channel_handles.iter().enumerate().all(|(j, y)| channels(m.contracts[p.contract].kind)[j] != *t || *y != x)), "A01 O02 S01", || "a channel handle was issued twice".into());
                        chh.push(x);
                    }
                }
                if sh.len() == ts.len() && chh.len() == tc.len() {
                    m.objects.push(MObject { handle: o, contract: of.unwrap(), live: true, states: want_states, channels: frames, warp: (0, 1024), state_handles: sh, channel_handles: chh });
                }
                "O01 O02"
            } else {
                "O01"
            }
        }
        8 | 9 => {
            let h = pick_object(s, m);
            let of = m.live_object(h);
            let k = pick_kind(s, of.map(|o| m.contracts[m.objects[o].contract].kind));
            let want = of.map_or(false, |o| m.contracts[m.objects[o].contract].kind == k);
            let got = on_kind!(k, C => b.object_remove::<C>(h).is_ok());
            f.check(got == want, "O03", || format!("removing an object as {:?} gave {}, expected {}", IDS[k], got, want));
            if got && want {
                m.objects[of.unwrap()].live = false;
            }
            "O03"
        }
        10 | 11 => {
            // write a state of a live object
            let live: Vec<_> = (0..m.objects.len()).filter(|i| m.objects[*i].live && !m.objects[*i].states.is_empty()).collect();
            if live.is_empty() { return "S01"; }
            let o = live[s.below(live.len() as u32) as usize];
            let i = s.below(m.objects[o].states.len() as u32) as usize;
            let kind = m.contracts[m.objects[o].contract].kind;
            let t = states(kind)[i];
            let route = s.below(5);
            let h = m.objects[o].state_handles[i];
            let new = on_type!(t, T => <T as Data>::make(s).enc());
            let old = m.objects[o].states[i].clone();
            let ok = on_type!(t, T => {
                let h: StateHandle<T> = arena::Index::new(h);
                match route {
                    0 => b.state_mut(h).map(|x| x.value = <T as Data>::dec(&new)).is_ok(),
                    1 => { b[h].value = <T as Data>::dec(&new); b[h].value.enc() == new }
                    2 => h.get_mut(b).map(|x| x.value = <T as Data>::dec(&new)).is_ok(),
                    3 => match DynStateHandle::from(h).get_mut(b) {
                        Ok(r) => { let e = enc_mut(r.0, t, &new); e == (t, old.clone(), true) }
                        Err(_) => false,
                    },
                    _ => {
                        let a = match DynStateHandle::from(h).get_mut(b) { Ok(r) => { let e = enc_mut(r.0, 99, &new); e == (t, old.clone(), false) } Err(_) => false };
                        a && b.state_mut(DynStateHandle::from(h)).is_ok() && b.state_mut(h).map(|x| x.value = <T as Data>::dec(&new)).is_ok()
                    }
                }
            });
            f.check(ok, if route > 2 { "S01 S02" } else { "S01" }, || format!("writing state {} of an object by route {} failed", i, route));
            m.objects[o].states[i] = if route == 3 { on_type!(t, T => <T as Data>::written(&old, &new)) } else { new };
            if route > 2 { "S01 S02" } else { "S01" }
        }
        12 => {
            let live: Vec<_> = (0..m.objects.len()).filter(|i| m.objects[*i].live && !m.objects[*i].channels.is_empty()).collect();
            if live.is_empty() { return "S01"; }
            let o = live[s.below(live.len() as u32) as usize];
            let i = s.below(m.objects[o].channels.len() as u32) as usize;
            let t = channels(m.contracts[m.objects[o].contract].kind)[i];
            let route = s.below(4);
            let h = m.objects[o].channel_handles[i];
            let new = if route == 3 { vec![] } else { make_frames(s, t) };
            let old = m.objects[o].channels[i].clone();
            let ok = on_type!(t, T => {
                let h: ChannelHandle<T> = arena::Index::new(h);
                match route {
                    0 => b.channel_mut(h).map(|x| *x = make_channel(&new)).is_ok(),
                    1 => { b[h] = make_channel(&new); enc_channel(&b[h]) == new }
                    2 => h.get_mut(b).map(|x| *x.keyframes_mut() = new.iter().map(|(v, t)| Keyframe::new(<T as Data>::dec(v), f64::from_bits(*t))).collect()).is_ok(),
                    _ => match dyn_channel_handle(t, h.into()).get_mut(b) {
                        Ok(r) => { let same_type = r.prop_type() == TYPES[t]; same_type && enc_channel_mut(r) == (t, old) }
                        Err(_) => false,
                    },
                }
            });
            f.check(ok, if route == 3 { "S01 S02" } else { "S01" }, || format!("writing channel {} of an object by route {} failed", i, route));
            m.objects[o].channels[i] = new;
            if route == 3 { "S01 S02" } else { "S01" }
        }
        13 => {
            let h = pick_object(s, m);
            let (o, k) = (s.i32(), s.i32());
            let of = m.live_object(h);
            let warp = TimeWarp { offset: Ticks::new(o), scale: TimeScale::from(k) };
            if let Some(i) = of {
                if s.bool() { *b[h].time_warp_mut() = warp; } else if let Ok(x) = b.object_mut(h) { *x.time_warp_mut() = warp; }
                m.objects[i].warp = (o, k);
            }
            "S01 T02"
        }
        14 => {
            // binding: another contract's field id, a field that does not exist
            let h = pick_object(s, m);
            let of = m.live_object(h);
            let c = pick_contract(s, m);
            let i = match s.below(4) { 0..=1 => s.below(4) as usize, 2 => s.below(4) as usize + (1 << (8 << s.below(3))), _ => s.usize() };
            let own = of.map_or(false, |o| same(m.contracts[m.objects[o].contract].handle, c));
            let (mut ws, mut wc) = (false, false);
            if let (Some(o), true) = (of, own) {
                let k = m.contracts[m.objects[o].contract].kind;
                ws = i < states(k).len();
                wc = i < channels(k).len();
            }
            let t = match of { Some(o) if own => { let k = m.contracts[m.objects[o].contract].kind; states(k).get(i).copied() } _ => None };
            let tc = match of { Some(o) if own => { let k = m.contracts[m.objects[o].contract].kind; channels(k).get(i).copied() } _ => None };
            let g = on_type!(t.unwrap_or(0), T => b.bind_state(StateId::<T>::new(i, c), h).is_ok());
            f.check(g == ws, "O04", || format!("binding state {} through {} contract's id gave {}", i, if own { "the object's" } else { "another" }, g));
            let g = on_type!(tc.unwrap_or(0), T => b.bind_channel(ChannelId::<T>::new(i, c), h).is_ok());
            f.check(g == wc, "O04", || format!("binding channel {} through {} contract's id gave {}", i, if own { "the object's" } else { "another" }, g));
            "O04"
        }
        _ => {
            // handles that were never issued
            let h = index(s);
            let o: ObjectHandle = arena::Index::new(h);
            f.check(b.object(o).is_ok() == m.live_object(o).is_some(), "A01", || "an object handle that was never issued resolves".into());
            let c: ContractDataHandle = arena::Index::new(h);
            f.check(b.contract_data(c).is_ok() == m.live_contract(c).is_some(), "A01", || "a contract handle that was never issued resolves".into());
            let t = s.below(28) as usize;
            let owned = m.objects.iter().any(|p| p.live && p.state_handles.iter().enumerate().any(|(j, y)| states(m.contracts[p.contract].kind)[j] == t && *y == h));
            let x = state_resolves(b, t, h, f);
            f.check(x == owned, "A01 S01", || format!("a state handle of type {:?} that no live object owns resolves", TYPES[t]));
            let owned = m.objects.iter().any(|p| p.live && p.channel_handles.iter().enumerate().any(|(j, y)| channels(m.contracts[p.contract].kind)[j] == t && *y == h));
            let x = channel_resolves(b, t, h, f);
            f.check(x == owned, "A01 S01", || format!("a channel handle of type {:?} that no live object owns resolves", TYPES[t]));
            "A01"
        }
    }
}
/// `Object::state` and `Object::channel` are only for primitive types; the handle they give does
/// not depend on the type.
trait Scalar { type Of: tp_client::contract::properties::traits::ITpData; }
macro_rules! scalar { ($($t:ty),*) => { $(impl Scalar for $t { type Of = $t; } impl Scalar for Vec<$t> { type Of = $t; })* } }
scalar!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle);
type ScalarOf<T> = <T as Scalar>::Of;

/// Field ids have no equality; what they print tells type, field and contract apart.
fn d<T: std::fmt::Debug>(x: &T) -> String {
    format!("{:?}", x)
}
/// Steps through an enumeration in any way, also beyond its end.
fn step_through<S: Src, I: Iterator>(s: &mut S, f: &mut Fails, what: &str, mut it: I, want: &[I::Item]) where I::Item: std::fmt::Debug {
    let mut seen = 0usize;
    let mut after = 0;
    while after < 3 {
        let left = want.len() - seen;
        if s.below(6) == 0 {
            // all the rest at once
            let rest = &want[seen..];
            let mut got = vec![];
            match s.below(6) {
                0 => {
                    let n = it.count();
                    return f.check(n == left, "I01", || format!("after {} of {} {} the iterator counts {} more", seen, want.len(), what, n));
                }
                1 => {
                    let x = it.last();
                    return f.check(d(&x) == d(&rest.last()), "I01", || format!("the last of {} {} is {:?}", want.len(), what, x));
                }
                2 => {
                    let n = s.below(left as u32 + 1) as usize;
                    let mut i = 0;
                    let x = it.find(|_| { i += 1; i > n });
                    return f.check(d(&x) == d(&rest.get(n)), "I01", || format!("{} {}, {} further on, is {:?}", what, seen, n, x));
                }
                3 => it.for_each(|x| got.push(x)),
                4 => got = it.fold(got, |mut v, x| { v.push(x); v }),
                _ => got.extend(it),
            }
            return f.check(d(&got) == d(&rest), "I01", || format!("after {} of {} {} the rest is {:?}", seen, want.len(), what, got));
        }
        if s.bool() {
            f.check(it.size_hint() == (left, Some(left)), "I01", || format!("after {} of {} {} the iterator expects {:?} more", seen, want.len(), what, it.size_hint()));
        }
        let n = match s.below(8) { 0..=3 => None, 4..=6 => Some(s.below(4) as usize), _ => Some(s.usize()) };
        let x = match n { None => it.next(), Some(n) => it.nth(n) };
        let at = n.unwrap_or(0).saturating_add(seen);
        let w = want.get(at);
        f.check(d(&x) == d(&w), "I01", || format!("enumerating {} after {} of {}: {:?} gave {:?}, not {:?}", what, seen, want.len(), n, x, w));
        if w.is_none() { after += 1; }
        seen = at.saturating_add(1).min(want.len());
    }
}
fn enumerate<S: Src>(s: &mut S, m: &Model, f: &mut Fails) {
    let h = pick_contract(s, m);
    let k = s.below(KINDS) as usize;
    on_kind!(k, C => {
        let c = C::new(h);
        let ids: Vec<_> = states(k).iter().enumerate().map(|(i, t)| state_id(*t, i, h)).collect();
        step_through(s, f, "states", c.state_iter(), &ids);
        let by = 1 + s.below(4) as usize;
        let some: Vec<_> = c.state_iter().step_by(by).collect();
        f.check(d(&some) == d(&ids.iter().step_by(by).collect::<Vec<_>>()), "I01", || format!("every {}th state of {:?} is {:?}", by, IDS[k], some));
        let ids: Vec<_> = channels(k).iter().enumerate().map(|(i, t)| channel_id(*t, i, h)).collect();
        step_through(s, f, "channels", c.chan_iter(), &ids);
        let some: Vec<_> = c.chan_iter().step_by(by).collect();
        f.check(d(&some) == d(&ids.iter().step_by(by).collect::<Vec<_>>()), "I01", || format!("every {}th channel of {:?} is {:?}", by, IDS[k], some));
        let all: Vec<_> = StatesIter::<<C as Contract>::States>::new(h).collect();
        f.check(d(&all) == d(&states(k).iter().enumerate().map(|(i, t)| state_id(*t, i, h)).collect::<Vec<_>>()), "I01", || format!("the states of {:?} enumerate as {:?}", IDS[k], all));
        let all: Vec<_> = ChannelsIter::<<C as Contract>::Channels>::new(h).collect();
        f.check(d(&all) == d(&channels(k).iter().enumerate().map(|(i, t)| channel_id(*t, i, h)).collect::<Vec<_>>()), "I01", || format!("the channels of {:?} enumerate as {:?}", IDS[k], all));
        let i = match s.below(4) { 0 => s.usize(), _ => s.below(30) as usize };
        f.check(d(&c.state_id(i)) == d(&states(k).get(i).map(|t| state_id(*t, i, h))), "I01", || format!("state {} of {:?} has id {:?}", i, IDS[k], c.state_id(i)));
        f.check(d(&c.chan_id(i)) == d(&channels(k).get(i).map(|t| channel_id(*t, i, h))), "I01", || format!("channel {} of {:?} has id {:?}", i, IDS[k], c.chan_id(i)));
    })
}
pub fn state_id(t: usize, i: usize, h: ContractDataHandle) -> DynStateId {
    use tp_client::contract::properties::states::id::{DynStateIdPrimitive as DA, DynStateIdVec as DV};
    if t < 14 {
        DynStateId::Primitive(match t {
            0 => DA::U8(StateId::new(i, h)), 1 => DA::U16(StateId::new(i, h)), 2 => DA::U32(StateId::new(i, h)), 3 => DA::U64(StateId::new(i, h)),
            4 => DA::I8(StateId::new(i, h)), 5 => DA::I16(StateId::new(i, h)), 6 => DA::I32(StateId::new(i, h)), 7 => DA::I64(StateId::new(i, h)),
            8 => DA::Bool(StateId::new(i, h)), 9 => DA::F32(StateId::new(i, h)), 10 => DA::F64(StateId::new(i, h)), 11 => DA::String(StateId::new(i, h)),
            12 => DA::ObjectHandle(StateId::new(i, h)), _ => DA::ContractDataHandle(StateId::new(i, h)),
        })
    } else {
        DynStateId::Vec(match t {
            14 => DV::U8(StateId::new(i, h)), 15 => DV::U16(StateId::new(i, h)), 16 => DV::U32(StateId::new(i, h)), 17 => DV::U64(StateId::new(i, h)),
            18 => DV::I8(StateId::new(i, h)), 19 => DV::I16(StateId::new(i, h)), 20 => DV::I32(StateId::new(i, h)), 21 => DV::I64(StateId::new(i, h)),
            22 => DV::Bool(StateId::new(i, h)), 23 => DV::F32(StateId::new(i, h)), 24 => DV::F64(StateId::new(i, h)), 25 => DV::String(StateId::new(i, h)),
            26 => DV::ObjectHandle(StateId::new(i, h)), _ => DV::ContractDataHandle(StateId::new(i, h)),
        })
    }
}
pub fn channel_id(t: usize, i: usize, h: ContractDataHandle) -> DynChannelId {
    use tp_client::contract::properties::channels::{DynChannelIdPrimitive as DA, DynChannelIdVec as DV};
    if t < 14 {
        DynChannelId::Primitive(match t {
            0 => DA::U8(ChannelId::new(i, h)), 1 => DA::U16(ChannelId::new(i, h)), 2 => DA::U32(ChannelId::new(i, h)), 3 => DA::U64(ChannelId::new(i, h)),
            4 => DA::I8(ChannelId::new(i, h)), 5 => DA::I16(ChannelId::new(i, h)), 6 => DA::I32(ChannelId::new(i, h)), 7 => DA::I64(ChannelId::new(i, h)),
            8 => DA::Bool(ChannelId::new(i, h)), 9 => DA::F32(ChannelId::new(i, h)), 10 => DA::F64(ChannelId::new(i, h)), 11 => DA::String(ChannelId::new(i, h)),
            12 => DA::ObjectHandle(ChannelId::new(i, h)), _ => DA::ContractDataHandle(ChannelId::new(i, h)),
        })
    } else {
        DynChannelId::Vec(match t {
            14 => DV::U8(ChannelId::new(i, h)), 15 => DV::U16(ChannelId::new(i, h)), 16 => DV::U32(ChannelId::new(i, h)), 17 => DV::U64(ChannelId::new(i, h)),
            18 => DV::I8(ChannelId::new(i, h)), 19 => DV::I16(ChannelId::new(i, h)), 20 => DV::I32(ChannelId::new(i, h)), 21 => DV::I64(ChannelId::new(i, h)),
            22 => DV::Bool(ChannelId::new(i, h)), 23 => DV::F32(ChannelId::new(i, h)), 24 => DV::F64(ChannelId::new(i, h)), 25 => DV::String(ChannelId::new(i, h)),
            26 => DV::ObjectHandle(ChannelId::new(i, h)), _ => DV::ContractDataHandle(ChannelId::new(i, h)),
        })
    }
}

/// A history on both baselines of a realm; panics on the first step that breaks `focus`.
fn history<S: Src>(s: &mut S, focus: &str) {
    choose(s);
    let mut realm = Realm::new(RealmID::new("history".into()));
    let mut models = [Model::default(), Model::default()];
    let mut log = vec![];
    // most histories stay in one baseline; some are long
    let both = s.below(3) == 0;
    let steps = 3 + s.below(10) + if s.below(4) == 0 { 30 } else { 0 };
    for n in 0..steps {
        let mut f = Fails(vec![]);
        let w = if both { s.below(2) as usize } else { 1 };
        let last = step(s, realm.baseline_mut(BK[w]), &mut models[w], &mut f);
        log.push(last);
        let thorough = n + 1 == steps || n % 8 == 7;
        if focus == "I01" || n + 1 == steps {
            enumerate(s, &models[w], &mut f);
        }
        compare(realm.baseline_mut(BK[w]), &models[w], w, last, thorough, &mut f);
        if both {
            // an operation on one baseline changes nothing in the other
            compare(realm.baseline_mut(BK[1 - w]), &models[1 - w], 1 - w, "R01", thorough, &mut f);
        }
        if let Some(x) = f.0.iter().find(|x| x.0.split(' ').any(|p| p == focus)) {
            panic!("{}: {} (after {} steps)", focus, x.1, n + 1);
        }
        if !f.0.is_empty() {
            // some other property is broken; the model no longer describes the code
            s.assume(false);
            return;
        }
    }
}
macro_rules! histories { ($($name:ident $focus:literal;)*) => { $(pub fn $name<S: Src>(s: &mut S) { history(s, $focus) })* } }
histories! {
    a01_history "A01"; c01_history "C01"; c02_history "C02"; o01_history "O01"; o02_history "O02"; o03_history "O03";
    o04_history "O04"; s01_history "S01"; s02_history "S02"; r01_history "R01"; i01_history "I01"; t02_history "T02"; d01_history "D01";
}
