//! D01 D02 D03: dynamically typed values, and their types.
use crate::model::*;
use crate::given;
use crate::on_type;
use crate::src::Src;
use arena::generational_arena as ga;
use better_borrow::{BBorrow, BBorrowMut};
use std::convert::TryFrom;
use tp_client::contract::properties::channels::dyn_handle::DynChannelHandle;
use tp_client::contract::properties::channels::{Channel, ChannelHandle, DynChannelMut, DynChannelRef, IChannelHandle};
use tp_client::contract::properties::dynamic::{
    DynTpPrimitive, DynTpPrimitiveMut, DynTpPrimitiveRef, DynTpProperty, DynTpPropertyMut, DynTpPropertyRef, DynTpVec,
    DynTpVecMut, DynTpVecRef, TpPrimitiveType, TpPropertyType,
};
use tp_client::contract::properties::states::dyn_state::{DynState, DynStateMut, DynStateRef};
use tp_client::contract::properties::states::{DynStateHandle, IStateHandle, State, StateHandle};
use tp_client::contract::properties::traits::{ITpData, ITpProperty, ITpPropertyStatic};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

/// A type number below 28.
fn any_type<S: Src>(s: &mut S) -> usize {
    s.below(28) as usize
}
fn sym_index<S: Src>(s: &mut S) -> ga::Index {
    ga::Index::from_raw_parts(s.usize(), s.u64())
}

// ---- D01 ----

/// What a static type says about itself.
pub fn d01_static<S: Src>(s: &mut S) {
    let t = any_type(s);
    let p = on_type!(t, T => <T as ITpPropertyStatic>::PROPERTY_TYPE);
    assert!(p == TYPES[t], "D01: a type's tag names that type");
    let i = t % 14;
    assert!(p.primitive_type() == PRIMS[i], "D01: the element type of a tag");
    macro_rules! data { ($($n:literal $t:ty,)*) => { match i { $($n => <$t as ITpData>::DATA_TYPE,)* _ => unreachable!() } } }
    let e = data!(0 u8, 1 u16, 2 u32, 3 u64, 4 i8, 5 i16, 6 i32, 7 i64, 8 bool, 9 f32, 10 f64, 11 String, 12 ObjectHandle, 13 ContractDataHandle,);
    assert!(e == PRIMS[i], "D01: a primitive's tag names that primitive");
}
/// No two types share a tag, and tags are equal only to themselves.
pub fn d01_tags_apart<S: Src>(s: &mut S) {
    let (a, b) = (any_type(s), any_type(s));
    assert!((TYPES[a] == TYPES[b]) == (a == b), "D01: tags of different types differ");
}
fn tag_of_value<T: Data>(s: &mut impl Src, t: usize)
where
    DynTpProperty: From<T>,
    for<'a> DynTpPropertyRef<'a>: From<&'a T>,
    for<'a> DynTpPropertyMut<'a>: From<&'a mut T>,
    for<'a> DynStateRef<'a>: From<&'a State<T>>,
    for<'a> DynStateMut<'a>: From<&'a mut State<T>>,
    DynState: From<State<T>>,
{
    let mut v = <T as Data>::make(s);
    assert!(v.prop_type() == TYPES[t], "D01: a value reports its type");
    assert!(DynTpPropertyRef::from(&v).prop_type() == TYPES[t], "D01: a borrowed dynamic value reports its type");
    assert!(DynTpPropertyMut::from(&mut v).prop_type() == TYPES[t], "D01: a mutably borrowed dynamic value reports its type");
    let mut st = State::new(v);
    assert!(DynStateRef::from(&st).0.prop_type() == TYPES[t], "D01: a borrowed dynamic state reports its type");
    assert!(DynStateMut::from(&mut st).0.prop_type() == TYPES[t], "D01: a mutably borrowed dynamic state reports its type");
    let d = if s.bool() { DynTpProperty::from(st.value) } else { DynState::from(st).0 };
    assert!(d.prop_type() == TYPES[t] && ITpProperty::prop_type(&d) == TYPES[t], "D01: a dynamic value reports its type");
    assert!(dyn_ref(&d).prop_type() == TYPES[t], "D01: a borrowed dynamic value reports its type");
}
pub fn d01_value<S: Src>(s: &mut S) {
    let t = any_type(s);
    on_type!(t, T => tag_of_value::<T>(s, t))
}
pub fn d01_handles<S: Src>(s: &mut S) {
    let t = any_type(s);
    let h = sym_index(s);
    on_type!(t, T => {
        let x: StateHandle<T> = arena::Index::new(h);
        assert!(IStateHandle::prop_type(&x) == TYPES[t], "D01: a state handle reports its type");
        let x = DynStateHandle::from(x);
        assert!(x.prop_type() == TYPES[t], "D01: a dynamic state handle reports its type");
        let x: ChannelHandle<T> = arena::Index::new(h);
        assert!(IChannelHandle::prop_type(&x) == TYPES[t], "D01: a channel handle reports its type");
    });
    assert!(dyn_channel_handle(t, h).prop_type() == TYPES[t], "D01: a dynamic channel handle reports its type");
}
pub fn d01_channel<S: Src>(s: &mut S) {
    let t = any_type(s);
    let mut d = dyn_channel(t, &vec![]);
    assert!(d.prop_type() == TYPES[t], "D01: a dynamic channel reports its type");
    on_type!(t, T => {
        let mut c: Channel<T> = make_channel(&vec![]);
        assert!(DynChannelRef::from(&c).prop_type() == TYPES[t], "D01: a borrowed channel reports its type");
        assert!(DynChannelMut::from(&mut c).prop_type() == TYPES[t], "D01: a mutably borrowed channel reports its type");
    });
    let _ = &mut d;
}
pub static PRIMS: [TpPrimitiveType; 14] = {
    use TpPrimitiveType::*;
    [U8, U16, U32, U64, I8, I16, I32, I64, Bool, F32, F64, String, ObjectHandle, ContractDataHandle]
};

// ---- D02 ----

fn dyn_ref(d: &DynTpProperty) -> DynTpPropertyRef<'_> {
    d.into()
}
fn eq_prims(p: &DynTpPrimitive, q: &DynTpPrimitive) -> bool {
    p == q
}
fn eq_prop_prim(d: &DynTpProperty, p: &DynTpPrimitive) -> bool {
    d == p
}
/// Value to dynamic value and back.
trait Back: Sized {
    fn back(p: DynTpProperty) -> Option<Self>;
}
macro_rules! back { ($($t:ty),*) => { $(
    impl Back for $t {
        fn back(p: DynTpProperty) -> Option<Self> { DynTpPrimitive::try_from(p).ok().and_then(|p| <$t>::try_from(p).ok()) }
    }
    impl Back for Vec<$t> {
        fn back(p: DynTpProperty) -> Option<Self> { DynTpVec::try_from(p).ok().and_then(|p| <Vec<$t>>::try_from(p).ok()) }
    }
)* } }
back!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle);

fn convert<T: Data + Back>(s: &mut impl Src, t: usize, u: usize)
where
    DynTpProperty: From<T>,
    for<'a> DynTpPropertyRef<'a>: From<&'a T>,
    for<'a> DynTpPropertyMut<'a>: From<&'a mut T>,
    for<'a> DynStateRef<'a>: From<&'a State<T>>,
    DynState: From<State<T>>,
{
    let v = <T as Data>::make(s);
    let e = v.enc();
    assert!(enc_ref(&DynTpPropertyRef::from(&v)) == (t, e.clone()), "D02: borrowing a value as a dynamic one keeps type and contents");
    let st = State::new(v);
    let r = DynStateRef::from(&st);
    let copy = r.0;
    assert!(enc_ref(&r.0) == (t, e.clone()) && enc_ref(&copy) == (t, e.clone()), "D02: borrowing a state as a dynamic one keeps type and contents");
    let d = if s.bool() { DynTpProperty::from(st.value) } else { DynState::from(st).0 };
    let borrowed: DynTpPropertyRef<'_> = BBorrow::borrow(&d);
    assert!(enc_ref(&borrowed) == (t, e.clone()), "D02: borrowing a dynamic value keeps type and contents");
    assert!(enc_ref(&dyn_ref(&d)) == (t, e.clone()), "D02: borrowing a dynamic value keeps type and contents");
    let d2 = d.clone();
    assert!(enc_ref(&dyn_ref(&d2)) == (t, e.clone()), "D02: a copy of a dynamic value keeps type and contents");
    assert!(T::back(d).map(|x| x.enc()) == Some(e.clone()), "D02: a dynamic value converts back to the value it was made from");
    if u != t {
        let other = on_type!(u, U => <U as Back>::back(d2).is_some());
        assert!(!other, "D02: a dynamic value converts to no other type");
    }
}
pub fn d02_convert<S: Src>(s: &mut S) {
    let (t, u) = (any_type(s), any_type(s));
    on_type!(t, T => convert::<T>(s, t, u))
}
fn borrow_mut<T: Data + Back>(s: &mut impl Src, t: usize)
where
    DynTpProperty: From<T>,
    for<'a> DynTpPropertyMut<'a>: From<&'a mut T>,
{
    let mut v = <T as Data>::make(s);
    let (old, new) = (v.enc(), <T as Data>::make(s).enc());
    assert!(enc_mut(DynTpPropertyMut::from(&mut v), t, &new) == (t, old.clone(), true), "D02: mutably borrowing a value keeps type and contents");
    assert!(v.enc() == T::written(&old, &new), "D02: writing through a dynamic borrow writes the value");
    let now = v.enc();
    let mut d = DynTpProperty::from(v);
    {
        let m: DynTpPropertyMut<'_> = BBorrowMut::borrow_mut(&mut d);
        assert!(enc_mut(m, t, &old) == (t, now.clone(), true), "D02: mutably borrowing a dynamic value keeps type and contents");
    }
    assert!(T::back(d).map(|x| x.enc()) == Some(T::written(&now, &old)), "D02: writing through a dynamic borrow writes the dynamic value");
}
pub fn d02_borrow_mut<S: Src>(s: &mut S) {
    let t = any_type(s);
    on_type!(t, T => borrow_mut::<T>(s, t))
}

// ---- D03 ----

/// Both operators say so.
macro_rules! says { ($a:expr, $b:expr, $same:expr) => { ($a == $b) == $same && ($a != $b) != $same }; }

fn compare_prim<T, U>(a: T, b: U, same: bool)
where
    T: Clone, U: Clone,
    DynTpPrimitive: From<T> + From<U> + PartialEq<U> + PartialEq<DynTpPrimitive>,
    U: PartialEq<DynTpPrimitive> + PartialEq<DynTpProperty>,
    DynTpProperty: From<T> + From<U> + PartialEq<U> + PartialEq<DynTpPrimitive>,
    Vec<U>: PartialEq<DynTpProperty>,
    DynTpProperty: PartialEq<Vec<U>> + From<Vec<U>>,
{
    let p = DynTpPrimitive::from(a.clone());
    assert!(says!(p, b, same) && says!(b, p, same), "D03: a dynamic primitive equals a value of the same type and value only, both ways round");
    let d = DynTpProperty::from(a.clone());
    assert!(says!(d, b, same) && says!(b, d, same), "D03: a dynamic value equals a value of the same type and value only, both ways round");
    let q = DynTpPrimitive::from(b.clone());
    assert!(eq_prims(&p, &q) == same && eq_prims(&q, &p) == same && eq_prop_prim(&d, &q) == same, "D03: dynamic primitives are equal when type and value are");
    let e = DynTpProperty::from(b.clone());
    assert!(says!(d, e, same) && says!(e, d, same), "D03: dynamic values are equal when type and value are");
    let v = vec![b];
    assert!(says!(d, v, false) && says!(v, d, false), "D03: a primitive never equals a vector");
    let dv = DynTpProperty::from(v);
    assert!(says!(d, dv, false) && says!(dv, d, false), "D03: a primitive never equals a vector");
}
macro_rules! on_prim {
    ($t:expr, $T:ident => $e:expr) => { match $t {
        0 => { type $T = u8; $e } 1 => { type $T = u16; $e } 2 => { type $T = u32; $e } 3 => { type $T = u64; $e }
        4 => { type $T = i8; $e } 5 => { type $T = i16; $e } 6 => { type $T = i32; $e } 7 => { type $T = i64; $e }
        8 => { type $T = bool; $e } 9 => { type $T = f32; $e } 10 => { type $T = f64; $e } 11 => { type $T = String; $e }
        12 => { type $T = ObjectHandle; $e } _ => { type $T = ContractDataHandle; $e }
    } };
}
/// Equality of the contents, from the values alone. For floats: IEEE equality.
fn eq_enc(t: usize, a: &[u8], b: &[u8]) -> bool {
    match t % 14 {
        9 => f32::dec(a) == f32::dec(b),
        10 => f64::dec(a) == f64::dec(b),
        _ => a == b,
    }
}
pub fn d03_same_type<S: Src>(s: &mut S) {
    let t = s.below(14) as usize;
    on_prim!(t, T => {
        let a = <T as Data>::make(s);
        let b = if s.bool() { a.clone() } else { <T as Data>::make(s) };
        let same = eq_enc(t, &a.enc(), &b.enc());
        compare_prim::<T, T>(a, b, same)
    })
}
/// The same number in two types.
pub fn d03_other_type<S: Src>(s: &mut S) {
    let (t, u) = (s.below(14) as usize, s.below(14) as usize);
    given!(s, t != u);
    on_prim!(t, T => { let a = <T as Data>::make(s); on_prim!(u, U => {
        let e = a.enc();
        let b = if (t < 8 && u < 8) || (t > 11 && u > 11) {
            // reinterpret the low bytes, so that small numbers are the same number
            let mut x = e.clone();
            x.resize(<U as Data>::make(s).enc().len(), 0);
            <U as Data>::dec(&x)
        } else {
            <U as Data>::make(s)
        };
        compare_prim::<T, U>(a, b, false)
    }) })
}
fn compare_vec<T: Data, U: Data>(a: Vec<T>, b: Vec<U>, same: bool)
where
    DynTpVec: From<Vec<T>> + From<Vec<U>> + PartialEq<Vec<U>> + for<'a> PartialEq<&'a [U]>,
    DynTpProperty: From<Vec<T>> + From<Vec<U>> + PartialEq<Vec<U>> + for<'a> PartialEq<&'a [U]> + PartialEq<U>,
    Vec<U>: PartialEq<DynTpVec> + PartialEq<DynTpProperty>,
    for<'a> &'a [U]: PartialEq<DynTpVec> + PartialEq<DynTpProperty>,
    U: PartialEq<DynTpProperty>,
{
    let p = DynTpVec::from(a.clone());
    let sl: &[U] = &b;
    assert!(says!(p, b, same) && says!(b, p, same), "D03: a dynamic vector equals a vector of the same type and contents only, both ways round");
    assert!(says!(p, sl, same) && says!(sl, p, same), "D03: a dynamic vector equals a slice of the same type and contents only, both ways round");
    let d = DynTpProperty::from(a.clone());
    assert!(says!(d, b, same) && says!(b, d, same), "D03: a dynamic value equals a vector of the same type and contents only, both ways round");
    assert!(says!(d, sl, same) && says!(sl, d, same), "D03: a dynamic value equals a slice of the same type and contents only, both ways round");
    let q = DynTpVec::from(b.clone());
    assert!(says!(p, q, same) && says!(q, p, same), "D03: dynamic vectors are equal when type and contents are");
    let e = DynTpProperty::from(b.clone());
    assert!(says!(d, e, same) && says!(e, d, same), "D03: dynamic values are equal when type and contents are");
    if let Some(x) = b.first() {
        assert!(says!(d, *x, false) && says!(*x, d, false), "D03: a vector never equals a primitive");
    }
}
pub fn d03_vec<S: Src>(s: &mut S) {
    let t = s.below(14) as usize;
    on_prim!(t, T => {
        let a: Vec<T> = <Vec<T> as Data>::make(s);
        let b = if s.bool() { a.clone() } else { <Vec<T> as Data>::make(s) };
        let same = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| eq_enc(t, &x.enc(), &y.enc()));
        compare_vec::<T, T>(a, b, same)
    })
}
pub fn d03_vec_other_type<S: Src>(s: &mut S) {
    let (t, u) = (s.below(14) as usize, s.below(14) as usize);
    given!(s, t != u);
    on_prim!(t, T => on_prim!(u, U => {
        let a: Vec<T> = <Vec<T> as Data>::make(s);
        let b: Vec<U> = <Vec<U> as Data>::make(s);
        compare_vec::<T, U>(a, b, false)
    }))
}
/// A value and a list, of any types: never equal, also when both are empty.
pub fn d03_value_and_list<S: Src>(s: &mut S) {
    let (t, u) = (s.below(14) as usize, s.below(14) as usize);
    let small = s.bool();
    let a = if small && t == 11 { DynTpProperty::from(String::new()) } else { on_prim!(t, T => DynTpProperty::from(<T as Data>::make(s))) };
    on_prim!(u, U => {
        let b: Vec<U> = if small { vec![] } else { <Vec<U> as Data>::make(s) };
        let sl: &[U] = &b;
        let d = DynTpProperty::from(b.clone());
        assert!(says!(a, b, false) && says!(b, a, false) && says!(a, sl, false) && says!(sl, a, false), "D03: a dynamic value never equals a list unless it is one");
        assert!(says!(a, d, false) && says!(d, a, false), "D03: a dynamic value never equals a list unless it is one");
    });
    on_prim!(t, T => {
        let x = <T as Data>::make(s);
        on_prim!(u, U => {
            let d = DynTpProperty::from(if small { vec![] } else { <Vec<U> as Data>::make(s) });
            assert!(says!(d, x, false) && says!(x, d, false), "D03: a dynamic list never equals a value");
        })
    })
}
/// Borrowed dynamic values.
pub fn d03_refs<S: Src>(s: &mut S) {
    let (t, u) = (any_type(s), any_type(s));
    on_type!(t, T => {
        let a = <T as Data>::make(s);
        let e = a.enc();
        let (d, again) = (DynTpProperty::from(a.clone()), DynTpProperty::from(a));
        let f = if t == u && s.bool() { again } else { on_type!(u, U => DynTpProperty::from(<U as Data>::make(s))) };
        let g = enc_ref(&BBorrow::borrow(&f)).1;
        let same = t == u && eq_dyn(t, &e, &g);
        let (x, y): (DynTpPropertyRef<'_>, DynTpPropertyRef<'_>) = (BBorrow::borrow(&d), BBorrow::borrow(&f));
        assert!(says!(x, y, same) && says!(y, x, same), "D03: borrowed dynamic values are equal when type and value are");
        assert!(says!(DynStateRef(x), DynStateRef(y), same), "D03: borrowed dynamic states are equal when type and value are");
    })
}
fn eq_dyn(t: usize, a: &[u8], b: &[u8]) -> bool {
    if t < 14 || (t != 23 && t != 24) {
        return if t < 14 { eq_enc(t, a, b) } else { a == b };
    }
    if t == 23 {
        let (a, b) = (<Vec<f32> as Data>::dec(a), <Vec<f32> as Data>::dec(b));
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y)
    } else {
        let (a, b) = (<Vec<f64> as Data>::dec(a), <Vec<f64> as Data>::dec(b));
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y)
    }
}
#[allow(unused)]
fn unused(_: DynChannelHandle, _: DynTpPrimitiveMut<'_>, _: DynTpPrimitiveRef<'_>, _: DynTpVecMut<'_>, _: DynTpVecRef<'_>, _: TpPropertyType) {}
