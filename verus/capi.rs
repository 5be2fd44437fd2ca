// Contracts on the exported C functions of /repo: each does what the Rust function it stands for does.
// Extracted as core.rs is, from the crate expanded with its feature `c_api`.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;

verus! {

pub mod stub {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }
    pub open spec fn copied<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] vstd::pervasive::cloned::<T>(a[i], b[i])
    }
    pub broadcast proof fn lemma_copied(a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] copied(a, b)
        ensures a == b
    {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(vstd::pervasive::cloned::<u8>(a[i], b[i]));
        }
        assert(a =~= b);
    }
    /// std iterators that end, over a vector or by `map`: the sequence of what is still to come
    pub trait Iterator: Sized {
        type Item;
        spec fn rem(&self) -> Seq<Self::Item>;
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Items<T> { p: core::marker::PhantomData<T> }
    impl<T> Items<T> {
        pub uninterp spec fn s(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn v_map<B, F: FnMut(T) -> B>(self, f: F) -> (r: Items<B>)
            requires forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],))
            ensures
                r.s().len() == self.s().len(),
                forall|i: int| #![trigger r.s()[i]] #![trigger self.s()[i]] 0 <= i < self.s().len() ==> f.ensures((self.s()[i],), r.s()[i])
        { unimplemented!() }
        #[verifier::external_body]
        pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self.s() { unimplemented!() }
    }
    impl<T> Iterator for Items<T> {
        type Item = T;
        open spec fn rem(&self) -> Seq<T> { self.s() }
    }
    pub trait VecItems<T> {
        spec fn all(&self) -> Seq<T>;
        fn v_iter<'a>(&'a self) -> (r: Items<&'a T>)
            ensures r.s().len() == self.all().len(), forall|i: int| 0 <= i < self.all().len() ==> *(#[trigger] r.s()[i]) == self.all()[i];
        fn v_iter_mut<'a>(&'a mut self) -> (r: Items<&'a mut T>)
            ensures
                r.s().len() == old(self).all().len(), final(self).all().len() == old(self).all().len(),
                forall|i: int| 0 <= i < old(self).all().len() ==> {
                    &&& *(#[trigger] r.s()[i]) == old(self).all()[i]
                    &&& *final(r.s()[i]) == final(self).all()[i]
                };
    }
    pub trait IntoIterator: Sized {
        type Item;
        spec fn all_of(&self) -> Seq<Self::Item>;
        fn into_iter(self) -> (r: Items<Self::Item>) ensures r.s() == self.all_of();
    }
    impl<T> IntoIterator for Vec<T> {
        type Item = T;
        open spec fn all_of(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn into_iter(self) -> Items<T> { unimplemented!() }
    }
    impl<T> VecItems<T> for Vec<T> {
        open spec fn all(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn v_iter<'a>(&'a self) -> Items<&'a T> { unimplemented!() }
        #[verifier::external_body]
        fn v_iter_mut<'a>(&'a mut self) -> Items<&'a mut T> { unimplemented!() }
    }
    impl<T, const N: usize> IntoIterator for [T; N] {
        type Item = T;
        open spec fn all_of(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn into_iter(self) -> Items<T> { unimplemented!() }
    }
    /// a conversion of a type to itself changes nothing (std)
    pub broadcast axiom fn ax_refl0<T>()
        ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec();
    pub broadcast axiom fn ax_refl<T>(v: T)
        ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(v) == v;
}
pub mod eyre {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Report { _p: () }
    #[verifier::external]
    impl core::fmt::Debug for Report {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    pub type Result<T> = core::result::Result<T, Report>;
}
/// crate `ref_cast`: a reference to what is in a wrapper of one field, seen as one to the wrapper
pub mod ref_cast {
    use vstd::prelude::*;
    pub uninterp spec fn seen<'a, A, B>(v: &'a mut A) -> &'a mut B;
    pub trait RefCast: Sized {
        type From;
        spec fn within(&self) -> Self::From;
        fn ref_cast<'a>(from: &'a Self::From) -> (r: &'a Self) ensures (*r).within() == *from;
        fn ref_cast_mut<'a>(from: &'a mut Self::From) -> (r: &'a mut Self) ensures r == seen::<Self::From, Self>(from);
    }
    #[verifier::prophetic]
    pub open spec fn same_place<A, B: RefCast<From = A>>(v: &mut A, w: &mut B) -> bool {
        (*w).within() == *v && (*final(w)).within() == *final(v)
    }
    pub broadcast axiom fn ax_seen<'a, A, B: RefCast<From = A>>(v: &'a mut A)
        ensures same_place(v, #[trigger] seen::<A, B>(v));
}
/// crate `safer_ffi`: a boxed value is the value
pub mod safer_ffi {
    use vstd::prelude::*;
    pub mod boxed {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Box_<T> { p: *mut T }
        pub type Box<T> = Box_<T>;
        impl<T> Box_<T> {
            pub uninterp spec fn v(&self) -> T;
            #[verifier::external_body]
            pub fn new(value: T) -> (r: Self) ensures r.v() == value { unimplemented!() }
            #[verifier::external_body]
            pub fn into(self) -> (r: std::boxed::Box<T>) ensures *r == self.v() { unimplemented!() }
        }
        pub uninterp spec fn boxed<T>(x: std::boxed::Box<T>) -> Box_<T>;
        pub broadcast axiom fn ax_boxed<T>(x: std::boxed::Box<T>) ensures (#[trigger] boxed(x)).v() == *x;
        impl<T> vstd::std_specs::convert::FromSpecImpl<std::boxed::Box<T>> for Box_<T> {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: std::boxed::Box<T>) -> Box_<T> { boxed(v) }
        }
        impl<T> From<std::boxed::Box<T>> for Box_<T> {
            #[verifier::external_body]
            fn from(b: std::boxed::Box<T>) -> Box_<T> { unimplemented!() }
        }
        impl<T> std::ops::Deref for Box_<T> {
            type Target = T;
            #[verifier::external_body]
            fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() }
        }
    }
    /// a list is a sequence
    pub mod vec {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Vec<T> { p: core::marker::PhantomData<T> }
        impl<T> Vec<T> {
            pub uninterp spec fn s(&self) -> Seq<T>;
            #[verifier::external_body]
            #[verifier::external_body]
            pub const EMPTY: Self = Vec { p: core::marker::PhantomData };
            pub uninterp spec fn of(v: std::vec::Vec<T>) -> Self;
            pub broadcast axiom fn ax_of(v: std::vec::Vec<T>) ensures (#[trigger] Self::of(v)).s() == v@;
            pub broadcast axiom fn ax_empty() ensures (#[trigger] Self::EMPTY).s() == Seq::<T>::empty();
            #[verifier::external_body]
            pub fn v_rust_mut(&mut self) -> (r: &mut std::vec::Vec<T>) ensures (*r)@ == old(self).s(), (*final(r))@ == final(self).s() { unimplemented!() }
            #[verifier::external_body]
            pub fn v_index(&self, i: usize) -> (r: &T) requires i < self.s().len() ensures *r == self.s()[i as int] { unimplemented!() }
            #[verifier::external_body]
            pub fn v_index_mut(&mut self, i: usize) -> (r: &mut T)
                requires i < old(self).s().len()
                ensures *r == old(self).s()[i as int], final(self).s() == old(self).s().update(i as int, *final(r)) { unimplemented!() }
        }
    }
    impl<T> vstd::std_specs::convert::FromSpecImpl<std::vec::Vec<T>> for vec::Vec<T> {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: std::vec::Vec<T>) -> Self { Self::of(v) }
    }
    impl<T> From<std::vec::Vec<T>> for vec::Vec<T> {
        #[verifier::external_body]
        fn from(b: std::vec::Vec<T>) -> Self { unimplemented!() }
    }
    pub mod prelude {
        pub mod repr_c { pub use crate::safer_ffi::boxed::Box; pub use crate::safer_ffi::vec::Vec; }
        pub mod c_slice {
            use vstd::prelude::*;
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct Ref<'a, T> { p: &'a T }
            impl<'a, T> Ref<'a, T> {
                pub uninterp spec fn s(&self) -> Seq<T>;
                #[verifier::external_body]
                pub fn as_slice(&self) -> (r: &'a [T]) ensures r@ == self.s() { unimplemented!() }
            }
            pub uninterp spec fn mk<'a, T>(s: &'a [T]) -> Ref<'a, T>;
            pub broadcast axiom fn ax_mk<'a, T>(s: &'a [T]) ensures (#[trigger] mk(s)).s() == s@;
            impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a [T]> for Ref<'a, T> {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: &'a [T]) -> Ref<'a, T> { mk(v) }
            }
            impl<'a, T> From<&'a [T]> for Ref<'a, T> {
                #[verifier::external_body]
                fn from(s: &'a [T]) -> Ref<'a, T> { unimplemented!() }
            }
        }
        pub mod str {
            use vstd::prelude::*;
            #[verifier::external_body]
            pub struct Ref<'a> { p: &'a u8 }
            impl<'a> Ref<'a> { pub uninterp spec fn s(&self) -> Seq<char>; }
            pub uninterp spec fn mk<'a>(s: &'a str) -> Ref<'a>;
            pub broadcast axiom fn ax_mk<'a>(s: &'a str) ensures (#[trigger] mk(s)).s() == s@;
            impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Ref<'a> {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: &'a str) -> Ref<'a> { mk(v) }
            }
            impl<'a> From<&'a str> for Ref<'a> {
                #[verifier::external_body]
                fn from(s: &'a str) -> Ref<'a> { unimplemented!() }
            }
        }
    }
}
pub mod rsharp {
    pub mod string {
        use vstd::prelude::*;
        use crate::ref_cast::RefCast;
        use crate::safer_ffi::prelude::*;
        broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::safer_ffi::prelude::c_slice::ax_mk, crate::stub::lemma_copied};
        // std: the encodings of texts
        pub open spec fn enc8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
        pub uninterp spec fn enc16(s: Seq<char>) -> Seq<u16>;
        #[verifier::external_type_specification]
        #[verifier::external_body]
        pub struct ExE8(std::string::FromUtf8Error);
        #[verifier::external_type_specification]
        #[verifier::external_body]
        pub struct ExE16(std::string::FromUtf16Error);
        pub assume_specification[ std::string::String::from_utf8 ](v: Vec<u8>) -> (r: Result<std::string::String, std::string::FromUtf8Error>)
            ensures match r { Ok(s) => enc8(s@) == v@, Err(_) => forall|s: Seq<char>| #[trigger] enc8(s) != v@ };
        pub assume_specification[ std::string::String::from_utf16 ](v: &[u16]) -> (r: Result<std::string::String, std::string::FromUtf16Error>)
            ensures match r { Ok(s) => enc16(s@) == v@, Err(_) => forall|s: Seq<char>| #[trigger] enc16(s) != v@ };
        pub assume_specification[ std::string::String::as_bytes ](v: &std::string::String) -> (r: &[u8])
            ensures r@ == enc8(v@);
        pub assume_specification<T: Clone>[ <[T]>::to_vec ](v: &[T]) -> (r: Vec<T>)
            ensures crate::stub::copied(v@, r@);
        //@struct rsharp::string::String
        //@fn rsharp::string::rsharp__String__value
        //@spec
            ensures ret.s() == enc8($A0.inner@)
        //@end
        //@fn rsharp::string::rsharp__String__copy_utf8
        //@spec
            requires exists|s: Seq<char>| #[trigger] enc8(s) == $A0.s()
            ensures enc8(ret.v().inner@) == $A0.s()
        //@end
        //@fn rsharp::string::rsharp__String__copy_utf16
        //@spec
            requires exists|s: Seq<char>| #[trigger] enc16(s) == $A0.s()
            ensures enc16(ret.v().inner@) == $A0.s()
        //@end
        impl RefCast for String {
            type From = std::string::String;
            open spec fn within(&self) -> std::string::String { self.inner }
            #[verifier::external_body]
            fn ref_cast<'a>(from: &'a std::string::String) -> &'a String { unimplemented!() }
            #[verifier::external_body]
            fn ref_cast_mut<'a>(from: &'a mut std::string::String) -> &'a mut String { unimplemented!() }
        }
        impl vstd::std_specs::convert::FromSpecImpl<std::string::String> for String {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: std::string::String) -> String { String { inner: v } }
        }
        impl From<std::string::String> for String {
            // derived
            #[verifier::external_body]
            fn from(s: std::string::String) -> String { unimplemented!() }
        }
        impl vstd::std_specs::convert::FromSpecImpl<String> for std::string::String {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: String) -> std::string::String { v.inner }
        }
        impl From<String> for std::string::String {
            // derived
            #[verifier::external_body]
            fn from(s: String) -> std::string::String { unimplemented!() }
        }
        impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a std::string::String> for &'a String {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: &'a std::string::String) -> &'a String { &String { inner: *v } }
        }
        impl<'a> From<&'a std::string::String> for &'a String {
            // a `ref_cast`
            #[verifier::external_body]
            fn from(s: &'a std::string::String) -> &'a String { unimplemented!() }
        }
    }
}
pub mod generational_arena {
    #[derive(Copy, Clone)]
    pub struct Index { pub index: usize, pub generation: u64 }
}
pub mod arena {
    use vstd::prelude::*;
    use crate::generational_arena as ga;
    use core::marker::PhantomData;
    //@struct arena::Index
    impl<T> Copy for Index<T> {}
    impl<T> Clone for Index<T> {
        //@traitfn arena::Clone@Index::clone
        //@spec
            ensures ret.inner == self.inner
        //@end
    }
}

pub mod cval {
    use vstd::prelude::*;
    /// the Rust value a C value stands for
    pub trait CVal { type R; spec fn rv(&self) -> Self::R; }
    impl CVal for crate::rsharp::string::String { type R = String; open spec fn rv(&self) -> String { self.inner } }
    impl CVal for crate::object::c_api::ObjectHandle { type R = crate::object::ObjectHandle; open spec fn rv(&self) -> Self::R { self.inner } }
    impl CVal for crate::contract::c_api::ContractDataHandle { type R = crate::contract::ContractDataHandle; open spec fn rv(&self) -> Self::R { self.inner } }
    macro_rules! same { ($($t:ty)*) => { verus! { $(impl CVal for $t { type R = $t; open spec fn rv(&self) -> $t { *self } })* } } }
    same!{u8 u16 u32 u64 i8 i16 i32 i64 bool f32 f64}
}
pub mod object {
    use vstd::prelude::*;
    /// what it holds is unit core's
    #[verifier::external_body]
    pub struct Object { _p: () }
    pub type ObjectHandle = crate::arena::Index<Object>;
    pub mod c_api {
        use vstd::prelude::*;
        use crate::ref_cast::RefCast;
//@struct tp_client::object::c_api::tp_client__object__ObjectHandle #[derive(Copy,Clone)]
pub use tp_client__object__ObjectHandle as ObjectHandle;
impl vstd::std_specs::convert::FromSpecImpl<super::ObjectHandle> for tp_client__object__ObjectHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: super::ObjectHandle) -> Self { tp_client__object__ObjectHandle { inner: v } }
}
impl From<super::ObjectHandle> for tp_client__object__ObjectHandle {
    //@traitfn tp_client::object::c_api::From<ObjectHandle>@tp_client__object__ObjectHandle::from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<tp_client__object__ObjectHandle> for super::ObjectHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: tp_client__object__ObjectHandle) -> Self { v.inner }
}
impl From<tp_client__object__ObjectHandle> for super::ObjectHandle {
    //@traitfn tp_client::object::c_api::From<tp_client__object__ObjectHandle>@ObjectHandle::from
    //@end
}
impl RefCast for tp_client__object__ObjectHandle {
    type From = super::ObjectHandle;
    open spec fn within(&self) -> super::ObjectHandle { self.inner }
    #[verifier::external_body]
    fn ref_cast<'a>(from: &'a super::ObjectHandle) -> &'a Self { unimplemented!() }
    #[verifier::external_body]
    fn ref_cast_mut<'a>(from: &'a mut super::ObjectHandle) -> &'a mut Self { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a super::ObjectHandle> for &'a tp_client__object__ObjectHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a super::ObjectHandle) -> &'a tp_client__object__ObjectHandle { &tp_client__object__ObjectHandle { inner: *v } }
}
impl<'a> From<&'a super::ObjectHandle> for &'a tp_client__object__ObjectHandle {
    //@traitfn tp_client::object::c_api::From<&ObjectHandle>@&ObjectHandle::from
    //@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a mut super::ObjectHandle> for &'a mut tp_client__object__ObjectHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a mut super::ObjectHandle) -> &'a mut tp_client__object__ObjectHandle { crate::ref_cast::seen(v) }
}
impl<'a> From<&'a mut super::ObjectHandle> for &'a mut tp_client__object__ObjectHandle {
    // as the one above (a reborrow is another reference to Verus)
    //@assumed tp_client::object::c_api::From<&mut ObjectHandle>@&mut ObjectHandle::from
    //@end
}

    }
}
pub mod contract {
    use vstd::prelude::*;
    //@struct tp_client::contract::ContractId #[derive(Copy,Clone)]
    /// std: a set; iteration gives each element once
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct HashSet<T> { _p: core::marker::PhantomData<T> }
    impl<T> HashSet<T> {
        pub uninterp spec fn has(&self, v: T) -> bool;
        #[verifier::external_body]
        pub fn v_iter<'a>(&'a self) -> (r: crate::stub::Items<&'a T>)
            ensures
                forall|i: int| 0 <= i < r.s().len() ==> self.has(*(#[trigger] r.s()[i])),
                forall|i: int, j: int| 0 <= i < j < r.s().len() ==> *(#[trigger] r.s()[i]) != *(#[trigger] r.s()[j]),
                forall|v: T| #[trigger] self.has(v) ==> exists|i: int| 0 <= i < r.s().len() && *(#[trigger] r.s()[i]) == v
        { unimplemented!() }
    }
    use crate::object::{Object, ObjectHandle};
    #[verifier::external_body]
    pub struct TypeList { _p: () }
    //@struct tp_client::contract::ContractData
    pub type ContractDataHandle = crate::arena::Index<ContractData>;
    pub mod c_api {
        use vstd::prelude::*;
        use super::{ContractData, ContractId};
        use crate::contract::properties::c_api::c_types;
        use crate::safer_ffi::prelude::*;
        use crate::stub::VecItems;
        broadcast use {crate::safer_ffi::vec::Vec::ax_of, crate::safer_ffi::prelude::str::ax_mk, crate::stub::ax_refl, crate::stub::ax_refl0};
        pub mod _ContractDataHandle {
            use vstd::prelude::*;
            use crate::ref_cast::RefCast;
            use crate::contract::ContractDataHandle as RContractDataHandle;
//@struct tp_client::contract::c_api::_ContractDataHandle::tp_client__contract__ContractDataHandle #[derive(Copy,Clone)]
pub use tp_client__contract__ContractDataHandle as ContractDataHandle;
impl vstd::std_specs::convert::FromSpecImpl<RContractDataHandle> for tp_client__contract__ContractDataHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: RContractDataHandle) -> Self { tp_client__contract__ContractDataHandle { inner: v } }
}
impl From<RContractDataHandle> for tp_client__contract__ContractDataHandle {
    //@traitfn tp_client::contract::c_api::_ContractDataHandle::From<RContractDataHandle>@tp_client__contract__ContractDataHandle::from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<tp_client__contract__ContractDataHandle> for RContractDataHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: tp_client__contract__ContractDataHandle) -> Self { v.inner }
}
impl From<tp_client__contract__ContractDataHandle> for RContractDataHandle {
    //@traitfn tp_client::contract::c_api::_ContractDataHandle::From<tp_client__contract__ContractDataHandle>@RContractDataHandle::from
    //@end
}
impl RefCast for tp_client__contract__ContractDataHandle {
    type From = RContractDataHandle;
    open spec fn within(&self) -> RContractDataHandle { self.inner }
    #[verifier::external_body]
    fn ref_cast<'a>(from: &'a RContractDataHandle) -> &'a Self { unimplemented!() }
    #[verifier::external_body]
    fn ref_cast_mut<'a>(from: &'a mut RContractDataHandle) -> &'a mut Self { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a RContractDataHandle> for &'a tp_client__contract__ContractDataHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a RContractDataHandle) -> &'a tp_client__contract__ContractDataHandle { &tp_client__contract__ContractDataHandle { inner: *v } }
}
impl<'a> From<&'a RContractDataHandle> for &'a tp_client__contract__ContractDataHandle {
    //@traitfn tp_client::contract::c_api::_ContractDataHandle::From<&RContractDataHandle>@&ContractDataHandle::from
    //@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a mut RContractDataHandle> for &'a mut tp_client__contract__ContractDataHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a mut RContractDataHandle) -> &'a mut tp_client__contract__ContractDataHandle { crate::ref_cast::seen(v) }
}
impl<'a> From<&'a mut RContractDataHandle> for &'a mut tp_client__contract__ContractDataHandle {
    // as the one above (a reborrow is another reference to Verus)
    //@assumed tp_client::contract::c_api::_ContractDataHandle::From<&mut RContractDataHandle>@&mut ContractDataHandle::from
    //@end
}

        }
        pub use _ContractDataHandle::ContractDataHandle;
        //@struct tp_client::contract::c_api::tp_client__contract__ContractId_Version
        pub use tp_client__contract__ContractId_Version as ContractId_Version;
        impl vstd::std_specs::convert::FromSpecImpl<(u16, u16, u16)> for ContractId_Version {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: (u16, u16, u16)) -> Self { ContractId_Version { major: v.0, minor: v.1, patch: v.2 } }
        }
        impl From<(u16, u16, u16)> for ContractId_Version {
            //@traitfn tp_client::contract::c_api::From@ContractId_Version::from
            //@end
        }
        //@fn tp_client::contract::c_api::tp_client__contract__ContractData__id
//@spec
    ensures *ret == $A0.id
//@end

        //@fn tp_client::contract::c_api::tp_client__contract__ContractData__objects
//@spec
    ensures
                forall|i: int| 0 <= i < ret.s().len() ==> $A0.objects.has((#[trigger] ret.s()[i]).inner),
                forall|i: int, j: int| 0 <= i < j < ret.s().len() ==> (#[trigger] ret.s()[i]).inner != (#[trigger] ret.s()[j]).inner,
                forall|v: crate::object::ObjectHandle| #[trigger] $A0.objects.has(v) ==> exists|i: int| 0 <= i < ret.s().len() && (#[trigger] ret.s()[i]).inner == v
//@index
//@closure 0
|__c0: &crate::object::ObjectHandle| -> (r: c_types::ObjectHandle) ensures r.inner == *__c0
//@end

        //@fn tp_client::contract::c_api::tp_client__contract__ContractId__name
//@spec
    ensures ret.s() == $A0.name@
//@end

        //@fn tp_client::contract::c_api::tp_client__contract__ContractId__version
//@spec
    ensures ret.major == $A0.version.0, ret.minor == $A0.version.1, ret.patch == $A0.version.2
//@end

    }
    /// implemented by declared contracts
    pub trait Contract: Sized {
        type States;
        type Channels;
        fn states(&self) -> &Self::States;
        fn handle(&self) -> ContractDataHandle;
    }
    pub mod properties {
        pub mod dynamic {
            use vstd::prelude::*;
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            use vstd::std_specs::convert::FromSpecImpl;
            //@enum tp_client::contract::properties::dynamic::property::DynTpPrimitive
            //@enum tp_client::contract::properties::dynamic::property::DynTpVec
            //@enum tp_client::contract::properties::dynamic::property::DynTpProperty
            /// what it holds is unit dynamic's
            #[verifier::external_body]
            pub struct DynChannel { _p: () }
            //@foreach
            impl FromSpecImpl<$T> for DynTpPrimitive {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: $T) -> Self { DynTpPrimitive::$V(v) }
            }
            impl From<$T> for DynTpPrimitive {
                //@traitfn tp_client::contract::properties::dynamic::property::From<$T>@DynTpPrimitive::from
                //@end
            }
            //@endfor
        }
        pub mod c_api {
            pub mod c_types {
                pub use crate::contract::c_api::ContractDataHandle;
                pub use crate::object::c_api::ObjectHandle;
                pub use core::primitive::{bool, f32, f64, i16, i32, i64, i8, u16, u32, u64, u8};
                pub use crate::rsharp::string::String;
            }
        }
        pub mod traits {
            pub trait ITpProperty: 'static {}
            pub trait ITpPropertyStatic: ITpProperty {}
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            //@foreach
            impl ITpProperty for $T {}
            impl ITpPropertyStatic for $T {}
            //@endfor
        }
        pub mod states {
            use vstd::prelude::*;
            use crate::contract::properties::traits::*;
            use core::marker::PhantomData;
            //@struct tp_client::contract::properties::states::State
            impl<T: ITpPropertyStatic> State<T> {
                //@fn tp_client::contract::properties::states::State::new
//@spec
    ensures ret.value == $A0
//@end

            }
            pub mod id {
                use vstd::prelude::*;
                use crate::contract::properties::traits::*;
                use crate::contract::ContractDataHandle;
                use core::marker::PhantomData;
                //@struct tp_client::contract::properties::states::id::StateId
                impl<T: ITpProperty> Copy for StateId<T> {}
                impl<T: ITpProperty> Clone for StateId<T> {
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                }
                impl<T: ITpProperty> StateId<T> {
                    //@fn tp_client::contract::properties::states::id::StateId::contract
//@spec
    ensures ret == self.contract
//@end

                }
                pub mod c_api {
                    //@foreach
                    pub mod _StateId_$V {
                        use vstd::prelude::*;
                        use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
                        use crate::contract::properties::states::StateId;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
                        use crate::safer_ffi::prelude::*;
                        use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

//@struct tp_client::contract::properties::states::id::c_api::_StateId_$V::tp_client__contract__properties__states__StateId_$V 
pub use tp_client__contract__properties__states__StateId_$V as StateId_$V;
impl vstd::std_specs::convert::FromSpecImpl<StateId<$T>> for tp_client__contract__properties__states__StateId_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StateId<$T>) -> Self { tp_client__contract__properties__states__StateId_$V { inner: v } }
}
impl From<StateId<$T>> for tp_client__contract__properties__states__StateId_$V {
    //@traitfn tp_client::contract::properties::states::id::c_api::_StateId_$V::From<StateId<$T>>@tp_client__contract__properties__states__StateId_$V::from
    //@end
}

                        pub use StateId_$V as Monomorphized;
                        //@fn tp_client::contract::properties::states::id::c_api::_StateId_$V::tp_client__contract__properties__states__StateId_$V__contract
//@spec
    ensures ret.v().inner == $A0.inner.contract
//@end

                    }
                    pub use _StateId_$V::Monomorphized as StateId_$V;
                    //@endfor
                }
            }
            pub use id::StateId;
            pub mod handle {
                use vstd::prelude::*;
                use crate::contract::properties::traits::*;
                use super::State;
                pub type StateHandle<T> = crate::arena::Index<State<T>>;
                pub trait IStateHandle {
                    type OutputRef<'a>;
                    type OutputMut<'a>;
                    spec fn got<'a>(&self, b: &'a crate::baseline::Baseline, r: crate::eyre::Result<Self::OutputRef<'a>>) -> bool;
                    #[verifier::prophetic]
                    spec fn got_mut<'a>(&self, a: crate::baseline::Baseline, b: crate::baseline::Baseline, r: crate::eyre::Result<Self::OutputMut<'a>>) -> bool;
                }
                impl<T: ITpPropertyStatic> IStateHandle for StateHandle<T> {
                    type OutputRef<'a> = &'a State<T>;
                    type OutputMut<'a> = &'a mut State<T>;
                    open spec fn got<'a>(&self, b: &'a crate::baseline::Baseline, r: crate::eyre::Result<&'a State<T>>) -> bool {
                        match r {
                            Ok(s) => b.state_at::<T>(self.inner) == Some(*s),
                            Err(_) => b.state_at::<T>(self.inner) is None,
                        }
                    }
                    #[verifier::prophetic]
                    open spec fn got_mut<'a>(&self, a: crate::baseline::Baseline, b: crate::baseline::Baseline, r: crate::eyre::Result<&'a mut State<T>>) -> bool {
                        &&& b.but_state::<T>(self.inner) == a.but_state::<T>(self.inner)
                        &&& match r {
                            Ok(s) => a.state_at::<T>(self.inner) == Some(*s) && b.state_at::<T>(self.inner) == Some(*final(s)),
                            Err(_) => a.state_at::<T>(self.inner) is None && b.state_at::<T>(self.inner) is None,
                        }
                    }
                }
                pub mod c_api {
                    //@foreach
                    pub mod _StateHandle_$V {
                        use vstd::prelude::*;
                        use super::super::*;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
//@struct tp_client::contract::properties::states::handle::c_api::_StateHandle_$V::tp_client__contract__properties__states__StateHandle_$V 
pub use tp_client__contract__properties__states__StateHandle_$V as StateHandle_$V;
impl vstd::std_specs::convert::FromSpecImpl<StateHandle<$T>> for tp_client__contract__properties__states__StateHandle_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StateHandle<$T>) -> Self { tp_client__contract__properties__states__StateHandle_$V { inner: v } }
}
impl From<StateHandle<$T>> for tp_client__contract__properties__states__StateHandle_$V {
    //@traitfn tp_client::contract::properties::states::handle::c_api::_StateHandle_$V::From<StateHandle<$T>>@tp_client__contract__properties__states__StateHandle_$V::from
    //@end
}

                    }
                    pub use _StateHandle_$V::StateHandle_$V;
                    //@endfor
                }
            }
            pub use handle::*;
            pub mod c_api {
                pub use super::handle::c_api::*;
                pub use super::id::c_api::*;
                //@foreach
                pub mod _State_$V {
                    use vstd::prelude::*;
                    use crate::ref_cast::RefCast;
                    use crate::contract::properties::states::*;
                    use crate::contract::properties::c_api::c_types;
                    use crate::contract::ContractDataHandle;
                    use crate::object::ObjectHandle;
                    use crate::safer_ffi::prelude::*;
                    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

//@struct tp_client::contract::properties::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V 
pub use tp_client__contract__properties__states__State_$V as State_$V;
impl vstd::std_specs::convert::FromSpecImpl<State<$T>> for tp_client__contract__properties__states__State_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: State<$T>) -> Self { tp_client__contract__properties__states__State_$V { inner: v } }
}
impl From<State<$T>> for tp_client__contract__properties__states__State_$V {
    //@traitfn tp_client::contract::properties::states::c_api::_State_$V::From<State<$T>>@tp_client__contract__properties__states__State_$V::from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<tp_client__contract__properties__states__State_$V> for State<$T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: tp_client__contract__properties__states__State_$V) -> Self { v.inner }
}
impl From<tp_client__contract__properties__states__State_$V> for State<$T> {
    //@traitfn tp_client::contract::properties::states::c_api::_State_$V::From<tp_client__contract__properties__states__State_$V>@State<$T>::from
    //@end
}
impl RefCast for tp_client__contract__properties__states__State_$V {
    type From = State<$T>;
    open spec fn within(&self) -> State<$T> { self.inner }
    #[verifier::external_body]
    fn ref_cast<'a>(from: &'a State<$T>) -> &'a Self { unimplemented!() }
    #[verifier::external_body]
    fn ref_cast_mut<'a>(from: &'a mut State<$T>) -> &'a mut Self { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a State<$T>> for &'a tp_client__contract__properties__states__State_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a State<$T>) -> &'a tp_client__contract__properties__states__State_$V { &tp_client__contract__properties__states__State_$V { inner: *v } }
}
impl<'a> From<&'a State<$T>> for &'a tp_client__contract__properties__states__State_$V {
    //@traitfn tp_client::contract::properties::states::c_api::_State_$V::From<&State<$T>>@&Monomorphized::from
    //@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a mut State<$T>> for &'a mut tp_client__contract__properties__states__State_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a mut State<$T>) -> &'a mut tp_client__contract__properties__states__State_$V { crate::ref_cast::seen(v) }
}
impl<'a> From<&'a mut State<$T>> for &'a mut tp_client__contract__properties__states__State_$V {
    // as the one above (a reborrow is another reference to Verus)
    //@assumed tp_client::contract::properties::states::c_api::_State_$V::From<&mut State<$T>>@&mut Monomorphized::from
    //@end
}

                    pub use State_$V as Monomorphized;
                    //@fn tp_client::contract::properties::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V__new
//@spec
    ensures ret.v().inner.value == $A0.v().rv()
//@end

                    //@fn tp_client::contract::properties::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V__value
//@spec
    ensures (*ret).rv() == $A0.inner.value
//@end

                    //@fn tp_client::contract::properties::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V__value_set
//@spec
    ensures final($A0).inner.value == $A1.v().rv()
//@end

                }
                pub use _State_$V::Monomorphized as State_$V;
                //@endfor
            }
        }
        pub mod channels {
            use vstd::prelude::*;
            use crate::contract::properties::traits::*;
            use crate::contract::ContractDataHandle;
            use core::marker::PhantomData;
            //@struct tp_client::contract::properties::channels::ChannelId
            impl<T: ITpProperty> Copy for ChannelId<T> {}
            impl<T: ITpProperty> Clone for ChannelId<T> {
                #[verifier::external_body]
                fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
            }
            impl<T: ITpProperty> ChannelId<T> {
                //@fn tp_client::contract::properties::channels::ChannelId::contract
//@spec
    ensures ret == self.contract
//@end

            }
            pub use channel::{Channel, Keyframe};
            pub use handle::ChannelHandle;
            pub mod handle {
                use super::*;
                pub type ChannelHandle<T> = crate::arena::Index<Channel<T>>;
                pub mod c_api {
                    use vstd::prelude::*;
                    use crate::contract::ContractDataHandle;
                    use crate::object::ObjectHandle;
                    //@foreach
//@struct tp_client::contract::properties::channels::handle::c_api::tp_client__contract__properties__channels__ChannelHandle_$V 
pub use tp_client__contract__properties__channels__ChannelHandle_$V as ChannelHandle_$V;
impl vstd::std_specs::convert::FromSpecImpl<super::ChannelHandle<$T>> for tp_client__contract__properties__channels__ChannelHandle_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: super::ChannelHandle<$T>) -> Self { tp_client__contract__properties__channels__ChannelHandle_$V { inner: v } }
}
impl From<super::ChannelHandle<$T>> for tp_client__contract__properties__channels__ChannelHandle_$V {
    //@traitfn tp_client::contract::properties::channels::handle::c_api::From<ChannelHandle<$T>>@tp_client__contract__properties__channels__ChannelHandle_$V::from
    //@end
}

                    //@endfor
                }
            }
            pub mod channel {
                use vstd::prelude::*;
                use crate::contract::properties::traits::*;
                //@struct tp_client::contract::properties::channels::channel::Keyframe
                //@struct tp_client::contract::properties::channels::channel::Channel
                impl<T: ITpProperty> Keyframe<T> {
                    //@assumed tp_client::contract::properties::channels::channel::Keyframe::new
//@spec
    ensures ret.value == $A0, ret.time == $A1
//@end

                    //@assumed tp_client::contract::properties::channels::channel::Keyframe::value
//@spec
    ensures *ret == self.value
//@end

                    //@assumed tp_client::contract::properties::channels::channel::Keyframe::time
//@spec
    ensures ret == self.time
//@end

                }
                use crate::stub::Iterator;
                /// `c` is what Channel::new can make of the keyframes `s` (see unit channel)
                pub uninterp spec fn made_of<T: ITpProperty>(c: Channel<T>, s: Seq<Keyframe<T>>) -> bool;
                impl<T: ITpProperty> Channel<T> {
                    //@assumed tp_client::contract::properties::channels::channel::Channel::new
//@spec
    ensures made_of(ret, $A0.rem())
//@end

                    //@assumed tp_client::contract::properties::channels::channel::Channel::keyframes
//@spec
    ensures *ret == self.0
//@end

                    //@assumed tp_client::contract::properties::channels::channel::Channel::keyframes_mut
//@spec
    ensures *ret == old(self).0, final(self).0 == *final(ret)
//@end

                }
                pub mod c_api {
                    //@foreach
                    pub mod _Keyframe_$V {
                        use vstd::prelude::*;
                        use crate::ref_cast::RefCast;
                        use super::super::*;
                        use crate::contract::properties::c_api::c_types;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
                        use crate::safer_ffi::prelude::*;
                        use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

//@struct tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V 
pub use tp_client__contract__properties__channels__Keyframe_$V as Keyframe_$V;
impl vstd::std_specs::convert::FromSpecImpl<Keyframe<$T>> for tp_client__contract__properties__channels__Keyframe_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Keyframe<$T>) -> Self { tp_client__contract__properties__channels__Keyframe_$V { inner: v } }
}
impl From<Keyframe<$T>> for tp_client__contract__properties__channels__Keyframe_$V {
    //@traitfn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::From<Keyframe<$T>>@tp_client__contract__properties__channels__Keyframe_$V::from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<tp_client__contract__properties__channels__Keyframe_$V> for Keyframe<$T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: tp_client__contract__properties__channels__Keyframe_$V) -> Self { v.inner }
}
impl From<tp_client__contract__properties__channels__Keyframe_$V> for Keyframe<$T> {
    //@traitfn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::From<tp_client__contract__properties__channels__Keyframe_$V>@Keyframe<$T>::from
    //@end
}
impl RefCast for tp_client__contract__properties__channels__Keyframe_$V {
    type From = Keyframe<$T>;
    open spec fn within(&self) -> Keyframe<$T> { self.inner }
    #[verifier::external_body]
    fn ref_cast<'a>(from: &'a Keyframe<$T>) -> &'a Self { unimplemented!() }
    #[verifier::external_body]
    fn ref_cast_mut<'a>(from: &'a mut Keyframe<$T>) -> &'a mut Self { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Keyframe<$T>> for &'a tp_client__contract__properties__channels__Keyframe_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Keyframe<$T>) -> &'a tp_client__contract__properties__channels__Keyframe_$V { &tp_client__contract__properties__channels__Keyframe_$V { inner: *v } }
}
impl<'a> From<&'a Keyframe<$T>> for &'a tp_client__contract__properties__channels__Keyframe_$V {
    //@traitfn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::From<&Keyframe<$T>>@&Monomorphized::from
    //@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a mut Keyframe<$T>> for &'a mut tp_client__contract__properties__channels__Keyframe_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a mut Keyframe<$T>) -> &'a mut tp_client__contract__properties__channels__Keyframe_$V { crate::ref_cast::seen(v) }
}
impl<'a> From<&'a mut Keyframe<$T>> for &'a mut tp_client__contract__properties__channels__Keyframe_$V {
    // as the one above (a reborrow is another reference to Verus)
    //@assumed tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::From<&mut Keyframe<$T>>@&mut Monomorphized::from
    //@end
}

                        pub use Keyframe_$V as Monomorphized;
                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V__new
//@spec
    ensures ret.v().inner.value == $A0.v().rv(), ret.v().inner.time == $A1
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V__value
//@spec
    ensures (*ret).rv() == $A0.inner.value
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V__time
//@spec
    ensures ret == $A0.inner.time
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__new
//@spec
    ensures ret.s() == Seq::<Keyframe_$V>::empty()
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__push
//@spec
    ensures final($A0).s() == old($A0).s().push($A1.v())
//@index
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__get
//@spec
    requires $A1 < $A0.s().len() ensures *ret == $A0.s()[$A1 as int]
//@index
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__set
//@spec
    requires $A1 < old($A0).s().len() ensures final($A0).s() == old($A0).s().update($A1 as int, $A2.v())
//@index
//@end

                    }
                    pub mod _Channel_$V {
                        use vstd::prelude::*;
                        use crate::ref_cast::RefCast;
                        use super::super::*;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
                        use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

//@struct tp_client::contract::properties::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V 
pub use tp_client__contract__properties__channels__Channel_$V as Channel_$V;
impl vstd::std_specs::convert::FromSpecImpl<Channel<$T>> for tp_client__contract__properties__channels__Channel_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Channel<$T>) -> Self { tp_client__contract__properties__channels__Channel_$V { inner: v } }
}
impl From<Channel<$T>> for tp_client__contract__properties__channels__Channel_$V {
    //@traitfn tp_client::contract::properties::channels::channel::c_api::_Channel_$V::From<Channel<$T>>@tp_client__contract__properties__channels__Channel_$V::from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<tp_client__contract__properties__channels__Channel_$V> for Channel<$T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: tp_client__contract__properties__channels__Channel_$V) -> Self { v.inner }
}
impl From<tp_client__contract__properties__channels__Channel_$V> for Channel<$T> {
    //@traitfn tp_client::contract::properties::channels::channel::c_api::_Channel_$V::From<tp_client__contract__properties__channels__Channel_$V>@Channel<$T>::from
    //@end
}
impl RefCast for tp_client__contract__properties__channels__Channel_$V {
    type From = Channel<$T>;
    open spec fn within(&self) -> Channel<$T> { self.inner }
    #[verifier::external_body]
    fn ref_cast<'a>(from: &'a Channel<$T>) -> &'a Self { unimplemented!() }
    #[verifier::external_body]
    fn ref_cast_mut<'a>(from: &'a mut Channel<$T>) -> &'a mut Self { unimplemented!() }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Channel<$T>> for &'a tp_client__contract__properties__channels__Channel_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Channel<$T>) -> &'a tp_client__contract__properties__channels__Channel_$V { &tp_client__contract__properties__channels__Channel_$V { inner: *v } }
}
impl<'a> From<&'a Channel<$T>> for &'a tp_client__contract__properties__channels__Channel_$V {
    //@traitfn tp_client::contract::properties::channels::channel::c_api::_Channel_$V::From<&Channel<$T>>@&Monomorphized::from
    //@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a mut Channel<$T>> for &'a mut tp_client__contract__properties__channels__Channel_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a mut Channel<$T>) -> &'a mut tp_client__contract__properties__channels__Channel_$V { crate::ref_cast::seen(v) }
}
impl<'a> From<&'a mut Channel<$T>> for &'a mut tp_client__contract__properties__channels__Channel_$V {
    // as the one above (a reborrow is another reference to Verus)
    //@assumed tp_client::contract::properties::channels::channel::c_api::_Channel_$V::From<&mut Channel<$T>>@&mut Monomorphized::from
    //@end
}

                        pub use Channel_$V as Monomorphized;
                        use super::_Keyframe_$V::Monomorphized as Keyframe_Monomorphized;
                        use crate::safer_ffi::prelude::*;
                        use crate::stub::VecItems;
                        //@fn tp_client::contract::properties::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V__new
//@spec
    ensures exists|s: Seq<Keyframe<$T>>| #[trigger] made_of(ret.v().inner, s) && s.len() == $A0.s().len()
                            && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == $A0.s()[i].inner
//@index
//@closure 0
|__c0: Keyframe_Monomorphized| -> (r: Keyframe<$T>) ensures r == __c0.inner
//@entry
proof {{ assert(forall|c: Channel<$T>| (#[trigger] <Monomorphized as vstd::std_specs::convert::FromSpec<Channel<$T>>>::from_spec(c)).inner == c); }}
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V__keyframes
//@spec
    ensures ret.s().len() == $A0.inner.0@.len(),
                            forall|i: int| 0 <= i < ret.s().len() ==> (*(#[trigger] ret.s()[i])).inner == $A0.inner.0@[i]
//@index
//@closure 0
|__c0: &Keyframe<$T>| -> (r: &Keyframe_Monomorphized) ensures (*r).inner == *__c0
//@end

                        //@fn tp_client::contract::properties::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V__keyframes_mut
//@spec
    ensures ret.s().len() == old($A0).inner.0@.len(), final($A0).inner.0@.len() == old($A0).inner.0@.len(),
                            forall|i: int| 0 <= i < ret.s().len() ==> {{ &&& (*(#[trigger] ret.s()[i])).inner == old($A0).inner.0@[i]
                                &&& (*final(ret.s()[i])).inner == final($A0).inner.0@[i] }}
//@index
//@closure 0
|__c0: &mut Keyframe<$T>| -> (r: &mut Keyframe_Monomorphized) ensures crate::ref_cast::same_place(__c0, r)
//@end

                    }
                    pub use _Keyframe_$V::Monomorphized as Keyframe_$V;
                    pub use _Channel_$V::Monomorphized as Channel_$V;
                    //@endfor
                }
            }
            pub mod c_api {
                pub use super::channel::c_api::*;
                pub use super::handle::c_api::*;
                use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
                //@foreach
                pub mod _ChannelId_$V {
                    use vstd::prelude::*;
                    use super::super::*;
                    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
                    use crate::object::ObjectHandle;
                    use crate::safer_ffi::prelude::*;
                    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

//@struct tp_client::contract::properties::channels::c_api::_ChannelId_$V::tp_client__contract__properties__channels__ChannelId_$V 
pub use tp_client__contract__properties__channels__ChannelId_$V as ChannelId_$V;
impl vstd::std_specs::convert::FromSpecImpl<ChannelId<$T>> for tp_client__contract__properties__channels__ChannelId_$V {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ChannelId<$T>) -> Self { tp_client__contract__properties__channels__ChannelId_$V { inner: v } }
}
impl From<ChannelId<$T>> for tp_client__contract__properties__channels__ChannelId_$V {
    //@traitfn tp_client::contract::properties::channels::c_api::_ChannelId_$V::From<ChannelId<$T>>@tp_client__contract__properties__channels__ChannelId_$V::from
    //@end
}

                    pub use ChannelId_$V as Monomorphized;
                    //@fn tp_client::contract::properties::channels::c_api::_ChannelId_$V::ChannelId_$V__contract
//@spec
    ensures ret.v().inner == $A0.inner.contract
//@end

                }
                pub use _ChannelId_$V::Monomorphized as ChannelId_$V;
                //@endfor
            }
        }
    }
}

pub mod baseline {
    use vstd::prelude::*;
    use crate::generational_arena as ga;
    use crate::eyre::Result;
    use crate::object::{Object, ObjectHandle};
    use crate::contract::{ContractData, ContractDataHandle};
    use crate::contract::properties::traits::*;
    use crate::contract::properties::states::*;
    use crate::contract::properties::channels::*;
    use crate::contract::Contract;
    use crate::contract::properties::dynamic::{DynTpProperty, DynChannel};
    use crate::stub::Iterator;
    //@enum tp_client::baseline::BaselineKind #[derive(Copy,Clone)]
    /// What it holds is unit core's: here only what can be reached. A `but_` is all else there is in it.
    #[verifier::external_body]
    pub struct Baseline { _p: () }
    impl Baseline {
        pub uninterp spec fn k(&self) -> BaselineKind;
        pub uninterp spec fn fresh(&self) -> bool;
        pub uninterp spec fn contract_at(&self, i: ga::Index) -> Option<ContractData>;
        pub uninterp spec fn object_at(&self, i: ga::Index) -> Option<Object>;
        pub uninterp spec fn but_object(&self, i: ga::Index) -> int;
        pub uninterp spec fn state_at<T: ITpPropertyStatic>(&self, i: ga::Index) -> Option<State<T>>;
        pub uninterp spec fn but_state<T: ITpPropertyStatic>(&self, i: ga::Index) -> int;
        pub uninterp spec fn channel_at<T: ITpProperty>(&self, i: ga::Index) -> Option<Channel<T>>;
        pub uninterp spec fn but_channel<T: ITpProperty>(&self, i: ga::Index) -> int;
        /// the handle of an object's field, if it has it
        pub uninterp spec fn bound_state(&self, contract: ContractDataHandle, field: usize, o: ga::Index) -> Option<ga::Index>;
        pub uninterp spec fn bound_channel(&self, contract: ContractDataHandle, field: usize, o: ga::Index) -> Option<ga::Index>;
        // what happens to it as a whole is units core's and dynamic's: here it is a relation of before, after, what was given and what came out
        pub uninterp spec fn can_register<C: Contract>(&self) -> bool;
        pub uninterp spec fn registered<C: Contract>(old: Self, new: Self, c: C) -> bool;
        pub uninterp spec fn can_unregister<C: Contract>(&self, h: ContractDataHandle) -> bool;
        pub uninterp spec fn unregistered<C: Contract>(old: Self, new: Self, h: ContractDataHandle) -> bool;
        pub uninterp spec fn can_create<C: Contract>(&self, c: C, states: Seq<DynTpProperty>, channels: Seq<DynChannel>) -> bool;
        pub uninterp spec fn created<C: Contract>(old: Self, new: Self, c: C, states: Seq<DynTpProperty>, channels: Seq<DynChannel>, o: ObjectHandle) -> bool;
        pub uninterp spec fn can_remove<C: Contract>(&self, o: ObjectHandle) -> bool;
        pub uninterp spec fn removed<C: Contract>(old: Self, new: Self, o: ObjectHandle) -> bool;
        //@assumed tp_client::baseline::Baseline::register_contract
//@spec
    ensures ret is Ok == old(self).can_register::<C>(), ret matches Ok(c) ==> Self::registered(*old(self), *final(self), c)
//@end

        //@assumed tp_client::baseline::Baseline::unregister_contract
//@spec
    ensures ret is Ok == old(self).can_unregister::<C>($A0), ret is Ok ==> Self::unregistered::<C>(*old(self), *final(self), $A0)
//@end

        //@assumed tp_client::baseline::Baseline::object_create
//@spec
    ensures ret is Ok == old(self).can_create(*$A0, $A1.rem(), $A2.rem()), ret matches Ok(o) ==> Self::created(*old(self), *final(self), *$A0, $A1.rem(), $A2.rem(), o)
//@end

        //@assumed tp_client::baseline::Baseline::object_remove
//@spec
    ensures ret is Ok == old(self).can_remove::<C>($A0), ret is Ok ==> Self::removed::<C>(*old(self), *final(self), $A0)
//@end

        //@assumed tp_client::baseline::Baseline::new
//@spec
    ensures ret.k() == $A0, ret.fresh()
//@end

        //@assumed tp_client::baseline::Baseline::kind
//@spec
    ensures ret == self.k()
//@end

        //@assumed tp_client::baseline::Baseline::contract_data
//@spec
    ensures match ret {
        Ok(s) => self.contract_at($A0.inner) == Some(*s),
        Err(_) => self.contract_at($A0.inner) is None,
    }
//@end

        //@assumed tp_client::baseline::Baseline::object
//@spec
    ensures match ret {
        Ok(s) => self.object_at($A0.inner) == Some(*s),
        Err(_) => self.object_at($A0.inner) is None,
    }
//@end

        //@assumed tp_client::baseline::Baseline::object_mut
//@spec
    ensures
        final(self).but_object($A0.inner) == old(self).but_object($A0.inner),
        match ret {
            Ok(s) => old(self).object_at($A0.inner) == Some(*s) && final(self).object_at($A0.inner) == Some(*final(s)),
            Err(_) => old(self).object_at($A0.inner) is None && final(self).object_at($A0.inner) is None,
        }
//@end

        //@assumed tp_client::baseline::Baseline::state
//@spec
    ensures $A0.got(self, ret)
//@end

        //@assumed tp_client::baseline::Baseline::state_mut
//@spec
    ensures $A0.got_mut(*old(self), *final(self), ret)
//@end

        //@assumed tp_client::baseline::Baseline::channel
//@spec
    ensures match ret {
        Ok(s) => self.channel_at::<T>($A0.inner) == Some(*s),
        Err(_) => self.channel_at::<T>($A0.inner) is None,
    }
//@end

        //@assumed tp_client::baseline::Baseline::channel_mut
//@spec
    ensures
        final(self).but_channel::<T>($A0.inner) == old(self).but_channel::<T>($A0.inner),
        match ret {
            Ok(s) => old(self).channel_at::<T>($A0.inner) == Some(*s) && final(self).channel_at::<T>($A0.inner) == Some(*final(s)),
            Err(_) => old(self).channel_at::<T>($A0.inner) is None && final(self).channel_at::<T>($A0.inner) is None,
        }
//@end

        //@assumed tp_client::baseline::Baseline::bind_state
//@spec
    ensures match ret { Ok(h) => self.bound_state($A0.contract, $A0.idx, $A1.inner) == Some(h.inner), Err(_) => self.bound_state($A0.contract, $A0.idx, $A1.inner) is None }
//@end

        //@assumed tp_client::baseline::Baseline::bind_channel
//@spec
    ensures match ret { Ok(h) => self.bound_channel($A0.contract, $A0.idx, $A1.inner) == Some(h.inner), Err(_) => self.bound_channel($A0.contract, $A0.idx, $A1.inner) is None }
//@end

    }
    pub mod c_api {
        use vstd::prelude::*;
        use super::*;
        use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
        use crate::object::c_api::ObjectHandle as CObjectHandle;
        use crate::safer_ffi::prelude::*;
        use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

        //@fn tp_client::baseline::c_api::tp_client__baseline__Baseline__new
//@spec
    ensures ret.v().k() == $A0, ret.v().fresh()
//@end

        //@fn tp_client::baseline::c_api::tp_client__baseline__Baseline__kind
//@spec
    ensures ret == $A0.k()
//@end

        //@fn tp_client::baseline::c_api::tp_client__baseline__Baseline__contract_data
//@spec
    requires $A0.contract_at($A1.inner.inner) is Some ensures $A0.contract_at($A1.inner.inner) == Some(*ret)
//@end

        //@fn tp_client::baseline::c_api::tp_client__baseline__Baseline__object
//@spec
    requires $A0.object_at($A1.inner.inner) is Some ensures $A0.object_at($A1.inner.inner) == Some(*ret)
//@end

        //@fn tp_client::baseline::c_api::tp_client__baseline__Baseline__object_mut
//@spec
    requires old($A0).object_at($A1.inner.inner) is Some
    ensures old($A0).object_at($A1.inner.inner) == Some(*ret), final($A0).object_at($A1.inner.inner) == Some(*final(ret)),
        final($A0).but_object($A1.inner.inner) == old($A0).but_object($A1.inner.inner)
//@end

        //@foreach
        pub mod _Baseline_$V {
            use vstd::prelude::*;
            use crate::baseline::*;
            use crate::object::c_api::ObjectHandle as CObjectHandle;
            use crate::safer_ffi::prelude::*;
            use crate::contract::properties::states::c_api::StateHandle_$V as Monomorphized_StateHandle;
            use crate::contract::properties::states::c_api::State_$V as Monomorphized_State;
            use crate::contract::properties::channels::c_api::ChannelHandle_$V as Monomorphized_ChannelHandle;
            use crate::contract::properties::channels::c_api::Channel_$V as Monomorphized_Channel;
            use crate::contract::properties::states::c_api::StateId_$V as Monomorphized_StateId;
            use crate::contract::properties::channels::c_api::ChannelId_$V as Monomorphized_ChannelId;
            use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

            //@fn tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__state_$V
//@spec
    requires $A0.state_at::<$T>($A1.inner.inner) is Some ensures $A0.state_at::<$T>($A1.inner.inner) == Some(ret.inner)
//@end

            //@fn tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__state_mut_$V
//@spec
    requires old($A0).state_at::<$T>($A1.inner.inner) is Some
    ensures old($A0).state_at::<$T>($A1.inner.inner) == Some((*ret).inner), final($A0).state_at::<$T>($A1.inner.inner) == Some((*final(ret)).inner),
        final($A0).but_state::<$T>($A1.inner.inner) == old($A0).but_state::<$T>($A1.inner.inner)
//@end

            //@fn tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__channel_$V
//@spec
    requires $A0.channel_at::<$T>($A1.inner.inner) is Some ensures $A0.channel_at::<$T>($A1.inner.inner) == Some(ret.inner)
//@end

            //@fn tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__channel_mut_$V
//@spec
    requires old($A0).channel_at::<$T>($A1.inner.inner) is Some
    ensures old($A0).channel_at::<$T>($A1.inner.inner) == Some((*ret).inner), final($A0).channel_at::<$T>($A1.inner.inner) == Some((*final(ret)).inner),
        final($A0).but_channel::<$T>($A1.inner.inner) == old($A0).but_channel::<$T>($A1.inner.inner)
//@end

            //@fn tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__bind_state_$V
//@spec
    requires $A0.bound_state($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) is Some
    ensures $A0.bound_state($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) == Some(ret.v().inner.inner)
//@end

            //@fn tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__bind_channel_$V
//@spec
    requires $A0.bound_channel($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) is Some
    ensures $A0.bound_channel($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) == Some(ret.v().inner.inner)
//@end

        }
        //@endfor
    }
}

pub mod tp_client { pub use crate::contract; }
pub mod unity_states {
    use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{Contract, ContractDataHandle};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{DynTpProperty, DynTpPrimitive, DynChannel};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

    //@struct unity_states::BallContract
    //@struct unity_states::BallStates
    
    impl crate::contract::Contract for BallContract {
        type States = BallStates;
        type Channels = ();
        //@traitfn unity_states::Contract@BallContract::states
        //@spec
            ensures *ret == self.states
        //@end
        //@traitfn unity_states::Contract@BallContract::handle
        //@spec
            ensures ret == self.handle
        //@end
    }
    pub mod c_api {
        pub mod _BallStates {
    use super::super::*;
    use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{Contract, ContractDataHandle};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{DynTpProperty, DynTpPrimitive, DynChannel};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

    //@fn unity_states::c_api::_BallStates::BallStates__pos_x
//@spec
    ensures ret.v().inner == $A0.pos_x
//@end

//@fn unity_states::c_api::_BallStates::BallStates__pos_y
//@spec
    ensures ret.v().inner == $A0.pos_y
//@end

//@fn unity_states::c_api::_BallStates::BallStates__pos_z
//@spec
    ensures ret.v().inner == $A0.pos_z
//@end

//@fn unity_states::c_api::_BallStates::BallStates__euler_x
//@spec
    ensures ret.v().inner == $A0.euler_x
//@end

//@fn unity_states::c_api::_BallStates::BallStates__euler_y
//@spec
    ensures ret.v().inner == $A0.euler_y
//@end

//@fn unity_states::c_api::_BallStates::BallStates__euler_z
//@spec
    ensures ret.v().inner == $A0.euler_z
//@end

//@fn unity_states::c_api::_BallStates::BallStates__scale_x
//@spec
    ensures ret.v().inner == $A0.scale_x
//@end

//@fn unity_states::c_api::_BallStates::BallStates__scale_y
//@spec
    ensures ret.v().inner == $A0.scale_y
//@end

//@fn unity_states::c_api::_BallStates::BallStates__scale_z
//@spec
    ensures ret.v().inner == $A0.scale_z
//@end

//@fn unity_states::c_api::_BallStates::BallStates__color
//@spec
    ensures ret.v().inner == $A0.color
//@end

        }
        pub mod _BallContract {
    use super::super::*;
    use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{Contract, ContractDataHandle};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{DynTpProperty, DynTpPrimitive, DynChannel};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

    //@fn unity_states::c_api::_BallContract::BallContract__handle
//@spec
    ensures ret.v().inner == $A0.handle
//@end

//@fn unity_states::c_api::_BallContract::BallContract__states
//@spec
    ensures *ret == $A0.states
//@end

//@fn unity_states::c_api::_BallContract::BallContract__register
//@spec
    requires old($A0).can_register::<BallContract>() ensures Baseline::registered(*old($A0), *final($A0), ret.v())
//@end

//@fn unity_states::c_api::_BallContract::BallContract__object_remove
//@spec
    requires old($A0).can_remove::<BallContract>($A1.v().inner) ensures Baseline::removed::<BallContract>(*old($A0), *final($A0), $A1.v().inner)
//@end

//@fn unity_states::c_api::_BallContract::BallContract__object_create
//@spec
    requires forall|s: Seq<DynTpProperty>, c: Seq<DynChannel>| s.len() == 10 && c.len() == 0 && s[0] == DynTpProperty::Primitive(DynTpPrimitive::F32($A2)) && s[1] == DynTpProperty::Primitive(DynTpPrimitive::F32($A3)) && s[2] == DynTpProperty::Primitive(DynTpPrimitive::F32($A4)) && s[3] == DynTpProperty::Primitive(DynTpPrimitive::I16($A5)) && s[4] == DynTpProperty::Primitive(DynTpPrimitive::I16($A6)) && s[5] == DynTpProperty::Primitive(DynTpPrimitive::I16($A7)) && s[6] == DynTpProperty::Primitive(DynTpPrimitive::F32($A8)) && s[7] == DynTpProperty::Primitive(DynTpPrimitive::F32($A9)) && s[8] == DynTpProperty::Primitive(DynTpPrimitive::F32($A10)) && s[9] == DynTpProperty::Primitive(DynTpPrimitive::U64($A11)) ==> #[trigger] old($A0).can_create(*$A1, s, c)
    ensures exists|s: Seq<DynTpProperty>, c: Seq<DynChannel>| #[trigger] Baseline::created(*old($A0), *final($A0), *$A1, s, c, ret.v().inner) && s.len() == 10 && c.len() == 0 && s[0] == DynTpProperty::Primitive(DynTpPrimitive::F32($A2)) && s[1] == DynTpProperty::Primitive(DynTpPrimitive::F32($A3)) && s[2] == DynTpProperty::Primitive(DynTpPrimitive::F32($A4)) && s[3] == DynTpProperty::Primitive(DynTpPrimitive::I16($A5)) && s[4] == DynTpProperty::Primitive(DynTpPrimitive::I16($A6)) && s[5] == DynTpProperty::Primitive(DynTpPrimitive::I16($A7)) && s[6] == DynTpProperty::Primitive(DynTpPrimitive::F32($A8)) && s[7] == DynTpProperty::Primitive(DynTpPrimitive::F32($A9)) && s[8] == DynTpProperty::Primitive(DynTpPrimitive::F32($A10)) && s[9] == DynTpProperty::Primitive(DynTpPrimitive::U64($A11))
//@end

//@fn unity_states::c_api::_BallContract::BallContract__unregister
//@spec
    requires old($A0).can_unregister::<BallContract>($A1.v().inner) ensures Baseline::unregistered::<BallContract>(*old($A0), *final($A0), $A1.v().inner)
//@end

        }
    }
}
pub mod tp_contract_example {
    use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{Contract, ContractDataHandle};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{DynTpProperty, DynTpPrimitive, DynChannel};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

    //@struct tp_contract_example::tp_contract_example__ExampleContract
    pub use tp_contract_example__ExampleContract as ExampleContract;
    pub use states::ExampleStates;
    
    impl crate::contract::Contract for ExampleContract {
        type States = ExampleStates;
        type Channels = ();
        //@traitfn tp_contract_example::Contract@ExampleContract::states
        //@spec
            ensures *ret == self.states
        //@end
        //@traitfn tp_contract_example::Contract@ExampleContract::handle
        //@spec
            ensures ret == self.handle
        //@end
    }
    pub mod states {
    use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{Contract, ContractDataHandle};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{DynTpProperty, DynTpPrimitive, DynChannel};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

        //@struct tp_contract_example::states::_dummy::tp_contract_example__ExampleStates
        pub use tp_contract_example__ExampleStates as ExampleStates;
    //@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__u8_0
//@spec
    ensures ret.v().inner == $A0.u8_0
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__u8_1
//@spec
    ensures ret.v().inner == $A0.u8_1
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__i8_0
//@spec
    ensures ret.v().inner == $A0.i8_0
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__i8_1
//@spec
    ensures ret.v().inner == $A0.i8_1
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__f32_0
//@spec
    ensures ret.v().inner == $A0.f32_0
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__f32_1
//@spec
    ensures ret.v().inner == $A0.f32_1
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__str_0
//@spec
    ensures ret.v().inner == $A0.str_0
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__oh_0
//@spec
    ensures ret.v().inner == $A0.oh_0
//@end

//@fn tp_contract_example::states::_dummy::tp_contract_example__ExampleStates__ch_0
//@spec
    ensures ret.v().inner == $A0.ch_0
//@end

    }
    pub mod c_api {
    use super::ExampleStates;
    use super::ExampleContract;
    use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{Contract, ContractDataHandle};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{DynTpProperty, DynTpPrimitive, DynChannel};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    use crate::cval::CVal;
broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};

    //@fn tp_contract_example::c_api::tp_contract_example__ExampleContract__handle
//@spec
    ensures ret.v().inner == $A0.handle
//@end

//@fn tp_contract_example::c_api::tp_contract_example__ExampleContract__states
//@spec
    ensures *ret == $A0.states
//@end

//@fn tp_contract_example::c_api::tp_contract_example__ExampleContract__register
//@spec
    requires old($A0).can_register::<ExampleContract>() ensures Baseline::registered(*old($A0), *final($A0), ret.v())
//@end

//@fn tp_contract_example::c_api::tp_contract_example__ExampleContract__object_remove
//@spec
    requires old($A0).can_remove::<ExampleContract>($A1.v().inner) ensures Baseline::removed::<ExampleContract>(*old($A0), *final($A0), $A1.v().inner)
//@end

//@fn tp_contract_example::c_api::tp_contract_example__ExampleContract__object_create
//@spec
    requires forall|s: Seq<DynTpProperty>, c: Seq<DynChannel>| s.len() == 9 && c.len() == 0 && s[0] == DynTpProperty::Primitive(DynTpPrimitive::U8($A2)) && s[1] == DynTpProperty::Primitive(DynTpPrimitive::U8($A3)) && s[2] == DynTpProperty::Primitive(DynTpPrimitive::I8($A4)) && s[3] == DynTpProperty::Primitive(DynTpPrimitive::I8($A5)) && s[4] == DynTpProperty::Primitive(DynTpPrimitive::F32($A6)) && s[5] == DynTpProperty::Primitive(DynTpPrimitive::F32($A7)) && s[6] == DynTpProperty::Primitive(DynTpPrimitive::String($A8.v().inner)) && s[7] == DynTpProperty::Primitive(DynTpPrimitive::ObjectHandle($A9.v().inner)) && s[8] == DynTpProperty::Primitive(DynTpPrimitive::ContractDataHandle($A10.v().inner)) ==> #[trigger] old($A1).can_create(*$A0, s, c)
    ensures exists|s: Seq<DynTpProperty>, c: Seq<DynChannel>| #[trigger] Baseline::created(*old($A1), *final($A1), *$A0, s, c, ret.v().inner) && s.len() == 9 && c.len() == 0 && s[0] == DynTpProperty::Primitive(DynTpPrimitive::U8($A2)) && s[1] == DynTpProperty::Primitive(DynTpPrimitive::U8($A3)) && s[2] == DynTpProperty::Primitive(DynTpPrimitive::I8($A4)) && s[3] == DynTpProperty::Primitive(DynTpPrimitive::I8($A5)) && s[4] == DynTpProperty::Primitive(DynTpPrimitive::F32($A6)) && s[5] == DynTpProperty::Primitive(DynTpPrimitive::F32($A7)) && s[6] == DynTpProperty::Primitive(DynTpPrimitive::String($A8.v().inner)) && s[7] == DynTpProperty::Primitive(DynTpPrimitive::ObjectHandle($A9.v().inner)) && s[8] == DynTpProperty::Primitive(DynTpPrimitive::ContractDataHandle($A10.v().inner))
//@end

    }
}
}
fn main() {}
