// Contracts on the exported C functions of /repo: each does what the Rust function it stands for does.
// Extracted as core.rs is, from the crate expanded with its feature `c_api`.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;

verus! {

pub mod stub {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }
    pub open spec fn copied<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] vstd::pervasive::cloned::<T>(a[i], b[i])
    }
    pub broadcast proof fn lemma_copied(a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] copied(a, b)
        ensures a == b
    {
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(vstd::pervasive::cloned::<u8>(a[i], b[i]));
        }
        assert(a =~= b);
    }
    /// std iterators that end, over a vector or by `map`: the sequence of what is still to come
    pub trait Iterator: Sized {
        type Item;
        spec fn rem(&self) -> Seq<Self::Item>;
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Items<T> { p: core::marker::PhantomData<T> }
    impl<T> Items<T> {
        pub uninterp spec fn s(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn v_map<B, F: FnMut(T) -> B>(self, f: F) -> (r: Items<B>)
            requires forall|i: int| 0 <= i < self.s().len() ==> #[trigger] f.requires((self.s()[i],))
            ensures
                r.s().len() == self.s().len(),
                forall|i: int| #![trigger r.s()[i]] #![trigger self.s()[i]] 0 <= i < self.s().len() ==> f.ensures((self.s()[i],), r.s()[i])
        { unimplemented!() }
        #[verifier::external_body]
        pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self.s() { unimplemented!() }
    }
    impl<T> Iterator for Items<T> {
        type Item = T;
        open spec fn rem(&self) -> Seq<T> { self.s() }
    }
    pub trait VecItems<T> {
        spec fn all(&self) -> Seq<T>;
        fn v_iter<'a>(&'a self) -> (r: Items<&'a T>)
            ensures r.s().len() == self.all().len(), forall|i: int| 0 <= i < self.all().len() ==> *(#[trigger] r.s()[i]) == self.all()[i];
        fn v_iter_mut<'a>(&'a mut self) -> (r: Items<&'a mut T>)
            ensures
                r.s().len() == old(self).all().len(), final(self).all().len() == old(self).all().len(),
                forall|i: int| 0 <= i < old(self).all().len() ==> {
                    &&& *(#[trigger] r.s()[i]) == old(self).all()[i]
                    &&& *final(r.s()[i]) == final(self).all()[i]
                };
    }
    pub trait IntoIterator: Sized {
        type Item;
        spec fn all_of(&self) -> Seq<Self::Item>;
        fn into_iter(self) -> (r: Items<Self::Item>) ensures r.s() == self.all_of();
    }
    impl<T> IntoIterator for Vec<T> {
        type Item = T;
        open spec fn all_of(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn into_iter(self) -> Items<T> { unimplemented!() }
    }
    impl<T> VecItems<T> for Vec<T> {
        open spec fn all(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn v_iter<'a>(&'a self) -> Items<&'a T> { unimplemented!() }
        #[verifier::external_body]
        fn v_iter_mut<'a>(&'a mut self) -> Items<&'a mut T> { unimplemented!() }
    }
    impl<T, const N: usize> IntoIterator for [T; N] {
        type Item = T;
        open spec fn all_of(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn into_iter(self) -> Items<T> { unimplemented!() }
    }
    /// a conversion of a type to itself changes nothing (std)
    pub broadcast axiom fn ax_refl0<T>()
        ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec();
    pub broadcast axiom fn ax_refl<T>(v: T)
        ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(v) == v;
}
pub mod eyre {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Report { _p: () }
    #[verifier::external]
    impl core::fmt::Debug for Report {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    pub type Result<T> = core::result::Result<T, Report>;
}
/// crate `ref_cast`: a reference to what is in a wrapper of one field, seen as one to the wrapper
pub mod ref_cast {
    use vstd::prelude::*;
    pub uninterp spec fn seen<'a, A, B>(v: &'a mut A) -> &'a mut B;
    pub trait RefCast: Sized {
        type From;
        spec fn within(&self) -> Self::From;
        fn ref_cast<'a>(from: &'a Self::From) -> (r: &'a Self) ensures (*r).within() == *from;
        fn ref_cast_mut<'a>(from: &'a mut Self::From) -> (r: &'a mut Self) ensures r == seen::<Self::From, Self>(from);
    }
    #[verifier::prophetic]
    pub open spec fn same_place<A, B: RefCast<From = A>>(v: &mut A, w: &mut B) -> bool {
        (*w).within() == *v && (*final(w)).within() == *final(v)
    }
    pub broadcast axiom fn ax_seen<'a, A, B: RefCast<From = A>>(v: &'a mut A)
        ensures same_place(v, #[trigger] seen::<A, B>(v));
}
/// crate `safer_ffi`: a boxed value is the value
pub mod safer_ffi {
    use vstd::prelude::*;
    pub mod boxed {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Box_<T> { p: *mut T }
        pub type Box<T> = Box_<T>;
        impl<T> Box_<T> {
            pub uninterp spec fn v(&self) -> T;
            #[verifier::external_body]
            pub fn new(value: T) -> (r: Self) ensures r.v() == value { unimplemented!() }
            #[verifier::external_body]
            pub fn into(self) -> (r: std::boxed::Box<T>) ensures *r == self.v() { unimplemented!() }
        }
        pub uninterp spec fn boxed<T>(x: std::boxed::Box<T>) -> Box_<T>;
        pub broadcast axiom fn ax_boxed<T>(x: std::boxed::Box<T>) ensures (#[trigger] boxed(x)).v() == *x;
        impl<T> vstd::std_specs::convert::FromSpecImpl<std::boxed::Box<T>> for Box_<T> {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: std::boxed::Box<T>) -> Box_<T> { boxed(v) }
        }
        impl<T> From<std::boxed::Box<T>> for Box_<T> {
            #[verifier::external_body]
            fn from(b: std::boxed::Box<T>) -> Box_<T> { unimplemented!() }
        }
        impl<T> std::ops::Deref for Box_<T> {
            type Target = T;
            #[verifier::external_body]
            fn deref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() }
        }
    }
    /// a list is a sequence
    pub mod vec {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Vec<T> { p: core::marker::PhantomData<T> }
        impl<T> Vec<T> {
            pub uninterp spec fn s(&self) -> Seq<T>;
            #[verifier::external_body]
            #[verifier::external_body]
            pub const EMPTY: Self = Vec { p: core::marker::PhantomData };
            pub uninterp spec fn of(v: std::vec::Vec<T>) -> Self;
            pub broadcast axiom fn ax_of(v: std::vec::Vec<T>) ensures (#[trigger] Self::of(v)).s() == v@;
            pub broadcast axiom fn ax_empty() ensures (#[trigger] Self::EMPTY).s() == Seq::<T>::empty();
            #[verifier::external_body]
            pub fn v_rust_mut(&mut self) -> (r: &mut std::vec::Vec<T>) ensures (*r)@ == old(self).s(), (*final(r))@ == final(self).s() { unimplemented!() }
            #[verifier::external_body]
            pub fn v_index(&self, i: usize) -> (r: &T) requires i < self.s().len() ensures *r == self.s()[i as int] { unimplemented!() }
            #[verifier::external_body]
            pub fn v_index_mut(&mut self, i: usize) -> (r: &mut T)
                requires i < old(self).s().len()
                ensures *r == old(self).s()[i as int], final(self).s() == old(self).s().update(i as int, *final(r)) { unimplemented!() }
        }
    }
    impl<T> vstd::std_specs::convert::FromSpecImpl<std::vec::Vec<T>> for vec::Vec<T> {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: std::vec::Vec<T>) -> Self { Self::of(v) }
    }
    impl<T> From<std::vec::Vec<T>> for vec::Vec<T> {
        #[verifier::external_body]
        fn from(b: std::vec::Vec<T>) -> Self { unimplemented!() }
    }
    pub mod prelude {
        pub mod repr_c { pub use crate::safer_ffi::boxed::Box; pub use crate::safer_ffi::vec::Vec; }
        pub mod c_slice {
            use vstd::prelude::*;
            #[verifier::external_body]
            #[verifier::accept_recursive_types(T)]
            pub struct Ref<'a, T> { p: &'a T }
            impl<'a, T> Ref<'a, T> {
                pub uninterp spec fn s(&self) -> Seq<T>;
                #[verifier::external_body]
                pub fn as_slice(&self) -> (r: &'a [T]) ensures r@ == self.s() { unimplemented!() }
            }
            pub uninterp spec fn mk<'a, T>(s: &'a [T]) -> Ref<'a, T>;
            pub broadcast axiom fn ax_mk<'a, T>(s: &'a [T]) ensures (#[trigger] mk(s)).s() == s@;
            impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a [T]> for Ref<'a, T> {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: &'a [T]) -> Ref<'a, T> { mk(v) }
            }
            impl<'a, T> From<&'a [T]> for Ref<'a, T> {
                #[verifier::external_body]
                fn from(s: &'a [T]) -> Ref<'a, T> { unimplemented!() }
            }
        }
        pub mod str {
            use vstd::prelude::*;
            #[verifier::external_body]
            pub struct Ref<'a> { p: &'a u8 }
            impl<'a> Ref<'a> { pub uninterp spec fn s(&self) -> Seq<char>; }
            pub uninterp spec fn mk<'a>(s: &'a str) -> Ref<'a>;
            pub broadcast axiom fn ax_mk<'a>(s: &'a str) ensures (#[trigger] mk(s)).s() == s@;
            impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Ref<'a> {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: &'a str) -> Ref<'a> { mk(v) }
            }
            impl<'a> From<&'a str> for Ref<'a> {
                #[verifier::external_body]
                fn from(s: &'a str) -> Ref<'a> { unimplemented!() }
            }
        }
    }
}
pub mod rsharp {
    pub mod string {
        use vstd::prelude::*;
        use crate::ref_cast::RefCast;
        use crate::safer_ffi::prelude::*;
        broadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::safer_ffi::prelude::c_slice::ax_mk, crate::stub::lemma_copied};
        // std: the encodings of texts
        pub open spec fn enc8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
        pub uninterp spec fn enc16(s: Seq<char>) -> Seq<u16>;
        #[verifier::external_type_specification]
        #[verifier::external_body]
        pub struct ExE8(std::string::FromUtf8Error);
        #[verifier::external_type_specification]
        #[verifier::external_body]
        pub struct ExE16(std::string::FromUtf16Error);
        pub assume_specification[ std::string::String::from_utf8 ](v: Vec<u8>) -> (r: Result<std::string::String, std::string::FromUtf8Error>)
            ensures match r { Ok(s) => enc8(s@) == v@, Err(_) => forall|s: Seq<char>| #[trigger] enc8(s) != v@ };
        pub assume_specification[ std::string::String::from_utf16 ](v: &[u16]) -> (r: Result<std::string::String, std::string::FromUtf16Error>)
            ensures match r { Ok(s) => enc16(s@) == v@, Err(_) => forall|s: Seq<char>| #[trigger] enc16(s) != v@ };
        pub assume_specification[ std::string::String::as_bytes ](v: &std::string::String) -> (r: &[u8])
            ensures r@ == enc8(v@);
        pub assume_specification<T: Clone>[ <[T]>::to_vec ](v: &[T]) -> (r: Vec<T>)
            ensures crate::stub::copied(v@, r@);
        //@struct rsharp::string::String
        //@fn rsharp::string::rsharp__String__value
        //@spec
            ensures ret.s() == enc8($A0.inner@)
        //@end
        //@fn rsharp::string::rsharp__String__copy_utf8
        //@spec
            requires exists|s: Seq<char>| #[trigger] enc8(s) == $A0.s()
            ensures enc8(ret.v().inner@) == $A0.s()
        //@end
        //@fn rsharp::string::rsharp__String__copy_utf16
        //@spec
            requires exists|s: Seq<char>| #[trigger] enc16(s) == $A0.s()
            ensures enc16(ret.v().inner@) == $A0.s()
        //@end
        impl RefCast for String {
            type From = std::string::String;
            open spec fn within(&self) -> std::string::String { self.inner }
            #[verifier::external_body]
            fn ref_cast<'a>(from: &'a std::string::String) -> &'a String { unimplemented!() }
            #[verifier::external_body]
            fn ref_cast_mut<'a>(from: &'a mut std::string::String) -> &'a mut String { unimplemented!() }
        }
        impl vstd::std_specs::convert::FromSpecImpl<std::string::String> for String {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: std::string::String) -> String { String { inner: v } }
        }
        impl From<std::string::String> for String {
            // derived
            #[verifier::external_body]
            fn from(s: std::string::String) -> String { unimplemented!() }
        }
        impl vstd::std_specs::convert::FromSpecImpl<String> for std::string::String {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: String) -> std::string::String { v.inner }
        }
        impl From<String> for std::string::String {
            // derived
            #[verifier::external_body]
            fn from(s: String) -> std::string::String { unimplemented!() }
        }
        impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a std::string::String> for &'a String {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: &'a std::string::String) -> &'a String { &String { inner: *v } }
        }
        impl<'a> From<&'a std::string::String> for &'a String {
            // a `ref_cast`
            #[verifier::external_body]
            fn from(s: &'a std::string::String) -> &'a String { unimplemented!() }
        }
    }
}
pub mod generational_arena {
    #[derive(Copy, Clone)]
    pub struct Index { pub index: usize, pub generation: u64 }
}
pub mod arena {
    use vstd::prelude::*;
    use crate::generational_arena as ga;
    use core::marker::PhantomData;
    //@struct arena::Index
    impl<T> Copy for Index<T> {}
    impl<T> Clone for Index<T> {
        //@traitfn arena::Clone@Index::clone
        //@spec
            ensures ret.inner == self.inner
        //@end
    }
}
