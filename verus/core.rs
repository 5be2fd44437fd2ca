// The Verus side of the contracts on /repo. Everything under `//@fn`, `//@struct` and `//@enum` is
// copied from /repo's macro-expanded source by /verif/extract on every run; everything else here
// is specification: contracts of the dependencies (trusted), spec functions, invariants, lemmas.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;

verus! {

// ======================================================================================
// Trusted contracts of the standard library and of dependencies
// ======================================================================================
pub mod stub {
    use vstd::prelude::*;
    use crate::eyre::Report;

    /// stands for `eyre!(..)`: an error report, about whose content nothing is claimed
    #[verifier::external_body]
    pub fn v_report() -> Report { unimplemented!() }

    /// stands for a panic of a function that panics where `allowed`: the call does not return
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }

    /// stands for `panic!(..)`, failed `assert!`, `unreachable!(..)`, `todo!(..)`: must be proved unreachable
    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }

    /// `std::mem::take`
    #[verifier::external_body]
    pub fn mem_take<T: Default>(t: &mut T) -> (r: T)
        ensures r == *old(t), final(t).is_default()
    { unimplemented!() }

    pub trait Default: Sized {
        spec fn is_default(&self) -> bool;
        fn default() -> (r: Self) ensures r.is_default();
    }
    impl<T> Default for core::marker::PhantomData<T> {
        open spec fn is_default(&self) -> bool { true }
        #[verifier::external_body]
        fn default() -> Self { core::marker::PhantomData }
    }

    /// `std::iter::Iterator`, for iterators that end: `rem` is what is still to come
    pub trait Iterator: Sized {
        type Item;
        spec fn wf(&self) -> bool;
        spec fn rem(&self) -> Seq<Self::Item>;
        fn next(&mut self) -> (ret: Option<Self::Item>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
        fn size_hint(&self) -> (ret: (usize, Option<usize>))
            requires self.wf(),
            ensures ret.0 <= self.rem().len(), ret.1 matches Some(n) ==> self.rem().len() <= n;
    }
    /// `std::iter::Iterator::nth`
    pub trait IteratorNth: Iterator {
        fn nth(&mut self, n: usize) -> (ret: Option<Self::Item>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                n < old(self).rem().len() ==> ret == Some(old(self).rem()[n as int]) && final(self).rem() == old(self).rem().skip(n as int + 1),
                n >= old(self).rem().len() ==> ret is None && final(self).rem().len() == 0;
    }
    /// `std::iter::DoubleEndedIterator`, `ExactSizeIterator`
    pub trait DoubleEndedIterator: Iterator {
        fn next_back(&mut self) -> (ret: Option<Self::Item>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret == Some(old(self).rem().last()) && final(self).rem() == old(self).rem().drop_last();
    }
    pub trait ExactSizeIterator: Iterator {
        fn len(&self) -> (ret: usize)
            requires self.wf(),
            ensures ret == self.rem().len();
    }
    /// The three iterator traits again, for an iterator whose items hold a `&mut`: an item
    /// that went through a closure is the same item when it points to the same value and what
    /// is written through it arrives at the same place (`same`), which is weaker than the `==`
    /// the verifier has no way to show for a reborrowed reference.
    #[verifier::prophetic]
    pub open spec fn same_mut<'a, T>(a: &'a mut T, b: &'a mut T) -> bool { *a == *b && *final(a) == *final(b) }
    pub trait RefsIterator: Sized {
        type Item;
        spec fn rem(&self) -> Seq<Self::Item>;
        #[verifier::prophetic]
        spec fn same(a: Self::Item, b: Self::Item) -> bool;
        fn next(&mut self) -> (ret: Option<Self::Item>)
            ensures
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret is Some && Self::same(ret->0, old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
        fn size_hint(&self) -> (ret: (usize, Option<usize>))
            ensures ret.0 <= self.rem().len(), ret.1 matches Some(n) ==> self.rem().len() <= n;
    }
    pub trait RefsDoubleEndedIterator: RefsIterator {
        fn next_back(&mut self) -> (ret: Option<Self::Item>)
            ensures
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret is Some && Self::same(ret->0, old(self).rem().last()) && final(self).rem() == old(self).rem().drop_last();
    }
    pub trait RefsExactSizeIterator: RefsIterator {
        fn len(&self) -> (ret: usize)
            ensures ret == self.rem().len();
    }
    pub trait RefsIntoIterator: Sized {
        type IntoIter: RefsIterator;
        #[verifier::prophetic]
        spec fn into_spec(self, it: Self::IntoIter) -> bool;
        fn into_iter(self) -> (ret: Self::IntoIter)
            ensures self.into_spec(ret);
    }
    /// `std::ops::Index`, `IndexMut`: what is not there panics
    pub trait Index<I>: Sized {
        type Output;
        spec fn has(&self, i: I) -> bool;
        spec fn at(&self, i: I, r: &Self::Output) -> bool;
        fn index(&self, i: I) -> (ret: &Self::Output) requires self.has(i) ensures self.at(i, ret);
    }
    pub trait IndexMut<I>: Index<I> {
        #[verifier::prophetic]
        spec fn upd(a: Self, b: Self, i: I, r: &mut Self::Output) -> bool;
        fn index_mut(&mut self, i: I) -> (ret: &mut Self::Output) requires old(self).has(i) ensures Self::upd(*old(self), *final(self), i, ret);
    }
    pub trait IntoIterator: Sized {
        type Item;
        type IntoIter: Iterator<Item = Self::Item>;
        spec fn into_spec(self, it: Self::IntoIter) -> bool;
        fn into_iter(self) -> (ret: Self::IntoIter)
            ensures self.into_spec(ret);
    }
    /// `r` is the end of `all`
    pub open spec fn suffix<T>(r: Seq<T>, all: Seq<T>) -> bool {
        r.len() <= all.len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == all[all.len() - r.len() + j]
    }
    /// `impl<I: Iterator> IntoIterator for I`
    impl<I: Iterator> IntoIterator for I {
        type Item = I::Item;
        type IntoIter = I;
        open spec fn into_spec(self, it: I) -> bool { it == self }
        fn into_iter(self) -> I { self }
    }

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct VecIntoIter<T> { _p: core::marker::PhantomData<T> }
    impl<T> VecIntoIter<T> {
        pub uninterp spec fn left(&self) -> Seq<T>;
    }
    impl<T> Iterator for VecIntoIter<T> {
        type Item = T;
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<T> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<T> { unimplemented!() }
        #[verifier::external_body]
        fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    }
    impl<T> IntoIterator for Vec<T> {
        type Item = T;
        type IntoIter = VecIntoIter<T>;
        open spec fn into_spec(self, it: VecIntoIter<T>) -> bool { it.left() == self@ }
        #[verifier::external_body]
        fn into_iter(self) -> VecIntoIter<T> { unimplemented!() }
    }

    /// `std::iter::FromIterator`
    pub trait FromIterator<T>: Sized {
        /// holds what iterating over `i` yields, and nothing else
        spec fn holds<I: IntoIterator<Item = T>>(&self, i: I) -> bool;
        fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> (ret: Self)
            ensures ret.holds(iter);
    }
    /// `std::hash::Hasher`, by what it was fed; `Hash`
    pub trait Hasher: Sized { spec fn fed(&self) -> Seq<u64>; }
    pub trait Hash {
        /// what the value feeds a hasher
        spec fn feeds(&self) -> Seq<u64>;
        fn hash<H: Hasher>(&self, state: &mut H)
            ensures final(state).fed() == old(state).fed() + self.feeds();
    }

    /// `std::collections::HashSet` of handles, which are equal (and hash) as their untyped index
    pub trait HKey { spec fn hk(&self) -> crate::generational_arena::Index; }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct HashSet<T> { _p: core::marker::PhantomData<T> }
    impl<T: HKey> HashSet<T> {
        pub uninterp spec fn m(&self) -> Set<crate::generational_arena::Index>;
        #[verifier::external_body]
        pub fn insert(&mut self, t: T) -> (r: bool)
            ensures final(self).m() == old(self).m().insert(t.hk()), r == !old(self).m().contains(t.hk())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, t: &T) -> (r: bool)
            ensures final(self).m() == old(self).m().remove(t.hk()), r == old(self).m().contains(t.hk())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, t: &T) -> (r: bool)
            ensures r == self.m().contains(t.hk())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool)
            ensures r == (self.m() == Set::<crate::generational_arena::Index>::empty())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: Self)
            ensures r.m() == Set::<crate::generational_arena::Index>::empty()
        { unimplemented!() }
    }
    impl<T: HKey> Default for HashSet<T> {
        open spec fn is_default(&self) -> bool { self.m() == Set::<crate::generational_arena::Index>::empty() }
        #[verifier::external_body]
        fn default() -> Self { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct HashSetIntoIter<T> { _p: core::marker::PhantomData<T> }
    impl<T> HashSetIntoIter<T> {
        pub uninterp spec fn left(&self) -> Seq<T>;
    }
    impl<T: HKey> Iterator for HashSetIntoIter<T> {
        type Item = T;
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<T> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<T> { unimplemented!() }
        #[verifier::external_body]
        fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    }
    /// the elements of a set in some order, each once
    pub open spec fn enumerates<T: HKey>(s: Seq<T>, m: Set<crate::generational_arena::Index>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains((#[trigger] s[i]).hk())
        &&& forall|k: crate::generational_arena::Index| m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).hk() == k
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).hk() != (#[trigger] s[j]).hk()
    }
    impl<T: HKey> IntoIterator for HashSet<T> {
        type Item = T;
        type IntoIter = HashSetIntoIter<T>;
        open spec fn into_spec(self, it: HashSetIntoIter<T>) -> bool { enumerates(it.left(), self.m()) }
        #[verifier::external_body]
        fn into_iter(self) -> HashSetIntoIter<T> { unimplemented!() }
    }
}

pub mod eyre {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Report { _p: () }
    #[verifier::external]
    impl core::fmt::Debug for Report {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    pub type Result<T> = core::result::Result<T, Report>;
}

/// crate `itertools`: `zip_longest(..).enumerate().try_fold(..)`, the one chain /repo uses
pub mod itertools {
    use vstd::prelude::*;
    use crate::stub::{Iterator, IntoIterator};
    pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }
    pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(usize, EitherOrBoth<A, B>)> {
        Seq::new(if a.len() < b.len() { b.len() } else { a.len() }, |i: int| (i as usize,
            if i < a.len() && i < b.len() { EitherOrBoth::Both(a[i], b[i]) }
            else if i < a.len() { EitherOrBoth::Left(a[i]) }
            else { EitherOrBoth::Right(b[i]) }))
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(A)]
    #[verifier::accept_recursive_types(B)]
    pub struct ZipLongest<A, B> { _p: core::marker::PhantomData<(A, B)> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(A)]
    #[verifier::accept_recursive_types(B)]
    pub struct Enumerated<A, B> { _p: core::marker::PhantomData<(A, B)> }
    impl<A, B> ZipLongest<A, B> {
        pub uninterp spec fn rem(&self) -> Seq<(usize, EitherOrBoth<A, B>)>;
        #[verifier::external_body]
        pub fn enumerate(self) -> (r: Enumerated<A, B>)
            ensures r.rem() == self.rem()
        { unimplemented!() }
    }
    /// `f` takes `accs[i]` and item `i` to `accs[i + 1]`
    pub open spec fn steps<I, Acc, E, F: FnMut(Acc, I) -> Result<Acc, E>>(f: F, items: Seq<I>, accs: Seq<Acc>) -> bool {
        forall|i: int| 0 <= i < accs.len() - 1 ==> f.ensures((accs[i], items[i]), Ok(#[trigger] accs[i + 1]))
    }
    impl<A, B> Enumerated<A, B> {
        pub uninterp spec fn rem(&self) -> Seq<(usize, EitherOrBoth<A, B>)>;
        /// (for an `f` without state of its own)
        #[verifier::external_body]
        pub fn try_fold<Acc, E, F: FnMut(Acc, (usize, EitherOrBoth<A, B>)) -> Result<Acc, E>>(self, init: Acc, f: F) -> (r: Result<Acc, E>)
            requires forall|a: Acc, i: (usize, EitherOrBoth<A, B>)| f.requires((a, i))
            ensures exists|accs: Seq<Acc>| #![trigger accs.len()] accs.len() > 0 && accs[0] == init && steps(f, self.rem(), accs) && match r {
                Ok(a) => accs.len() == self.rem().len() + 1 && a == accs.last(),
                Err(e) => accs.len() <= self.rem().len() && f.ensures((accs.last(), self.rem()[accs.len() - 1]), Err(e)),
            }
        { unimplemented!() }
    }
    pub trait Itertools: Iterator {
        fn zip_longest<'a, B>(self, b: &'a [B]) -> (r: ZipLongest<Self::Item, &'a B>)
            requires self.wf()
            ensures r.rem() == zipped(self.rem(), b@.map_values(|x: B| &x));
    }
    impl<I: Iterator> Itertools for I {
        #[verifier::external_body]
        fn zip_longest<'a, B>(self, b: &'a [B]) -> (r: ZipLongest<I::Item, &'a B>) { unimplemented!() }
    }
}

/// crate `generational-arena` 0.2
pub mod generational_arena {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
    use core::cmp::Ordering;
    #[derive(Copy, Clone, Eq)]
    pub struct Index { pub index: usize, pub generation: u64 }
    impl PartialEqSpecImpl for Index {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &Index) -> bool { *self == *other }
    }
    impl PartialEq for Index {
        #[verifier::external_body]
        fn eq(&self, other: &Self) -> bool { unimplemented!() }
    }
    /// (derived: by slot, then by generation)
    pub open spec fn index_cmp(a: Index, b: Index) -> Ordering {
        if a.index < b.index { Ordering::Less } else if a.index > b.index { Ordering::Greater }
        else if a.generation < b.generation { Ordering::Less } else if a.generation > b.generation { Ordering::Greater }
        else { Ordering::Equal }
    }
    impl PartialOrdSpecImpl for Index {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &Index) -> Option<Ordering> { Some(index_cmp(*self, *other)) }
    }
    impl PartialOrd for Index {
        #[verifier::external_body]
        fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
    }
    impl OrdSpecImpl for Index {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, other: &Index) -> Ordering { index_cmp(*self, *other) }
    }
    impl Ord for Index {
        #[verifier::external_body]
        fn cmp(&self, other: &Self) -> Ordering { unimplemented!() }
    }
    impl crate::stub::Hash for Index {
        open spec fn feeds(&self) -> Seq<u64> { seq![self.index as u64, self.generation] }
        #[verifier::external_body]
        fn hash<H: crate::stub::Hasher>(&self, state: &mut H) { unimplemented!() }
    }

    /// `m`: the values in the arena; `iss`: every index that was ever given out
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Arena<T> { _p: core::marker::PhantomData<T> }
    impl<T> Arena<T> {
        pub uninterp spec fn m(&self) -> Map<Index, T>;
        pub uninterp spec fn iss(&self) -> Set<Index>;
        #[verifier::external_body]
        pub fn new() -> (r: Self)
            ensures r.m() == Map::<Index, T>::empty(), r.iss() == Set::<Index>::empty()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: Self)
            ensures r.m() == Map::<Index, T>::empty(), r.iss() == Set::<Index>::empty()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, v: T) -> (r: Index)
            ensures !old(self).iss().contains(r), final(self).m() == old(self).m().insert(r, v), final(self).iss() == old(self).iss().insert(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, i: Index) -> (r: Option<&T>)
            ensures r is Some == self.m().contains_key(i), r matches Some(p) ==> *p == self.m()[i]
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, i: Index) -> (r: Option<&mut T>)
            ensures
                final(self).iss() == old(self).iss(),
                match r {
                    Some(p) => old(self).m().contains_key(i) && *p == old(self).m()[i] && final(self).m() == old(self).m().insert(i, *final(p)),
                    None => !old(self).m().contains_key(i) && final(self).m() == old(self).m(),
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, i: Index) -> (r: Option<T>)
            ensures
                final(self).iss() == old(self).iss(),
                final(self).m() == old(self).m().remove(i),
                match r {
                    Some(v) => old(self).m().contains_key(i) && v == old(self).m()[i],
                    None => !old(self).m().contains_key(i),
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, i: Index) -> (r: bool)
            ensures r == self.m().contains_key(i)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize)
            ensures r == self.m().dom().len()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool)
            ensures r == (self.m() == Map::<Index, T>::empty())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn iter(&self) -> (r: Iter<'_, T>)
            ensures r.fresh_over(self.m())
        { unimplemented!() }
        #[verifier::external_body]
        pub fn iter_mut(&mut self) -> (r: IterMut<'_, T>)
            ensures r.fresh_over(old(self).m(), final(self).m()), final(self).iss() == old(self).iss()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn capacity(&self) -> (r: usize)
            ensures r >= self.m().dom().len()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn reserve(&mut self, n: usize)
            requires n > 0 // (reserving nothing corrupts its free list)
            ensures final(self).m() == old(self).m(), final(self).iss() == old(self).iss()
        { unimplemented!() }
    }
    impl<T> crate::stub::Default for Arena<T> {
        open spec fn is_default(&self) -> bool { self.m() == Map::<Index, T>::empty() && self.iss() == Set::<Index>::empty() }
        #[verifier::external_body]
        fn default() -> Self { unimplemented!() }
    }
    impl<T> crate::stub::Index<Index> for Arena<T> {
        type Output = T;
        open spec fn has(&self, i: Index) -> bool { self.m().contains_key(i) }
        open spec fn at(&self, i: Index, r: &T) -> bool { *r == self.m()[i] }
        #[verifier::external_body]
        fn index(&self, i: Index) -> &T { unimplemented!() }
    }
    impl<T> crate::stub::IndexMut<Index> for Arena<T> {
        #[verifier::prophetic]
        open spec fn upd(a: Self, b: Self, i: Index, r: &mut T) -> bool { *r == a.m()[i] && b.iss() == a.iss() && b.m() == a.m().insert(i, *final(r)) }
        #[verifier::external_body]
        fn index_mut(&mut self, i: Index) -> &mut T { unimplemented!() }
    }
    /// the values of `m`, each once
    pub open spec fn values_of<T>(s: Seq<T>, m: Map<Index, T>) -> bool {
        exists|ks: Seq<Index>| {
            &&& ks.len() == s.len() && ks.no_duplicates()
            &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] ks[i]) && s[i] == m[ks[i]]
            &&& forall|k: Index| m.contains_key(k) ==> ks.contains(k)
        }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct IntoIter<T> { _p: core::marker::PhantomData<T> }
    impl<T> IntoIter<T> {
        pub uninterp spec fn left(&self) -> Seq<T>;
    }
    impl<T> crate::stub::Iterator for IntoIter<T> {
        type Item = T;
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<T> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<T> { unimplemented!() }
        #[verifier::external_body]
        fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    }
    impl<T> crate::stub::IntoIterator for Arena<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        open spec fn into_spec(self, it: IntoIter<T>) -> bool { values_of(it.left(), self.m()) }
        #[verifier::external_body]
        fn into_iter(self) -> IntoIter<T> { unimplemented!() }
    }
    impl<T> crate::stub::FromIterator<T> for Arena<T> {
        open spec fn holds<I: crate::stub::IntoIterator<Item = T>>(&self, i: I) -> bool {
            self.iss() == self.m().dom() && exists|it: I::IntoIter| #[trigger] i.into_spec(it) && values_of(crate::stub::Iterator::rem(&it), self.m())
        }
        #[verifier::external_body]
        fn from_iter<I: crate::stub::IntoIterator<Item = T>>(iter: I) -> Self { unimplemented!() }
    }
    /// what is in an arena was given out by it
    pub axiom fn ax_issued<T>(a: Arena<T>)
        ensures a.m().dom().subset_of(a.iss());

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Iter<'a, T> { _p: core::marker::PhantomData<&'a T> }
    impl<'a, T> Iter<'a, T> {
        pub uninterp spec fn left(&self) -> Seq<(Index, &'a T)>;
        /// yields each entry of `m` once
        pub open spec fn fresh_over(&self, m: Map<Index, T>) -> bool {
            &&& forall|i: int| 0 <= i < self.left().len() ==> m.contains_key((#[trigger] self.left()[i]).0) && *self.left()[i].1 == m[self.left()[i].0]
            &&& forall|k: Index| m.contains_key(k) ==> exists|i: int| 0 <= i < self.left().len() && (#[trigger] self.left()[i]).0 == k
            &&& forall|i: int, j: int| 0 <= i < j < self.left().len() ==> (#[trigger] self.left()[i]).0 != (#[trigger] self.left()[j]).0
        }
    }
    impl<'a, T> crate::stub::Iterator for Iter<'a, T> {
        type Item = (Index, &'a T);
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<(Index, &'a T)> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<(Index, &'a T)> { unimplemented!() }
        #[verifier::external_body]
        fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    }
    impl<'a, T> crate::stub::DoubleEndedIterator for Iter<'a, T> {
        #[verifier::external_body]
        fn next_back(&mut self) -> Option<(Index, &'a T)> { unimplemented!() }
    }
    impl<'a, T> crate::stub::ExactSizeIterator for Iter<'a, T> {
        #[verifier::external_body]
        fn len(&self) -> usize { unimplemented!() }
    }

    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct IterMut<'a, T> { _p: core::marker::PhantomData<&'a mut T> }
    impl<'a, T> IterMut<'a, T> {
        pub uninterp spec fn left(&self) -> Seq<(Index, &'a mut T)>;
        /// yields a reference to each entry of `m` once; `n` is what the entries become
        #[verifier::prophetic]
        pub open spec fn fresh_over(&self, m: Map<Index, T>, n: Map<Index, T>) -> bool {
            &&& m.dom() == n.dom()
            &&& forall|i: int| 0 <= i < self.left().len() ==> m.contains_key((#[trigger] self.left()[i]).0) && *self.left()[i].1 == m[self.left()[i].0] && *final(self.left()[i].1) == n[self.left()[i].0]
            &&& forall|k: Index| m.contains_key(k) ==> exists|i: int| 0 <= i < self.left().len() && (#[trigger] self.left()[i]).0 == k
            &&& forall|i: int, j: int| 0 <= i < j < self.left().len() ==> (#[trigger] self.left()[i]).0 != (#[trigger] self.left()[j]).0
        }
    }
    impl<'a, T> crate::stub::Iterator for IterMut<'a, T> {
        type Item = (Index, &'a mut T);
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<(Index, &'a mut T)> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<(Index, &'a mut T)> { unimplemented!() }
        #[verifier::external_body]
        fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    }
    impl<'a, T> crate::stub::DoubleEndedIterator for IterMut<'a, T> {
        #[verifier::external_body]
        fn next_back(&mut self) -> Option<(Index, &'a mut T)> { unimplemented!() }
    }
    impl<'a, T> crate::stub::ExactSizeIterator for IterMut<'a, T> {
        #[verifier::external_body]
        fn len(&self) -> usize { unimplemented!() }
    }
}

// ======================================================================================
// crates/datastructures/arena
// ======================================================================================
pub mod arena {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
    use core::cmp::Ordering;
    use crate::generational_arena as ga;
    pub use crate::generational_arena;
    use crate::stub::{Hash, FromIterator, Iterator, IntoIterator, Default, DoubleEndedIterator, ExactSizeIterator, RefsIterator};
    use core::marker::PhantomData;

    //@struct arena::IterMut
    //@struct arena::Arena
    //@struct arena::Index
    //@struct arena::Iter
    impl<T> Arena<T> {
        pub open spec fn m(&self) -> Map<ga::Index, T> { self.0.m() }
        pub open spec fn iss(&self) -> Set<ga::Index> { self.0.iss() }
        //@fn arena::Arena::new
        //@spec
            ensures ret.m() == Map::<ga::Index, T>::empty(), ret.iss() == Set::<ga::Index>::empty()
        //@end
        //@fn arena::Arena::with_capacity
        //@spec
            ensures ret.m() == Map::<ga::Index, T>::empty(), ret.iss() == Set::<ga::Index>::empty()
        //@end
        //@fn arena::Arena::insert
        //@spec
            ensures
                !old(self).iss().contains(ret.inner),
                final(self).m() == old(self).m().insert(ret.inner, $A0),
                final(self).iss() == old(self).iss().insert(ret.inner)
        //@end
        //@fn arena::Arena::get
        //@spec
            ensures
                ret is Some == self.m().contains_key($A0.inner),
                ret matches Some(p) ==> *p == self.m()[$A0.inner]
        //@end
        //@fn arena::Arena::get_mut
        //@spec
            ensures
                final(self).iss() == old(self).iss(),
                match ret {
                    Some(p) => old(self).m().contains_key($A0.inner) && *p == old(self).m()[$A0.inner]
                        && final(self).m() == old(self).m().insert($A0.inner, *final(p)),
                    None => !old(self).m().contains_key($A0.inner) && final(self).m() == old(self).m(),
                }
        //@end
        //@fn arena::Arena::remove
        //@spec
            ensures
                final(self).iss() == old(self).iss(),
                final(self).m() == old(self).m().remove($A0.inner),
                match ret {
                    Some(v) => old(self).m().contains_key($A0.inner) && v == old(self).m()[$A0.inner],
                    None => !old(self).m().contains_key($A0.inner),
                }
        //@end
        //@fn arena::Arena::contains
        //@spec
            ensures
                ret == old(self).m().contains_key($A0.inner),
                final(self).m() == old(self).m(), final(self).iss() == old(self).iss()
        //@end
        //@fn arena::Arena::iter
        //@spec
            ensures listing(ret.rem(), self.m())
        //@entry
            broadcast use lemma_listing;
        //@end
        //@fn arena::Arena::iter_mut
        //@spec
            ensures listing_mut(ret.rem(), old(self).m(), final(self).m()), final(self).iss() == old(self).iss()
        //@entry
            broadcast use lemma_listing_mut;
        //@end
        //@fn arena::Arena::capacity
        //@spec
            ensures ret >= self.m().dom().len()
        //@end
        //@fn arena::Arena::reserve
        //@spec
            ensures final(self).m() == old(self).m(), final(self).iss() == old(self).iss()
        //@end
        //@fn arena::Arena::len
        //@spec
            ensures ret == self.m().dom().len()
        //@end
        //@fn arena::Arena::is_empty
        //@spec
            ensures ret == (self.m() == Map::<ga::Index, T>::empty())
        //@end
    }
    impl<T> Index<T> {
        //@fn arena::Index::new
        //@spec
            ensures ret.inner == $A0
        //@end
    }
    impl<T> vstd::std_specs::convert::FromSpecImpl<Index<T>> for ga::Index {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: Index<T>) -> Self { v.inner }
    }
    impl<T> From<Index<T>> for ga::Index {
        //@traitfn arena::From<Index<T>>@Index::from
        //@spec
            ensures ret == $A0.inner
        //@end
    }
    impl<T> Clone for Index<T> {
        //@traitfn arena::Clone@Index::clone
        //@spec
            ensures ret.inner == self.inner
        //@end
    }
    impl<T> Copy for Index<T> {}
    impl<T> PartialEqSpecImpl for Index<T> {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &Self) -> bool { self.inner == other.inner }
    }
    impl<T> PartialEq for Index<T> {
        //@traitfn arena::PartialEq@Index::eq
        //@spec
            ensures ret == (self.inner == other.inner)
        //@end
    }
    impl<T> Eq for Index<T> {}
    impl<T> PartialOrdSpecImpl for Index<T> {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(ga::index_cmp(self.inner, other.inner)) }
    }
    impl<T> PartialOrd for Index<T> {
        //@traitfn arena::PartialOrd@Index::partial_cmp
        //@spec
            ensures ret == Some(ga::index_cmp(self.inner, other.inner))
        //@end
    }
    impl<T> OrdSpecImpl for Index<T> {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, other: &Self) -> Ordering { ga::index_cmp(self.inner, other.inner) }
    }
    impl<T> Ord for Index<T> {
        //@traitfn arena::Ord@Index::cmp
        //@spec
            ensures ret == ga::index_cmp(self.inner, other.inner)
        //@end
    }
    impl<T> crate::stub::Hash for Index<T> {
        /// (equal handles feed equally)
        open spec fn feeds(&self) -> Seq<u64> { crate::stub::Hash::feeds(&self.inner) }
        //@traitfn arena::Hash@Index::hash
        //@end
    }
    impl<T> crate::stub::HKey for Index<T> {
        open spec fn hk(&self) -> ga::Index { self.inner }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = (Index<T>, &'a T);
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<(Index<T>, &'a T)> {
            Seq::new(self.0.left().len(), |i: int| (mk_index::<T>(self.0.left()[i].0), self.0.left()[i].1))
        }
        //@traitfn arena::Iterator@Iter::next
        //@closure 0
            |__c0: (ga::Index, &'a T)| -> (r: (Index<T>, &'a T)) ensures r.0 == mk_index::<T>(__c0.0), r.1 == __c0.1
        //@end
        //@traitfn arena::Iterator@Iter::size_hint
        //@end
    }
    impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
        //@traitfn arena::DoubleEndedIterator@Iter::next_back
        //@closure 0
            |__c0: (ga::Index, &'a T)| -> (r: (Index<T>, &'a T)) ensures r.0 == mk_index::<T>(__c0.0), r.1 == __c0.1
        //@end
    }
    impl<'a, T> ExactSizeIterator for Iter<'a, T> {
        //@traitfn arena::ExactSizeIterator@Iter::len
        //@end
    }
    impl<'a, T> crate::stub::RefsIterator for IterMut<'a, T> {
        type Item = (Index<T>, &'a mut T);
        open spec fn rem(&self) -> Seq<(Index<T>, &'a mut T)> {
            Seq::new(self.0.left().len(), |i: int| (mk_index::<T>(self.0.left()[i].0), self.0.left()[i].1))
        }
        #[verifier::prophetic]
        open spec fn same(a: (Index<T>, &'a mut T), b: (Index<T>, &'a mut T)) -> bool { a.0 == b.0 && *a.1 == *b.1 && *final(a.1) == *final(b.1) }
        //@traitfn arena::Iterator@IterMut::next
        //@closure 0
            |__c0: (ga::Index, &'a mut T)| -> (r: (Index<T>, &'a mut T)) ensures r.0 == mk_index::<T>(__c0.0), crate::stub::same_mut(r.1, __c0.1)
        //@end
        //@traitfn arena::Iterator@IterMut::size_hint
        //@end
    }
    impl<'a, T> crate::stub::RefsDoubleEndedIterator for IterMut<'a, T> {
        //@traitfn arena::DoubleEndedIterator@IterMut::next_back
        //@closure 0
            |__c0: (ga::Index, &'a mut T)| -> (r: (Index<T>, &'a mut T)) ensures r.0 == mk_index::<T>(__c0.0), crate::stub::same_mut(r.1, __c0.1)
        //@end
    }
    impl<'a, T> crate::stub::RefsExactSizeIterator for IterMut<'a, T> {
        //@traitfn arena::ExactSizeIterator@IterMut::len
        //@end
    }
    impl<T> Default for Arena<T> {
        open spec fn is_default(&self) -> bool { self.m() == Map::<ga::Index, T>::empty() && self.iss() == Set::<ga::Index>::empty() }
        //@traitfn arena::Default@Arena::default
        //@end
    }
    impl<T> crate::stub::Index<Index<T>> for Arena<T> {
        type Output = T;
        open spec fn has(&self, i: Index<T>) -> bool { self.m().contains_key(i.inner) }
        open spec fn at(&self, i: Index<T>, r: &T) -> bool { *r == self.m()[i.inner] }
        //@traitfn arena::Index<Index<T>>@Arena::index
        //@ops
        //@end
    }
    impl<T> crate::stub::IndexMut<Index<T>> for Arena<T> {
        #[verifier::prophetic]
        open spec fn upd(a: Self, b: Self, i: Index<T>, r: &mut T) -> bool { *r == a.m()[i.inner] && b.iss() == a.iss() && b.m() == a.m().insert(i.inner, *final(r)) }
        //@traitfn arena::IndexMut<Index<T>>@Arena::index_mut
        //@ops
        //@end
    }
    impl<T> IntoIterator for Arena<T> {
        type Item = T;
        type IntoIter = ga::IntoIter<T>;
        open spec fn into_spec(self, it: ga::IntoIter<T>) -> bool { ga::values_of(it.left(), self.m()) }
        //@traitfn arena::IntoIterator@Arena::into_iter
        //@end
    }
    impl<T> FromIterator<T> for Arena<T> {
        open spec fn holds<I: IntoIterator<Item = T>>(&self, i: I) -> bool {
            self.iss() == self.m().dom() && exists|it: I::IntoIter| #[trigger] i.into_spec(it) && ga::values_of(Iterator::rem(&it), self.m())
        }
        //@traitfn arena::FromIterator<T>@Arena::from_iter
        //@end
    }
    impl<T> vstd::std_specs::convert::FromSpecImpl<Arena<T>> for ga::Arena<T> {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: Arena<T>) -> Self { v.0 }
    }
    impl<T> From<Arena<T>> for ga::Arena<T> {
        //@traitfn arena::From<Arena<T>>@Arena::from
        //@spec
            ensures ret == $A0.0
        //@end
    }
    impl<'a, T> crate::stub::RefsIntoIterator for &'a mut Arena<T> {
        type IntoIter = IterMut<'a, T>;
        #[verifier::prophetic]
        open spec fn into_spec(self, it: IterMut<'a, T>) -> bool { listing_mut(it.rem(), (*self).m(), (*final(self)).m()) && (*final(self)).iss() == (*self).iss() }
        //@traitfn arena::IntoIterator@&mut Arena<T>::into_iter
        //@end
    }
    /// a reference to each entry of `m`, each once; `n` is what the entries become
    #[verifier::prophetic]
    pub open spec fn listing_mut<'a, T>(s: Seq<(Index<T>, &'a mut T)>, m: Map<ga::Index, T>, n: Map<ga::Index, T>) -> bool {
        &&& m.dom() == n.dom()
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.inner) && *s[i].1 == m[s[i].0.inner] && *final(s[i].1) == n[s[i].0.inner]
        &&& forall|k: ga::Index| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.inner == k
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.inner != (#[trigger] s[j]).0.inner
    }
    pub broadcast proof fn lemma_listing_mut<'a, T>(it: IterMut<'a, T>, m: Map<ga::Index, T>, n: Map<ga::Index, T>)
        requires it.0.fresh_over(m, n)
        ensures #[trigger] listing_mut(it.rem(), m, n)
    {
        let s = it.rem();
        assert forall|k: ga::Index| m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.inner == k by {
            let i = choose|i: int| 0 <= i < it.0.left().len() && (#[trigger] it.0.left()[i]).0 == k;
            assert(s[i].0.inner == k);
        }
    }
    /// the entries of `m`, each once
    pub open spec fn listing<T>(s: Seq<(Index<T>, &T)>, m: Map<ga::Index, T>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.inner) && *s[i].1 == m[s[i].0.inner]
        &&& forall|k: ga::Index| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.inner == k
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.inner != (#[trigger] s[j]).0.inner
    }
    pub broadcast proof fn lemma_listing<'a, T>(it: Iter<'a, T>, m: Map<ga::Index, T>)
        requires it.0.fresh_over(m)
        ensures #[trigger] listing(it.rem(), m)
    {
        let s = it.rem();
        assert forall|k: ga::Index| m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.inner == k by {
            let i = choose|i: int| 0 <= i < it.0.left().len() && (#[trigger] it.0.left()[i]).0 == k;
            assert(s[i].0.inner == k);
        }
    }
    pub open spec fn mk_index<T>(i: ga::Index) -> Index<T> { Index { inner: i, _phantom: PhantomData } }
}

// ======================================================================================
// client/rust: property types and values
// ======================================================================================
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

pub mod time {
    use vstd::prelude::*;
    /// (its arithmetic is T02's; here only that an object carries one)
    #[verifier::external_body]
    pub struct TimeWarp { _p: () }
    impl crate::stub::Default for TimeWarp {
        uninterp spec fn is_default(&self) -> bool;
        #[verifier::external_body]
        fn default() -> Self { unimplemented!() }
    }
}

pub mod typemap {
    use vstd::prelude::*;
    use crate::generational_arena::Index;
    use crate::contract::properties::dynamic::{DynTpProperty, TpPropertyType};
    use crate::contract::properties::channels::DynChannel;
    /// a stored value: a state's, or a channel
    pub enum GVal { S(DynTpProperty), C(DynChannel) }
    /// what is seen of a stored arena
    #[verifier::ext_equal]
    pub struct ArenaV { pub m: Map<Index, GVal>, pub iss: Set<Index> }
    pub trait Key: Sized {
        type Value;
        /// keys are told apart by their type; this is that type
        spec fn tag() -> (bool, TpPropertyType);
        spec fn absv(v: Self::Value) -> ArenaV;
    }
    /// `typemap::ShareMap`
    #[verifier::external_body]
    pub struct ShareMap { _p: () }
    impl ShareMap {
        pub uninterp spec fn m(&self) -> Map<(bool, TpPropertyType), ArenaV>;
        #[verifier::external_body]
        pub fn custom() -> (r: Self)
            ensures r.m() == Map::<(bool, TpPropertyType), ArenaV>::empty()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get<K: Key>(&self) -> (r: Option<&K::Value>)
            ensures r is Some == self.m().contains_key(K::tag()), r matches Some(v) ==> K::absv(*v) == self.m()[K::tag()]
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut<K: Key>(&mut self) -> (r: Option<&mut K::Value>)
            ensures match r {
                Some(v) => old(self).m().contains_key(K::tag()) && K::absv(*v) == old(self).m()[K::tag()]
                    && final(self).m() == old(self).m().insert(K::tag(), K::absv(*final(v))),
                None => !old(self).m().contains_key(K::tag()) && final(self).m() == old(self).m(),
            }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn entry<K: Key>(&mut self) -> (r: Entry<'_, K>)
            ensures r.cur() == old(self).m(), r.fin() == final(self).m()
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct Entry<'a, K: Key> { _p: core::marker::PhantomData<&'a mut K> }
    impl<'a, K: Key> Entry<'a, K> {
        pub uninterp spec fn cur(&self) -> Map<(bool, TpPropertyType), ArenaV>;
        pub uninterp spec fn fin(&self) -> Map<(bool, TpPropertyType), ArenaV>;
        #[verifier::external_body]
        pub fn or_insert_with<F: FnOnce() -> K::Value>(self, f: F) -> (r: &'a mut K::Value)
            requires f.requires(())
            ensures
                self.cur().contains_key(K::tag()) ==> K::absv(*r) == self.cur()[K::tag()],
                !self.cur().contains_key(K::tag()) ==> f.ensures((), *r),
                self.fin() == self.cur().insert(K::tag(), K::absv(*final(r)))
        { unimplemented!() }
    }
}

pub mod contract {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::PartialEqSpecImpl;
    use crate::arena;
    use crate::object::ObjectHandle;
    use crate::stub::{HashSet, Default};
    use self::properties::dynamic::TpPropertyType;
    use self::properties::states::{IStates, StatesIter, DynStateId};
    use self::properties::channels::{IChannels, ChannelsIter, DynChannelId};

    //@struct tp_client::contract::ContractId #[derive(Copy,Clone,Eq)]
    impl PartialEqSpecImpl for ContractId {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &ContractId) -> bool { *self == *other }
    }
    impl PartialEq for ContractId {
        #[verifier::external_body]
        fn eq(&self, other: &Self) -> bool { unimplemented!() }
    }
    pub type ContractDataHandle = arena::Index<ContractData>;
    //@struct tp_client::contract::ContractData
    impl ContractData {
        //@fn tp_client::contract::ContractData::new
        //@spec
            ensures ret.id == $A0, ret.objects.m() == Set::<crate::generational_arena::Index>::empty()
        //@end
        //@fn tp_client::contract::ContractData::id
        //@spec
            ensures ret == self.id
        //@end
        //@fn tp_client::contract::ContractData::objects_mut
        //@spec
            ensures *ret == old(self).objects, final(self).objects == *final(ret), final(self).id == old(self).id
        //@end
        //@fn tp_client::contract::ContractData::objects
        //@spec
            ensures *ret == self.objects
        //@end
    }

    pub trait Contract: Sized {
        type States: IStates;
        type Channels: IChannels;
        const ID: ContractId;
        spec fn h(&self) -> ContractDataHandle;
        fn new(handle: ContractDataHandle) -> (r: Self) ensures r.h() == handle;
        fn states(&self) -> &Self::States;
        fn channels(&self) -> &Self::Channels;
        fn handle(&self) -> (r: ContractDataHandle) ensures r == self.h();
        //@traitfn tp_client::contract::Contract::state_iter
        //@spec
            ensures ret.contract == self.h(), ret.pos == 0
        //@end
        //@traitfn tp_client::contract::Contract::chan_iter
        //@spec
            ensures ret.contract == self.h(), ret.pos == 0
        //@end
        //@traitfn tp_client::contract::Contract::state_id
        //@spec
            ensures ret == (if $A0 < Self::States::types().len() {
                Some(crate::contract::properties::states::id::sid(self.h(), $A0, Self::States::types()[$A0 as int])) } else { None })
        //@closure 0
            |__c0: TpPropertyType| -> (r: DynStateId) ensures r == crate::contract::properties::states::id::sid(self.h(), $A0, __c0)
        //@end
        //@traitfn tp_client::contract::Contract::chan_id
        //@spec
            ensures ret == (if $A0 < Self::Channels::types().len() {
                Some(crate::contract::properties::channels::cid(self.h(), $A0, Self::Channels::types()[$A0 as int])) } else { None })
        //@closure 0
            |__c0: TpPropertyType| -> (r: DynChannelId) ensures r == crate::contract::properties::channels::cid(self.h(), $A0, __c0)
        //@end
    }
    /// The field types that go with a contract's id. "Any two contracts are the same if their
    /// `ContractId`s are equal" (contract/mod.rs): two contract types with the same id declare the
    /// same fields.
    pub uninterp spec fn stypes(id: ContractId) -> Seq<TpPropertyType>;
    pub uninterp spec fn ctypes(id: ContractId) -> Seq<TpPropertyType>;
    pub axiom fn ax_contract_types<C: Contract>()
        ensures C::States::types() == stypes(C::ID), C::Channels::types() == ctypes(C::ID);

    pub mod properties {
        use vstd::prelude::*;
        pub mod traits {
            use vstd::prelude::*;
            use super::dynamic::*;
            use super::channels::*;
            pub trait ITpProperty: Sized + 'static {}
            pub trait ITpPropertyStatic: ITpProperty {
                const PROPERTY_TYPE: TpPropertyType;
                /// the value, as a value of dynamic type
                spec fn inj(self) -> DynTpProperty;
                spec fn cinj(c: Channel<Self>) -> DynChannel;
                proof fn lemma_inj_type(a: Self) ensures a.inj().ptype() == Self::PROPERTY_TYPE;
                proof fn lemma_cinj_type(a: Channel<Self>) ensures Self::cinj(a).ptype() == Self::PROPERTY_TYPE;
                proof fn lemma_inj(a: Self, b: Self) requires a.inj() == b.inj() ensures a == b;
                proof fn lemma_cinj(a: Channel<Self>, b: Channel<Self>) requires Self::cinj(a) == Self::cinj(b) ensures a == b;
            }
            pub trait ITpData: ITpPropertyStatic { }
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            //@foreach
            pub const PT_$V: TpPropertyType = TpPropertyType::Primitive(TpPrimitiveType::$V);
            pub const VT_$V: TpPropertyType = TpPropertyType::Vec(TpPrimitiveType::$V);
            impl ITpProperty for $T {}
            impl ITpData for $T {}
            impl ITpPropertyStatic for $T {
                const PROPERTY_TYPE: TpPropertyType = PT_$V;
                open spec fn inj(self) -> DynTpProperty { DynTpProperty::Primitive(DynTpPrimitive::$V(self)) }
                open spec fn cinj(c: Channel<Self>) -> DynChannel { DynChannel::Primitive(DynChannelPrimitive::$V(c)) }
                proof fn lemma_inj_type(a: Self) {}
                proof fn lemma_cinj_type(a: Channel<Self>) {}
                proof fn lemma_inj(a: Self, b: Self) {}
                proof fn lemma_cinj(a: Channel<Self>, b: Channel<Self>) {}
            }
            impl ITpProperty for Vec<$T> {}
            impl ITpPropertyStatic for Vec<$T> {
                const PROPERTY_TYPE: TpPropertyType = VT_$V;
                open spec fn inj(self) -> DynTpProperty { DynTpProperty::Vec(DynTpVec::$V(self)) }
                open spec fn cinj(c: Channel<Self>) -> DynChannel { DynChannel::Vec(DynChannelVec::$V(c)) }
                proof fn lemma_inj_type(a: Self) {}
                proof fn lemma_cinj_type(a: Channel<Self>) {}
                proof fn lemma_inj(a: Self, b: Self) {}
                proof fn lemma_cinj(a: Channel<Self>, b: Channel<Self>) {}
            }
            //@endfor
        }
        pub mod dynamic {
            use vstd::prelude::*;
            use vstd::std_specs::cmp::PartialEqSpecImpl;
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            pub use self::property::{DynTpProperty, DynTpPrimitive, DynTpVec};
            //@enum tp_client::contract::properties::dynamic::primitive::TpPrimitiveType #[derive(Copy,Clone,Eq)]
            //@enum tp_client::contract::properties::dynamic::TpPropertyType #[derive(Copy,Clone,Eq)]
            impl PartialEqSpecImpl for TpPropertyType {
                open spec fn obeys_eq_spec() -> bool { true }
                open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
            }
            impl PartialEq for TpPropertyType {
                #[verifier::external_body]
                fn eq(&self, other: &Self) -> bool { unimplemented!() }
            }
            impl PartialEqSpecImpl for TpPrimitiveType {
                open spec fn obeys_eq_spec() -> bool { true }
                open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
            }
            impl PartialEq for TpPrimitiveType {
                #[verifier::external_body]
                fn eq(&self, other: &Self) -> bool { unimplemented!() }
            }
            pub mod property {
                use vstd::prelude::*;
                use super::{TpPropertyType, TpPrimitiveType};
                use crate::object::ObjectHandle;
                use crate::contract::ContractDataHandle;
                //@enum tp_client::contract::properties::dynamic::property::DynTpProperty
                //@enum tp_client::contract::properties::dynamic::property::DynTpPrimitive
                //@enum tp_client::contract::properties::dynamic::property::DynTpVec
                impl DynTpPrimitive {
                    pub open spec fn ptype(self) -> TpPropertyType {
                        match self {
                            //@foreach
                            DynTpPrimitive::$V(_) => TpPropertyType::Primitive(TpPrimitiveType::$V),
                            //@endfor
                        }
                    }
                    //@fn tp_client::contract::properties::dynamic::primitive::DynTpPrimitive::prop_type
                    //@spec
                        ensures ret == self.ptype()
                    //@end
                }
                impl DynTpVec {
                    pub open spec fn ptype(self) -> TpPropertyType {
                        match self {
                            //@foreach
                            DynTpVec::$V(_) => TpPropertyType::Vec(TpPrimitiveType::$V),
                            //@endfor
                        }
                    }
                    //@fn tp_client::contract::properties::dynamic::vec::DynTpVec::prop_type
                    //@spec
                        ensures ret == self.ptype()
                    //@end
                }
                impl DynTpProperty {
                    pub open spec fn ptype(self) -> TpPropertyType {
                        match self { DynTpProperty::Primitive(p) => p.ptype(), DynTpProperty::Vec(v) => v.ptype() }
                    }
                    //@fn tp_client::contract::properties::dynamic::property::DynTpProperty::prop_type
                    //@spec
                        ensures ret == self.ptype()
                    //@end
                }
            }
        }
        pub mod states {
            use vstd::prelude::*;
            use core::marker::PhantomData;
            use crate::arena;
            use crate::typemap;
            use crate::typemap::{ShareMap, ArenaV, GVal};
            use super::traits::ITpPropertyStatic;
            pub use self::id::{StateId, DynStateId};
            pub use self::iter::{IStates, StatesIter};
            pub use self::handle::{IStateHandle, StateHandle};

            //@struct tp_client::contract::properties::states::State
            impl<T: ITpPropertyStatic> State<T> {
                //@fn tp_client::contract::properties::states::State::new
                //@spec
                    ensures ret.value == $A0
                //@end
            }
            pub struct StateArenaHandle<T: ITpPropertyStatic>(pub PhantomData<T>);
            impl<T: ITpPropertyStatic> typemap::Key for StateArenaHandle<T> {
                type Value = arena::Arena<State<T>>;
                open spec fn tag() -> (bool, super::dynamic::TpPropertyType) { (false, T::PROPERTY_TYPE) }
                open spec fn absv(v: arena::Arena<State<T>>) -> ArenaV {
                    ArenaV { m: v.0.m().map_values(|s: State<T>| GVal::S(s.value.inj())), iss: v.0.iss() }
                }
            }
            //@struct tp_client::contract::properties::states::StateArenaMap
            impl StateArenaMap {
                //@fn tp_client::contract::properties::states::StateArenaMap::new
                //@spec
                    ensures ret.0.m() == Map::<(bool, super::dynamic::TpPropertyType), ArenaV>::empty()
                //@end
                //@fn tp_client::contract::properties::states::StateArenaMap::get
                //@spec
                    ensures
                        ret is Some == self.0.m().contains_key((false, T::PROPERTY_TYPE)),
                        ret matches Some(v) ==> <StateArenaHandle<T> as typemap::Key>::absv(*v) == self.0.m()[(false, T::PROPERTY_TYPE)]
                //@end
                //@fn tp_client::contract::properties::states::StateArenaMap::get_mut
                //@spec
                    ensures match ret {
                        Some(v) => old(self).0.m().contains_key((false, T::PROPERTY_TYPE))
                            && <StateArenaHandle<T> as typemap::Key>::absv(*v) == old(self).0.m()[(false, T::PROPERTY_TYPE)]
                            && final(self).0.m() == old(self).0.m().insert((false, T::PROPERTY_TYPE), <StateArenaHandle<T> as typemap::Key>::absv(*final(v))),
                        None => !old(self).0.m().contains_key((false, T::PROPERTY_TYPE)) && final(self).0.m() == old(self).0.m(),
                    }
                //@end
            }
            pub mod id {
                use vstd::prelude::*;
                use core::marker::PhantomData;
                use crate::contract::ContractDataHandle;
                use crate::object::ObjectHandle;
                use crate::contract::properties::traits::{ITpProperty, ITpPropertyStatic};
                use crate::contract::properties::dynamic::{TpPropertyType, TpPrimitiveType};
                //@struct tp_client::contract::properties::states::id::StateId
                impl<T: ITpProperty> StateId<T> {
                    //@fn tp_client::contract::properties::states::id::StateId::contract
                    //@spec
                        ensures ret == self.contract
                    //@end
                    //@fn tp_client::contract::properties::states::id::StateId::idx
                    //@spec
                        ensures ret == self.idx
                    //@end
                    //@fn tp_client::contract::properties::states::id::StateId::new
                    //@spec
                        ensures ret == mk::<T>($A0, $A1)
                    //@end
                }
                pub open spec fn mk<T: ITpProperty>(idx: usize, contract: ContractDataHandle) -> StateId<T> {
                    StateId { idx, contract, _phantom: PhantomData }
                }
                //@enum tp_client::contract::properties::states::id::DynStateId
                //@enum tp_client::contract::properties::states::id::DynStateIdPrimitive
                //@enum tp_client::contract::properties::states::id::DynStateIdVec
                //@foreach
                impl vstd::std_specs::convert::FromSpecImpl<StateId<$T>> for DynStateIdPrimitive {
                    open spec fn obeys_from_spec() -> bool { true }
                    open spec fn from_spec(v: StateId<$T>) -> Self { DynStateIdPrimitive::$V(v) }
                }
                impl From<StateId<$T>> for DynStateIdPrimitive {
                    //@traitfn tp_client::contract::properties::states::id::From<(StateId<$T>)>@DynStateIdPrimitive::from
                    //@end
                }
                impl vstd::std_specs::convert::FromSpecImpl<StateId<Vec<$T>>> for DynStateIdVec {
                    open spec fn obeys_from_spec() -> bool { true }
                    open spec fn from_spec(v: StateId<Vec<$T>>) -> Self { DynStateIdVec::$V(v) }
                }
                impl From<StateId<Vec<$T>>> for DynStateIdVec {
                    //@traitfn tp_client::contract::properties::states::id::From<(StateId<Vec<$T>>)>@DynStateIdVec::from
                    //@end
                }
                //@endfor
                impl vstd::std_specs::convert::FromSpecImpl<DynStateIdPrimitive> for DynStateId {
                    open spec fn obeys_from_spec() -> bool { true }
                    open spec fn from_spec(v: DynStateIdPrimitive) -> Self { DynStateId::Primitive(v) }
                }
                impl From<DynStateIdPrimitive> for DynStateId {
                    //@traitfn tp_client::contract::properties::states::id::From<(DynStateIdPrimitive)>@DynStateId::from
                    //@end
                }
                impl vstd::std_specs::convert::FromSpecImpl<DynStateIdVec> for DynStateId {
                    open spec fn obeys_from_spec() -> bool { true }
                    open spec fn from_spec(v: DynStateIdVec) -> Self { DynStateId::Vec(v) }
                }
                impl From<DynStateIdVec> for DynStateId {
                    //@traitfn tp_client::contract::properties::states::id::From<(DynStateIdVec)>@DynStateId::from
                    //@end
                }
                /// the id of field `idx`, of type `t`, of a contract
                pub open spec fn sid(contract: ContractDataHandle, idx: usize, t: TpPropertyType) -> DynStateId {
                    match t {
                        //@foreach
                        TpPropertyType::Primitive(TpPrimitiveType::$V) => DynStateId::Primitive(DynStateIdPrimitive::$V(mk(idx, contract))),
                        TpPropertyType::Vec(TpPrimitiveType::$V) => DynStateId::Vec(DynStateIdVec::$V(mk(idx, contract))),
                        //@endfor
                    }
                }
                impl DynStateId {
                    //@fn tp_client::contract::properties::states::id::DynStateId::new
                    //@spec
                        ensures ret == sid($A0, $A1, $A2)
                    //@end
                }
            }
            pub mod iter {
                use vstd::prelude::*;
                use crate::stub::{Iterator, Default};
                use super::id::{DynStateId, sid};
                use crate::contract::properties::dynamic::TpPropertyType;
                pub trait IStates: Sized {
                    spec fn types() -> Seq<TpPropertyType>;
                    fn enumerate_types() -> (r: &'static [TpPropertyType]) ensures r@ == Self::types();
                }
                //@struct tp_client::contract::properties::states::iter::StatesIter
                impl<S: IStates> StatesIter<S> {
                    //@fn tp_client::contract::properties::states::iter::StatesIter::new
                    //@spec
                        ensures ret.contract == $A0, ret.pos == 0
                    //@end
                }
                impl<S: IStates> crate::stub::IteratorNth for StatesIter<S> {
                    //@traitfn tp_client::contract::properties::states::iter::Iterator@StatesIter::nth
                    //@end
                }
                impl<S: IStates> Iterator for StatesIter<S> {
                    type Item = DynStateId;
                    open spec fn wf(&self) -> bool { self.pos <= S::types().len() <= usize::MAX }
                    open spec fn rem(&self) -> Seq<DynStateId> {
                        Seq::new((S::types().len() - self.pos) as nat, |k: int| sid(self.contract, (self.pos + k) as usize, S::types()[self.pos + k]))
                    }
                    //@traitfn tp_client::contract::properties::states::iter::Iterator@StatesIter::next
                    //@end
                    //@traitfn tp_client::contract::properties::states::iter::Iterator@StatesIter::size_hint
                    //@spec
                        ensures ret.0 == self.rem().len(), ret.1 == Some(ret.0)
                    //@end
                }
            }
            pub mod handle {
                use vstd::prelude::*;
                use crate::arena;
                use crate::eyre;
                use crate::eyre::Result;
                use super::State;
                use crate::baseline::Baseline;
                use crate::contract::properties::dynamic::TpPropertyType;
                use crate::contract::properties::traits::ITpPropertyStatic;
                use crate::typemap::GVal;
                pub trait IStateHandle: Sized {
                    type OutputRef<'a>;
                    type OutputMut<'a>;
                    spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool;
                    #[verifier::prophetic]
                    spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool;
                    fn get<'a>(&self, baseline: &'a Baseline) -> (ret: Result<Self::OutputRef<'a>>) ensures self.got(baseline, ret);
                    fn get_mut<'a>(&self, baseline: &'a mut Baseline) -> (ret: Result<Self::OutputMut<'a>>) ensures self.got_mut(*old(baseline), *final(baseline), ret);
                    fn prop_type(&self) -> TpPropertyType;
                }
                pub type StateHandle<T> = arena::Index<State<T>>;
//@include state_handle.inc
            }
        }
        pub mod channels {
            use vstd::prelude::*;
            use core::marker::PhantomData;
            use crate::arena;
            use crate::typemap;
            use crate::typemap::{ShareMap, ArenaV, GVal};
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            use crate::stub::{Iterator, Default};
            use super::traits::{ITpProperty, ITpPropertyStatic};
            use super::dynamic::{TpPropertyType, TpPrimitiveType};
            pub use self::dyn_channel::{DynChannel, DynChannelPrimitive, DynChannelVec};
            pub use self::channel::{Channel, Keyframe};
            pub use self::handle::{IChannelHandle, ChannelHandle};
            pub mod channel {
                use vstd::prelude::*;
                use super::super::traits::ITpProperty;
                //@struct tp_client::contract::properties::channels::channel::Keyframe
                //@struct tp_client::contract::properties::channels::channel::Channel
            }
            pub mod dyn_channel {
                use vstd::prelude::*;
                use crate::object::ObjectHandle;
                use crate::contract::ContractDataHandle;
                use super::channel::Channel;
                use super::super::dynamic::{TpPropertyType, TpPrimitiveType};
                //@enum tp_client::contract::properties::channels::dyn_channel::DynChannel
                //@enum tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitive
                //@enum tp_client::contract::properties::channels::dyn_channel::DynChannelVec
                impl DynChannelPrimitive {
                    pub open spec fn ptype(self) -> TpPropertyType {
                        match self {
                            //@foreach
                            DynChannelPrimitive::$V(_) => TpPropertyType::Primitive(TpPrimitiveType::$V),
                            //@endfor
                        }
                    }
                    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitive::prop_type
                    //@spec
                        ensures ret == self.ptype()
                    //@end
                }
                impl DynChannelVec {
                    pub open spec fn ptype(self) -> TpPropertyType {
                        match self {
                            //@foreach
                            DynChannelVec::$V(_) => TpPropertyType::Vec(TpPrimitiveType::$V),
                            //@endfor
                        }
                    }
                    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelVec::prop_type
                    //@spec
                        ensures ret == self.ptype()
                    //@end
                }
                impl DynChannel {
                    pub open spec fn ptype(self) -> TpPropertyType {
                        match self { DynChannel::Primitive(p) => p.ptype(), DynChannel::Vec(v) => v.ptype() }
                    }
                    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannel::prop_type
                    //@spec
                        ensures ret == self.ptype()
                    //@end
                }
            }
            pub struct ChannelArenaHandle<T: ITpPropertyStatic>(pub PhantomData<T>);
            impl<T: ITpPropertyStatic> typemap::Key for ChannelArenaHandle<T> {
                type Value = arena::Arena<Channel<T>>;
                open spec fn tag() -> (bool, super::dynamic::TpPropertyType) { (true, T::PROPERTY_TYPE) }
                open spec fn absv(v: arena::Arena<Channel<T>>) -> ArenaV {
                    ArenaV { m: v.0.m().map_values(|s: Channel<T>| GVal::C(T::cinj(s))), iss: v.0.iss() }
                }
            }
            //@struct tp_client::contract::properties::channels::ChannelArenaMap
            impl ChannelArenaMap {
                //@fn tp_client::contract::properties::channels::ChannelArenaMap::new
                //@spec
                    ensures ret.0.m() == Map::<(bool, super::dynamic::TpPropertyType), ArenaV>::empty()
                //@end
                //@fn tp_client::contract::properties::channels::ChannelArenaMap::get
                //@spec
                    ensures
                        ret is Some == self.0.m().contains_key((true, T::PROPERTY_TYPE)),
                        ret matches Some(v) ==> <ChannelArenaHandle<T> as typemap::Key>::absv(*v) == self.0.m()[(true, T::PROPERTY_TYPE)]
                //@end
                //@fn tp_client::contract::properties::channels::ChannelArenaMap::get_mut
                //@spec
                    ensures match ret {
                        Some(v) => old(self).0.m().contains_key((true, T::PROPERTY_TYPE))
                            && <ChannelArenaHandle<T> as typemap::Key>::absv(*v) == old(self).0.m()[(true, T::PROPERTY_TYPE)]
                            && final(self).0.m() == old(self).0.m().insert((true, T::PROPERTY_TYPE), <ChannelArenaHandle<T> as typemap::Key>::absv(*final(v))),
                        None => !old(self).0.m().contains_key((true, T::PROPERTY_TYPE)) && final(self).0.m() == old(self).0.m(),
                    }
                //@end
            }
            //@struct tp_client::contract::properties::channels::ChannelId
            impl<T: ITpProperty> ChannelId<T> {
                //@fn tp_client::contract::properties::channels::ChannelId::contract
                //@spec
                    ensures ret == self.contract
                //@end
                //@fn tp_client::contract::properties::channels::ChannelId::idx
                //@spec
                    ensures ret == self.idx
                //@end
                //@fn tp_client::contract::properties::channels::ChannelId::new
                //@spec
                    ensures ret == cmk::<T>($A0, $A1)
                //@end
            }
            pub open spec fn cmk<T: ITpProperty>(idx: usize, contract: ContractDataHandle) -> ChannelId<T> {
                ChannelId { idx, contract, _phantom: PhantomData }
            }
            //@enum tp_client::contract::properties::channels::DynChannelId
            //@enum tp_client::contract::properties::channels::DynChannelIdPrimitive
            //@enum tp_client::contract::properties::channels::DynChannelIdVec
            //@foreach
            impl vstd::std_specs::convert::FromSpecImpl<ChannelId<$T>> for DynChannelIdPrimitive {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: ChannelId<$T>) -> Self { DynChannelIdPrimitive::$V(v) }
            }
            impl From<ChannelId<$T>> for DynChannelIdPrimitive {
                //@traitfn tp_client::contract::properties::channels::From<(ChannelId<$T>)>@DynChannelIdPrimitive::from
                //@end
            }
            impl vstd::std_specs::convert::FromSpecImpl<ChannelId<Vec<$T>>> for DynChannelIdVec {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: ChannelId<Vec<$T>>) -> Self { DynChannelIdVec::$V(v) }
            }
            impl From<ChannelId<Vec<$T>>> for DynChannelIdVec {
                //@traitfn tp_client::contract::properties::channels::From<(ChannelId<Vec<$T>>)>@DynChannelIdVec::from
                //@end
            }
            //@endfor
            impl vstd::std_specs::convert::FromSpecImpl<DynChannelIdPrimitive> for DynChannelId {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: DynChannelIdPrimitive) -> Self { DynChannelId::Primitive(v) }
            }
            impl From<DynChannelIdPrimitive> for DynChannelId {
                //@traitfn tp_client::contract::properties::channels::From<(DynChannelIdPrimitive)>@DynChannelId::from
                //@end
            }
            impl vstd::std_specs::convert::FromSpecImpl<DynChannelIdVec> for DynChannelId {
                open spec fn obeys_from_spec() -> bool { true }
                open spec fn from_spec(v: DynChannelIdVec) -> Self { DynChannelId::Vec(v) }
            }
            impl From<DynChannelIdVec> for DynChannelId {
                //@traitfn tp_client::contract::properties::channels::From<(DynChannelIdVec)>@DynChannelId::from
                //@end
            }
            pub open spec fn cid(contract: ContractDataHandle, idx: usize, t: TpPropertyType) -> DynChannelId {
                match t {
                    //@foreach
                    TpPropertyType::Primitive(TpPrimitiveType::$V) => DynChannelId::Primitive(DynChannelIdPrimitive::$V(cmk(idx, contract))),
                    TpPropertyType::Vec(TpPrimitiveType::$V) => DynChannelId::Vec(DynChannelIdVec::$V(cmk(idx, contract))),
                    //@endfor
                }
            }
            impl DynChannelId {
                //@fn tp_client::contract::properties::channels::DynChannelId::new
                //@spec
                    ensures ret == cid($A0, $A1, $A2)
                //@end
            }
            pub trait IChannels: Sized {
                spec fn types() -> Seq<TpPropertyType>;
                fn enumerate_types() -> (r: &'static [TpPropertyType]) ensures r@ == Self::types();
            }
            //@struct tp_client::contract::properties::channels::ChannelsIter
            impl<S: IChannels> ChannelsIter<S> {
                //@fn tp_client::contract::properties::channels::ChannelsIter::new
                //@spec
                    ensures ret.contract == $A0, ret.pos == 0
                //@end
            }
            impl<S: IChannels> crate::stub::IteratorNth for ChannelsIter<S> {
                //@traitfn tp_client::contract::properties::channels::Iterator@ChannelsIter::nth
                //@end
            }
            impl<S: IChannels> Iterator for ChannelsIter<S> {
                type Item = DynChannelId;
                open spec fn wf(&self) -> bool { self.pos <= S::types().len() <= usize::MAX }
                open spec fn rem(&self) -> Seq<DynChannelId> {
                    Seq::new((S::types().len() - self.pos) as nat, |k: int| cid(self.contract, (self.pos + k) as usize, S::types()[self.pos + k]))
                }
                //@traitfn tp_client::contract::properties::channels::Iterator@ChannelsIter::next
                //@end
                //@traitfn tp_client::contract::properties::channels::Iterator@ChannelsIter::size_hint
                //@spec
                    ensures ret.0 == self.rem().len(), ret.1 == Some(ret.0)
                //@end
            }
            pub mod handle {
                use vstd::prelude::*;
                use crate::arena;
                use crate::eyre;
                use crate::eyre::Result;
                use super::Channel;
                use crate::baseline::Baseline;
                use crate::contract::properties::dynamic::TpPropertyType;
                use crate::contract::properties::traits::ITpPropertyStatic;
                use crate::typemap::GVal;
                pub trait IChannelHandle: Sized {
                    type OutputRef<'a>;
                    type OutputMut<'a>;
                    spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool;
                    #[verifier::prophetic]
                    spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool;
                    fn get<'a>(&self, baseline: &'a Baseline) -> (ret: Result<Self::OutputRef<'a>>) ensures self.got(baseline, ret);
                    fn get_mut<'a>(&self, baseline: &'a mut Baseline) -> (ret: Result<Self::OutputMut<'a>>) ensures self.got_mut(*old(baseline), *final(baseline), ret);
                    fn prop_type(&self) -> TpPropertyType;
                }
                pub type ChannelHandle<T> = arena::Index<Channel<T>>;
//@include channel_handle.inc
            }
        }
    }
}

// ======================================================================================
// client/rust: objects and baselines
// ======================================================================================
pub mod object {
    use vstd::prelude::*;
    use crate::arena;
    use crate::eyre;
    use crate::eyre::Result;
    use crate::generational_arena as ga;
    use crate::time::TimeWarp;
    use crate::contract::ContractDataHandle;
    use crate::contract::properties::states::{StateHandle, StateId};
    use crate::contract::properties::channels::{ChannelHandle, ChannelId};
    use crate::contract::properties::traits::{ITpData, ITpPropertyStatic};
    pub type ObjectHandle = arena::Index<Object>;
    //@struct tp_client::object::Object
    impl Object {
        //@fn tp_client::object::Object::new
        //@spec
            ensures ret.states == $A0, ret.channels == $A1, ret.contract == $A2, ret.time_warp == $A3
        //@end
        //@fn tp_client::object::Object::state
        //@panics $A0.contract.inner != self.contract.inner
        //@spec
            requires $A0.contract.inner == self.contract.inner ==> $A0.idx < self.states@.len()
            ensures
                $A0.contract.inner == self.contract.inner,
                ret.inner == self.states@[$A0.idx as int]
        //@end
        //@fn tp_client::object::Object::channel
        //@panics $A0.contract.inner != self.contract.inner
        //@spec
            requires $A0.contract.inner == self.contract.inner ==> $A0.idx < self.channels@.len()
            ensures
                $A0.contract.inner == self.contract.inner,
                ret.inner == self.channels@[$A0.idx as int]
        //@end
        //@fn tp_client::object::Object::contract
        //@spec
            ensures ret == self.contract
        //@end
        //@fn tp_client::object::Object::time_warp
        //@spec
            ensures *ret == self.time_warp
        //@end
        //@fn tp_client::object::Object::time_warp_mut
        //@spec
            ensures
                *ret == old(self).time_warp, final(self).time_warp == *final(ret),
                final(self).states == old(self).states, final(self).channels == old(self).channels, final(self).contract == old(self).contract
        //@end
        //@fn tp_client::object::Object::bind_state
        //@spec
            ensures
                ret is Ok == ($A0.contract.inner == self.contract.inner && $A0.idx < self.states@.len()),
                ret matches Ok(h) ==> h.inner == self.states@[$A0.idx as int]
        //@end
        //@fn tp_client::object::Object::bind_channel
        //@spec
            ensures
                ret is Ok == ($A0.contract.inner == self.contract.inner && $A0.idx < self.channels@.len()),
                ret matches Ok(h) ==> h.inner == self.channels@[$A0.idx as int]
        //@end
    }
}

pub mod baseline {
    use vstd::prelude::*;
    use crate::arena;
    use crate::arena::Arena;
    use crate::eyre;
    use crate::eyre::Result;
    use crate::generational_arena as ga;
    use crate::stub::{Iterator, IntoIterator, Default, suffix, HKey};
    use crate::itertools::{Itertools, EitherOrBoth, zipped};
    use crate::time::TimeWarp;
    use crate::typemap::{GVal, ArenaV};
    use crate::object::{Object, ObjectHandle};
    use crate::contract::{Contract, ContractData, ContractDataHandle, ContractId, stypes, ctypes, ax_contract_types};
    use crate::contract::properties::dynamic::{DynTpProperty, TpPropertyType, TpPrimitiveType};
    use crate::contract::properties::states::*;
    use crate::contract::properties::channels::*;
    use crate::contract::properties::traits::{ITpPropertyStatic};

    //@enum tp_client::baseline::BaselineKind #[derive(Copy,Clone)]
    //@struct tp_client::baseline::Baseline

    pub open spec fn only_states_differ(a: Baseline, b: Baseline) -> bool {
        a.kind == b.kind && a.objects == b.objects && a.contracts == b.contracts && a.channels == b.channels
    }
    /// a new state field of type `t`, with value `v`, at index `i`
    pub open spec fn new_s(a: Baseline, b: Baseline, t: TpPropertyType, v: DynTpProperty, i: ga::Index) -> bool {
        &&& only_states_differ(a, b)
        &&& !a.iss_s(t, i)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_s(u, j) == ((u == t && j == i) || a.iss_s(u, j))
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(u, j) == (if u == t && j == i { Some(GVal::S(v)) } else { a.cell_s(u, j) })
    }
    /// from `a` to `b`, the first `n` of the fields `vals` have been made, at the indices `h`
    pub open spec fn made_s(a: Baseline, b: Baseline, vals: Seq<DynTpProperty>, h: Seq<ga::Index>, n: int) -> bool {
        &&& only_states_differ(a, b)
        &&& h.len() == n <= vals.len()
        &&& forall|k: int| 0 <= k < n ==> !a.iss_s(vals[k].ptype(), #[trigger] h[k]) && b.iss_s(vals[k].ptype(), h[k])
            && b.cell_s(vals[k].ptype(), h[k]) == Some(GVal::S(vals[k]))
        &&& forall|k: int, l: int| 0 <= k < l < n && vals[k].ptype() == vals[l].ptype() ==> #[trigger] h[k] != #[trigger] h[l]
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] a.iss_s(u, j) ==> b.iss_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.iss_s(u, j) ==> #[trigger] b.cell_s(u, j) == a.cell_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| !a.iss_s(u, j) && #[trigger] b.cell_s(u, j) is Some
            ==> b.iss_s(u, j) && exists|k: int| 0 <= k < n && vals[k].ptype() == u && #[trigger] h[k] == j
    }
    pub proof fn lemma_made_s(a: Baseline, b: Baseline, c: Baseline, vals: Seq<DynTpProperty>, h: Seq<ga::Index>, n: int, i: ga::Index)
        requires made_s(a, b, vals, h, n), n < vals.len(), new_s(b, c, vals[n].ptype(), vals[n], i)
        ensures made_s(a, c, vals, h.push(i), n + 1)
    {
        let g = h.push(i);
        assert forall|u: TpPropertyType, j: ga::Index| a.iss_s(u, j) implies #[trigger] c.cell_s(u, j) == a.cell_s(u, j) by {
            assert(b.cell_s(u, j) == a.cell_s(u, j));
            assert(b.iss_s(u, j));
        }
        assert forall|k: int| 0 <= k < n + 1 implies !a.iss_s(vals[k].ptype(), #[trigger] g[k]) && c.iss_s(vals[k].ptype(), g[k])
            && c.cell_s(vals[k].ptype(), g[k]) == Some(GVal::S(vals[k])) by {
            if k < n { assert(g[k] == h[k]); }
        }
        assert forall|k: int, l: int| 0 <= k < l < n + 1 && vals[k].ptype() == vals[l].ptype() implies #[trigger] g[k] != #[trigger] g[l] by {
            assert(g[k] == h[k]);
            if l < n { assert(g[l] == h[l]); }
        }
        assert forall|u: TpPropertyType, j: ga::Index| !a.iss_s(u, j) && #[trigger] c.cell_s(u, j) is Some
            implies c.iss_s(u, j) && exists|k: int| 0 <= k < n + 1 && vals[k].ptype() == u && #[trigger] g[k] == j by {
            if u == vals[n].ptype() && j == i { assert(g[n] == j); } else {
                assert(b.cell_s(u, j) is Some);
                let k = choose|k: int| 0 <= k < n && vals[k].ptype() == u && #[trigger] h[k] == j;
                assert(g[k] == j);
            }
        }
    }

    /// a new channel field of type `t`, with value `v`, at index `i`
    pub open spec fn new_c(a: Baseline, b: Baseline, t: TpPropertyType, v: DynChannel, i: ga::Index) -> bool {
        &&& only_channels_differ(a, b)
        &&& !a.iss_c(t, i)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_c(u, j) == ((u == t && j == i) || a.iss_c(u, j))
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(u, j) == (if u == t && j == i { Some(GVal::C(v)) } else { a.cell_c(u, j) })
    }
    /// from `a` to `b`, the first `n` of the fields `vals` have been made, at the indices `h`
    pub open spec fn made_c(a: Baseline, b: Baseline, vals: Seq<DynChannel>, h: Seq<ga::Index>, n: int) -> bool {
        &&& only_channels_differ(a, b)
        &&& h.len() == n <= vals.len()
        &&& forall|k: int| 0 <= k < n ==> !a.iss_c(vals[k].ptype(), #[trigger] h[k]) && b.iss_c(vals[k].ptype(), h[k])
            && b.cell_c(vals[k].ptype(), h[k]) == Some(GVal::C(vals[k]))
        &&& forall|k: int, l: int| 0 <= k < l < n && vals[k].ptype() == vals[l].ptype() ==> #[trigger] h[k] != #[trigger] h[l]
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] a.iss_c(u, j) ==> b.iss_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.iss_c(u, j) ==> #[trigger] b.cell_c(u, j) == a.cell_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| !a.iss_c(u, j) && #[trigger] b.cell_c(u, j) is Some
            ==> b.iss_c(u, j) && exists|k: int| 0 <= k < n && vals[k].ptype() == u && #[trigger] h[k] == j
    }
    pub proof fn lemma_made_c(a: Baseline, b: Baseline, c: Baseline, vals: Seq<DynChannel>, h: Seq<ga::Index>, n: int, i: ga::Index)
        requires made_c(a, b, vals, h, n), n < vals.len(), new_c(b, c, vals[n].ptype(), vals[n], i)
        ensures made_c(a, c, vals, h.push(i), n + 1)
    {
        let g = h.push(i);
        assert forall|u: TpPropertyType, j: ga::Index| a.iss_c(u, j) implies #[trigger] c.cell_c(u, j) == a.cell_c(u, j) by {
            assert(b.cell_c(u, j) == a.cell_c(u, j));
            assert(b.iss_c(u, j));
        }
        assert forall|k: int| 0 <= k < n + 1 implies !a.iss_c(vals[k].ptype(), #[trigger] g[k]) && c.iss_c(vals[k].ptype(), g[k])
            && c.cell_c(vals[k].ptype(), g[k]) == Some(GVal::C(vals[k])) by {
            if k < n { assert(g[k] == h[k]); }
        }
        assert forall|k: int, l: int| 0 <= k < l < n + 1 && vals[k].ptype() == vals[l].ptype() implies #[trigger] g[k] != #[trigger] g[l] by {
            assert(g[k] == h[k]);
            if l < n { assert(g[l] == h[l]); }
        }
        assert forall|u: TpPropertyType, j: ga::Index| !a.iss_c(u, j) && #[trigger] c.cell_c(u, j) is Some
            implies c.iss_c(u, j) && exists|k: int| 0 <= k < n + 1 && vals[k].ptype() == u && #[trigger] g[k] == j by {
            if u == vals[n].ptype() && j == i { assert(g[n] == j); } else {
                assert(b.cell_c(u, j) is Some);
                let k = choose|k: int| 0 <= k < n && vals[k].ptype() == u && #[trigger] h[k] == j;
                assert(g[k] == j);
            }
        }
    }

    /// values given for fields of types `ts`
    pub open spec fn fits<P: HasPt>(vals: Seq<P>, ts: Seq<TpPropertyType>) -> bool {
        vals.len() == ts.len() && forall|i: int| 0 <= i < vals.len() ==> (#[trigger] vals[i]).pt() == ts[i]
    }
    pub trait HasPt: Sized { spec fn pt(self) -> TpPropertyType; }
    impl HasPt for DynTpProperty { open spec fn pt(self) -> TpPropertyType { self.ptype() } }
    impl HasPt for DynChannel { open spec fn pt(self) -> TpPropertyType { self.ptype() } }
    /// one step of the check that every field has its type
    pub open spec fn checks<P: HasPt>(acc: Vec<P>, item: (usize, EitherOrBoth<P, &TpPropertyType>), r: Result<Vec<P>>) -> bool {
        match (item.1, r) {
            (EitherOrBoth::Both(p, t), Ok(a)) => p.pt() == *t && a@ == acc@.push(p),
            (EitherOrBoth::Both(p, t), Err(_)) => p.pt() != *t,
            (_, r) => r is Err,
        }
    }
    pub proof fn lemma_checked<P: HasPt, F: FnMut(Vec<P>, (usize, EitherOrBoth<P, &'static TpPropertyType>)) -> Result<Vec<P>>>(
        f: F, vals: Seq<P>, ts: Seq<TpPropertyType>, accs: Seq<Vec<P>>)
        requires
            forall|a: Vec<P>, i: (usize, EitherOrBoth<P, &'static TpPropertyType>), r: Result<Vec<P>>| #[trigger] f.ensures((a, i), r) ==> checks(a, i, r),
            accs.len() >= 1, accs[0]@ == Seq::<P>::empty(),
            accs.len() <= zipped(vals, ts.map_values(|t: TpPropertyType| &t)).len() + 1,
            crate::itertools::steps(f, zipped(vals, ts.map_values(|t: TpPropertyType| &t)), accs),
        ensures
            accs.last()@ == vals.take(accs.len() - 1), accs.len() - 1 <= vals.len(), accs.len() - 1 <= ts.len(),
            forall|i: int| 0 <= i < accs.len() - 1 ==> (#[trigger] vals[i]).pt() == ts[i],
        decreases accs.len()
    {
        let items = zipped(vals, ts.map_values(|t: TpPropertyType| &t));
        if accs.len() > 1 {
            let n = accs.len() - 2;
            let pre = accs.drop_last();
            assert forall|i: int| 0 <= i < pre.len() - 1 implies f.ensures((pre[i], items[i]), Ok(#[trigger] pre[i + 1])) by {
                assert(pre[i + 1] == accs[i + 1] && pre[i] == accs[i]);
            }
            lemma_checked(f, vals, ts, pre);
            assert(f.ensures((accs[n], items[n]), Ok(accs[n + 1])));
            assert(checks(accs[n], items[n], Ok(accs[n + 1])));
            assert(vals.take(n + 1) =~= vals.take(n).push(vals[n]));
        } else {
            assert(vals.take(0) =~= Seq::<P>::empty());
        }
    }
    pub proof fn lemma_taken<P>(s: Seq<P>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
    /// objects of `b` are objects of `a`, of the same contract and with the same fields
    pub open spec fn sub(a: Baseline, b: Baseline) -> bool {
        forall|o: ga::Index| #[trigger] b.objects.m().contains_key(o) ==> {
            let (x, y, c) = (a.objects.m()[o], b.objects.m()[o], b.objects.m()[o].contract.inner);
            &&& a.objects.m().contains_key(o) && x.states@ == y.states@ && x.channels@ == y.channels@ && x.contract.inner == c
            &&& b.contracts.m().contains_key(c) && a.contracts.m()[c].id == b.contracts.m()[c].id
        }
    }
    /// object `o` of contract `c` has come to be, with these fields, and nothing else has changed
    pub open spec fn created(a: Baseline, b: Baseline, o: ga::Index, c: ContractDataHandle, sv: Seq<DynTpProperty>, cv: Seq<DynChannel>) -> bool {
        let x = b.objects.m()[o];
        &&& a.kind == b.kind
        &&& !a.objects.iss().contains(o) && b.objects.iss() == a.objects.iss().insert(o)
        &&& b.objects.m() == a.objects.m().insert(o, x)
        &&& x.contract.inner == c.inner
        &&& x.states@.len() == sv.len() && forall|k: int| 0 <= k < sv.len() ==> !a.iss_s(sv[k].ptype(), #[trigger] x.states@[k])
            && b.cell_s(sv[k].ptype(), x.states@[k]) == Some(GVal::S(sv[k]))
        &&& x.channels@.len() == cv.len() && forall|k: int| 0 <= k < cv.len() ==> !a.iss_c(cv[k].ptype(), #[trigger] x.channels@[k])
            && b.cell_c(cv[k].ptype(), x.channels@[k]) == Some(GVal::C(cv[k]))
        &&& forall|u: TpPropertyType, j: ga::Index| a.iss_s(u, j) ==> b.iss_s(u, j) && #[trigger] b.cell_s(u, j) == a.cell_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| !a.iss_s(u, j) && #[trigger] b.cell_s(u, j) is Some
            ==> exists|k: int| 0 <= k < sv.len() && sv[k].ptype() == u && #[trigger] x.states@[k] == j
        &&& forall|u: TpPropertyType, j: ga::Index| a.iss_c(u, j) ==> b.iss_c(u, j) && #[trigger] b.cell_c(u, j) == a.cell_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| !a.iss_c(u, j) && #[trigger] b.cell_c(u, j) is Some
            ==> exists|k: int| 0 <= k < cv.len() && cv[k].ptype() == u && #[trigger] x.channels@[k] == j
        &&& b.contracts.iss() == a.contracts.iss()
        &&& b.contracts.m().dom() == a.contracts.m().dom()
        &&& forall|d: ga::Index| #[trigger] a.contracts.m().contains_key(d) ==> {
            &&& b.contracts.m()[d].id == a.contracts.m()[d].id
            &&& b.contracts.m()[d].objects.m() == (if d == c.inner { a.contracts.m()[d].objects.m().insert(o) } else { a.contracts.m()[d].objects.m() })
        }
    }
    pub proof fn lemma_created(a: Baseline, b1: Baseline, b2: Baseline, b: Baseline, o: ga::Index, c: ContractDataHandle, sv: Seq<DynTpProperty>, cv: Seq<DynChannel>)
        requires
            a.inv(), made_s(a, b1, sv, b.objects.m()[o].states@, sv.len() as int), made_c(b1, b2, cv, b.objects.m()[o].channels@, cv.len() as int),
            b.kind == b2.kind, b.states == b2.states, b.channels == b2.channels,
            !a.objects.iss().contains(o), b.objects.iss() == a.objects.iss().insert(o), b.objects.m() == a.objects.m().insert(o, b.objects.m()[o]),
            b.objects.m()[o].contract.inner == c.inner,
            b.contracts.iss() == a.contracts.iss(),
            b.contracts.m().dom() == a.contracts.m().dom(),
            forall|d: ga::Index| #[trigger] a.contracts.m().contains_key(d) ==> {
                &&& b.contracts.m()[d].id == a.contracts.m()[d].id
                &&& b.contracts.m()[d].objects.m() == (if d == c.inner { a.contracts.m()[d].objects.m().insert(o) } else { a.contracts.m()[d].objects.m() })
            },
            a.contracts.m().contains_key(c.inner),
            fits(sv, stypes(a.contracts.m()[c.inner].id)), fits(cv, ctypes(a.contracts.m()[c.inner].id)),
        ensures created(a, b, o, c, sv, cv), b.inv()
    {
        ga::ax_issued(a.objects.0);
        lemma_cells(a, b); lemma_cells(a, b1); lemma_cells(a, b2); lemma_cells(b1, b2); lemma_cells(b2, b); lemma_cells(b1, b);
        let x = b.objects.m()[o];
        assert(b.contracts.m().contains_key(c.inner));
        assert forall|k: int| 0 <= k < sv.len() implies !a.iss_s(sv[k].ptype(), #[trigger] x.states@[k])
            && b.cell_s(sv[k].ptype(), x.states@[k]) == Some(GVal::S(sv[k])) by {}
        assert(b.st(o) == stypes(a.contracts.m()[c.inner].id));
        assert(b.ct(o) == ctypes(a.contracts.m()[c.inner].id));
        assert forall|k: int| 0 <= k < sv.len() implies sv[k].ptype() == #[trigger] b.st(o)[k] by { assert(sv[k].pt() == b.st(o)[k]); }
        assert forall|k: int| 0 <= k < cv.len() implies cv[k].ptype() == #[trigger] b.ct(o)[k] by { assert(cv[k].pt() == b.ct(o)[k]); }
        // old objects keep their fields
        assert forall|p: ga::Index, k: int, t: TpPropertyType, i: ga::Index| p != o && #[trigger] b.s_at(p, k, t, i)
            implies a.s_at(p, k, t, i) && a.iss_s(t, i) by { assert(a.objects.m().contains_key(p)); assert(a.s_at(p, k, t, i)); assert(a.cell_s(t, i) is Some); }
        assert forall|p: ga::Index, k: int, t: TpPropertyType, i: ga::Index| p != o && #[trigger] b.c_at(p, k, t, i)
            implies a.c_at(p, k, t, i) && a.iss_c(t, i) by { assert(a.objects.m().contains_key(p)); assert(a.c_at(p, k, t, i)); assert(a.cell_c(t, i) is Some); }
        assert forall|p: ga::Index, k: int, t: TpPropertyType, i: ga::Index| p == o && #[trigger] b.s_at(p, k, t, i)
            implies !a.iss_s(t, i) && b.cell_s(t, i) is Some && sv[k].ptype() == t by { assert(x.states@[k] == i); }
        assert forall|p: ga::Index, k: int, t: TpPropertyType, i: ga::Index| p == o && #[trigger] b.c_at(p, k, t, i)
            implies !a.iss_c(t, i) && b.cell_c(t, i) is Some && cv[k].ptype() == t by { assert(x.channels@[k] == i); }
        assert(b.fields_apart());
        assert forall|p: ga::Index| #[trigger] b.objects.m().contains_key(p) implies {
                &&& b.contracts.m().contains_key(b.objects.m()[p].contract.inner)
                &&& b.objects.m()[p].states@.len() == b.st(p).len()
                &&& b.objects.m()[p].channels@.len() == b.ct(p).len()
        } by { if p != o { assert(a.objects.m().contains_key(p)); } }
        assert(b.fields_live());
        assert(b.issued());
        assert(b.unique_ids());
        assert(b.linked(None));
    }
    pub proof fn lemma_cells(a: Baseline, b: Baseline)
        ensures
            a.states == b.states ==> forall|t: TpPropertyType, i: ga::Index| #[trigger] b.cell_s(t, i) == a.cell_s(t, i) && b.iss_s(t, i) == a.iss_s(t, i),
            a.channels == b.channels ==> forall|t: TpPropertyType, i: ga::Index| #[trigger] b.cell_c(t, i) == a.cell_c(t, i) && b.iss_c(t, i) == a.iss_c(t, i),
    {}
    pub proof fn lemma_sub(a: Baseline, b: Baseline)
        requires a.fields_live(), a.fields_apart(), sub(a, b)
        ensures
            forall|o: ga::Index, k: int, t: TpPropertyType, i: ga::Index| #[trigger] b.s_at(o, k, t, i) ==> a.s_at(o, k, t, i),
            forall|o: ga::Index, k: int, t: TpPropertyType, i: ga::Index| #[trigger] b.c_at(o, k, t, i) ==> a.c_at(o, k, t, i),
            b.fields_apart(),
            forall|o: ga::Index| #[trigger] b.objects.m().contains_key(o) ==> {
                &&& b.contracts.m().contains_key(b.objects.m()[o].contract.inner)
                &&& b.objects.m()[o].states@.len() == b.st(o).len()
                &&& b.objects.m()[o].channels@.len() == b.ct(o).len()
            }
    {
        assert forall|o: ga::Index, k: int, t: TpPropertyType, i: ga::Index| #[trigger] b.s_at(o, k, t, i) implies a.s_at(o, k, t, i) by {}
        assert forall|o: ga::Index, k: int, t: TpPropertyType, i: ga::Index| #[trigger] b.c_at(o, k, t, i) implies a.c_at(o, k, t, i) by {}
        assert forall|o: ga::Index, k: int, p: ga::Index, l: int, t: TpPropertyType, i: ga::Index|
            #[trigger] b.s_at(o, k, t, i) && #[trigger] b.s_at(p, l, t, i) implies o == p && k == l by {
            assert(a.s_at(o, k, t, i) && a.s_at(p, l, t, i));
        }
        assert forall|o: ga::Index, k: int, p: ga::Index, l: int, t: TpPropertyType, i: ga::Index|
            #[trigger] b.c_at(o, k, t, i) && #[trigger] b.c_at(p, l, t, i) implies o == p && k == l by {
            assert(a.c_at(o, k, t, i) && a.c_at(p, l, t, i));
        }
        assert forall|o: ga::Index| #[trigger] b.objects.m().contains_key(o) implies {
                &&& b.contracts.m().contains_key(b.objects.m()[o].contract.inner)
                &&& b.objects.m()[o].states@.len() == b.st(o).len()
                &&& b.objects.m()[o].channels@.len() == b.ct(o).len()
            } by { assert(a.objects.m().contains_key(o)); }
    }
    #[verifier::opaque]
    pub open spec fn del_s(a: Baseline, b: Baseline, t: TpPropertyType, i: ga::Index) -> bool {
        &&& only_states_differ(a, b)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_s(u, j) == a.iss_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(u, j) == (if u == t && j == i { None } else { a.cell_s(u, j) })
    }
    /// the fields at the first `n` of the indices `h`, of types `ts`, are gone, and nothing else
    #[verifier::opaque]
    pub open spec fn cut_s(a: Baseline, b: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>, n: int) -> bool {
        &&& only_states_differ(a, b)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_s(u, j) == a.iss_s(u, j)
        &&& forall|k: int| 0 <= k < n ==> b.cell_s(ts[k], #[trigger] h[k]) is None
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(u, j) is Some ==> b.cell_s(u, j) == a.cell_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.cell_s(u, j) is Some && #[trigger] b.cell_s(u, j) is None
            ==> exists|k: int| 0 <= k < n && ts[k] == u && #[trigger] h[k] == j
    }
    pub proof fn lemma_cut_none_s(a: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>)
        ensures cut_s(a, a, ts, h, 0)
    { reveal(cut_s); }
    pub proof fn lemma_cut_frame_s(a: Baseline, b: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>, n: int)
        requires cut_s(a, b, ts, h, n)
        ensures only_states_differ(a, b)
    { reveal(cut_s); }
    pub proof fn lemma_cut_s(a: Baseline, b: Baseline, c: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>, n: int)
        requires cut_s(a, b, ts, h, n), 0 <= n < ts.len(), n < h.len(), del_s(b, c, ts[n], h[n])
        ensures cut_s(a, c, ts, h, n + 1)
    {
        reveal(cut_s); reveal(del_s);
        assert forall|u: TpPropertyType, j: ga::Index| a.cell_s(u, j) is Some && #[trigger] c.cell_s(u, j) is None
            implies exists|k: int| 0 <= k < n + 1 && ts[k] == u && #[trigger] h[k] == j by {
            if u == ts[n] && j == h[n] { } else { assert(b.cell_s(u, j) is None); }
        }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] c.cell_s(u, j) is Some implies c.cell_s(u, j) == a.cell_s(u, j) by {
            assert(b.cell_s(u, j) is Some);
        }
    }

    #[verifier::opaque]
    pub open spec fn del_c(a: Baseline, b: Baseline, t: TpPropertyType, i: ga::Index) -> bool {
        &&& only_channels_differ(a, b)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_c(u, j) == a.iss_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(u, j) == (if u == t && j == i { None } else { a.cell_c(u, j) })
    }
    /// the fields at the first `n` of the indices `h`, of types `ts`, are gone, and nothing else
    #[verifier::opaque]
    pub open spec fn cut_c(a: Baseline, b: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>, n: int) -> bool {
        &&& only_channels_differ(a, b)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_c(u, j) == a.iss_c(u, j)
        &&& forall|k: int| 0 <= k < n ==> b.cell_c(ts[k], #[trigger] h[k]) is None
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(u, j) is Some ==> b.cell_c(u, j) == a.cell_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.cell_c(u, j) is Some && #[trigger] b.cell_c(u, j) is None
            ==> exists|k: int| 0 <= k < n && ts[k] == u && #[trigger] h[k] == j
    }
    pub proof fn lemma_cut_none_c(a: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>)
        ensures cut_c(a, a, ts, h, 0)
    { reveal(cut_c); }
    pub proof fn lemma_cut_frame_c(a: Baseline, b: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>, n: int)
        requires cut_c(a, b, ts, h, n)
        ensures only_channels_differ(a, b)
    { reveal(cut_c); }
    pub proof fn lemma_cut_c(a: Baseline, b: Baseline, c: Baseline, ts: Seq<TpPropertyType>, h: Seq<ga::Index>, n: int)
        requires cut_c(a, b, ts, h, n), 0 <= n < ts.len(), n < h.len(), del_c(b, c, ts[n], h[n])
        ensures cut_c(a, c, ts, h, n + 1)
    {
        reveal(cut_c); reveal(del_c);
        assert forall|u: TpPropertyType, j: ga::Index| a.cell_c(u, j) is Some && #[trigger] c.cell_c(u, j) is None
            implies exists|k: int| 0 <= k < n + 1 && ts[k] == u && #[trigger] h[k] == j by {
            if u == ts[n] && j == h[n] { } else { assert(b.cell_c(u, j) is None); }
        }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] c.cell_c(u, j) is Some implies c.cell_c(u, j) == a.cell_c(u, j) by {
            assert(b.cell_c(u, j) is Some);
        }
    }

    /// object `o` and its fields are gone, and nothing else has changed
    pub open spec fn removed(a: Baseline, b: Baseline, o: ga::Index) -> bool {
        &&& a.kind == b.kind
        &&& b.objects.m() == a.objects.m().remove(o) && b.objects.iss() == a.objects.iss()
        &&& b.contracts.iss() == a.contracts.iss() && b.contracts.m().dom() == a.contracts.m().dom()
        &&& forall|d: ga::Index| #[trigger] a.contracts.m().contains_key(d) ==> {
            &&& b.contracts.m()[d].id == a.contracts.m()[d].id
            &&& b.contracts.m()[d].objects.m() == (if d == a.objects.m()[o].contract.inner { a.contracts.m()[d].objects.m().remove(o) } else { a.contracts.m()[d].objects.m() })
        }
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_s(u, j) == a.iss_s(u, j)
        &&& forall|k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.s_at(o, k, u, j) ==> b.cell_s(u, j) is None
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(u, j) is Some ==> b.cell_s(u, j) == a.cell_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.cell_s(u, j) is Some && #[trigger] b.cell_s(u, j) is None
            ==> exists|k: int| #[trigger] a.s_at(o, k, u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_c(u, j) == a.iss_c(u, j)
        &&& forall|k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.c_at(o, k, u, j) ==> b.cell_c(u, j) is None
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(u, j) is Some ==> b.cell_c(u, j) == a.cell_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.cell_c(u, j) is Some && #[trigger] b.cell_c(u, j) is None
            ==> exists|k: int| #[trigger] a.c_at(o, k, u, j)
    }
    pub proof fn lemma_removed(a: Baseline, b1: Baseline, b2: Baseline, b: Baseline, o: ga::Index)
        requires
            a.core(), a.objects.m().contains_key(o),
            b1.states == a.states, b1.channels == a.channels, b1.kind == a.kind, b2.states == b.states,
            cut_s(b1, b2, a.st(o), a.objects.m()[o].states@, a.st(o).len() as int),
            cut_c(b2, b, a.ct(o), a.objects.m()[o].channels@, a.ct(o).len() as int),
            b.objects.m() == a.objects.m().remove(o), b.objects.iss() == a.objects.iss(),
            b.contracts.iss() == a.contracts.iss(), b.contracts.m().dom() == a.contracts.m().dom(),
            forall|d: ga::Index| #[trigger] a.contracts.m().contains_key(d) ==> {
                &&& b.contracts.m()[d].id == a.contracts.m()[d].id
                &&& b.contracts.m()[d].objects.m() == (if d == a.objects.m()[o].contract.inner { a.contracts.m()[d].objects.m().remove(o) } else { a.contracts.m()[d].objects.m() })
            },
        ensures removed(a, b, o), b.core(), forall|but: Option<ga::Index>| a.linked(but) ==> #[trigger] b.linked(but)
    {
        reveal(cut_s); reveal(cut_c);
        lemma_cells(a, b1); lemma_cells(b1, b2); lemma_cells(b2, b);
        assert(sub(a, b));
        lemma_sub(a, b);
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_s(u, j) == a.iss_s(u, j) by {
            assert(b2.iss_s(u, j) == b1.iss_s(u, j));
            assert(b1.iss_s(u, j) == a.iss_s(u, j));
        }
        assert forall|k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.s_at(o, k, u, j) implies b.cell_s(u, j) is None by {
            assert(a.objects.m()[o].states@[k] == j);
            assert(a.st(o)[k] == u);
        }
        assert forall|u: TpPropertyType, j: ga::Index| a.cell_s(u, j) is Some && #[trigger] b.cell_s(u, j) is None
            implies exists|k: int| #[trigger] a.s_at(o, k, u, j) by {
            let k = choose|k: int| 0 <= k < a.st(o).len() && a.st(o)[k] == u && #[trigger] a.objects.m()[o].states@[k] == j;
            assert(a.s_at(o, k, u, j));
        }
        assert forall|p: ga::Index, k: int, u: TpPropertyType, j: ga::Index| #[trigger] b.s_at(p, k, u, j) implies b.cell_s(u, j) is Some by {
            assert(a.s_at(p, k, u, j));
            assert(a.cell_s(u, j) is Some);
            if b.cell_s(u, j) is None {
                let l = choose|l: int| #[trigger] a.s_at(o, l, u, j);
                assert(p == o);
            }
        }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(u, j) is Some implies b.iss_s(u, j) by { assert(a.cell_s(u, j) is Some); }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_c(u, j) == a.iss_c(u, j) by {
            assert(b2.iss_c(u, j) == b1.iss_c(u, j));
            assert(b1.iss_c(u, j) == a.iss_c(u, j));
        }
        assert forall|k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.c_at(o, k, u, j) implies b.cell_c(u, j) is None by {
            assert(a.objects.m()[o].channels@[k] == j);
            assert(a.ct(o)[k] == u);
        }
        assert forall|u: TpPropertyType, j: ga::Index| a.cell_c(u, j) is Some && #[trigger] b.cell_c(u, j) is None
            implies exists|k: int| #[trigger] a.c_at(o, k, u, j) by {
            let k = choose|k: int| 0 <= k < a.ct(o).len() && a.ct(o)[k] == u && #[trigger] a.objects.m()[o].channels@[k] == j;
            assert(a.c_at(o, k, u, j));
        }
        assert forall|p: ga::Index, k: int, u: TpPropertyType, j: ga::Index| #[trigger] b.c_at(p, k, u, j) implies b.cell_c(u, j) is Some by {
            assert(a.c_at(p, k, u, j));
            assert(a.cell_c(u, j) is Some);
            if b.cell_c(u, j) is None {
                let l = choose|l: int| #[trigger] a.c_at(o, l, u, j);
                assert(p == o);
            }
        }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(u, j) is Some implies b.iss_c(u, j) by { assert(a.cell_c(u, j) is Some); }
        assert(b.unique_ids());
        assert(b.fields_live());
        assert(b.issued());
        assert forall|but: Option<ga::Index>| a.linked(but) implies #[trigger] b.linked(but) by {}
    }
    /// some objects of contract `cd`, with their fields, are gone, and nothing else has changed
    /// except which objects `cd` lists
    pub open spec fn swept(a: Baseline, b: Baseline, cd: ga::Index) -> bool {
        &&& a.kind == b.kind
        &&& b.objects.iss() == a.objects.iss()
        &&& forall|o: ga::Index| #[trigger] b.objects.m().contains_key(o) ==> a.objects.m().contains_key(o) && b.objects.m()[o] == a.objects.m()[o]
        &&& forall|o: ga::Index| a.objects.m().contains_key(o) && !#[trigger] b.objects.m().contains_key(o) ==> a.objects.m()[o].contract.inner == cd
        &&& b.contracts.iss() == a.contracts.iss()
        &&& forall|d: ga::Index| d != cd ==> a.contracts.m().contains_key(d) == #[trigger] b.contracts.m().contains_key(d)
        &&& forall|d: ga::Index| d != cd && #[trigger] b.contracts.m().contains_key(d) ==>
            b.contracts.m()[d].id == a.contracts.m()[d].id && b.contracts.m()[d].objects.m() == a.contracts.m()[d].objects.m()
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_s(u, j) == a.iss_s(u, j)
        &&& forall|o: ga::Index, k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.s_at(o, k, u, j) && !b.objects.m().contains_key(o) ==> b.cell_s(u, j) is None
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(u, j) is Some ==> b.cell_s(u, j) == a.cell_s(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.cell_s(u, j) is Some && #[trigger] b.cell_s(u, j) is None
            ==> exists|o: ga::Index, k: int| #[trigger] a.s_at(o, k, u, j) && !b.objects.m().contains_key(o)
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.iss_c(u, j) == a.iss_c(u, j)
        &&& forall|o: ga::Index, k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.c_at(o, k, u, j) && !b.objects.m().contains_key(o) ==> b.cell_c(u, j) is None
        &&& forall|u: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(u, j) is Some ==> b.cell_c(u, j) == a.cell_c(u, j)
        &&& forall|u: TpPropertyType, j: ga::Index| a.cell_c(u, j) is Some && #[trigger] b.cell_c(u, j) is None
            ==> exists|o: ga::Index, k: int| #[trigger] a.c_at(o, k, u, j) && !b.objects.m().contains_key(o)
    }
    pub proof fn lemma_swept(a: Baseline, b: Baseline, c: Baseline, cd: ga::Index, o: ga::Index)
        requires swept(a, b, cd), removed(b, c, o), b.objects.m().contains_key(o), b.objects.m()[o].contract.inner == cd,
            a.contracts.m().contains_key(cd), b.contracts.m().contains_key(cd), b.contracts.m()[cd].id == a.contracts.m()[cd].id, a.core()
        ensures swept(a, c, cd)
    {
        assert(a.st(o) == b.st(o) && a.ct(o) == b.ct(o));
        assert forall|p: ga::Index, k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.s_at(p, k, u, j) && !c.objects.m().contains_key(p) implies c.cell_s(u, j) is None by {
            if b.objects.m().contains_key(p) { assert(p == o); assert(b.s_at(p, k, u, j)); } else { assert(b.cell_s(u, j) is None); }
        }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] c.cell_s(u, j) is Some implies c.cell_s(u, j) == a.cell_s(u, j) by {
            assert(b.cell_s(u, j) is Some);
        }
        assert forall|u: TpPropertyType, j: ga::Index| a.cell_s(u, j) is Some && #[trigger] c.cell_s(u, j) is None
            implies exists|p: ga::Index, k: int| #[trigger] a.s_at(p, k, u, j) && !c.objects.m().contains_key(p) by {
            if b.cell_s(u, j) is Some {
                let k = choose|k: int| #[trigger] b.s_at(o, k, u, j);
                assert(a.s_at(o, k, u, j) && !c.objects.m().contains_key(o));
            } else {
                let (p, k) = choose|p: ga::Index, k: int| #[trigger] a.s_at(p, k, u, j) && !b.objects.m().contains_key(p);
                assert(a.s_at(p, k, u, j) && !c.objects.m().contains_key(p));
            }
        }
        assert forall|p: ga::Index, k: int, u: TpPropertyType, j: ga::Index| #[trigger] a.c_at(p, k, u, j) && !c.objects.m().contains_key(p) implies c.cell_c(u, j) is None by {
            if b.objects.m().contains_key(p) { assert(p == o); assert(b.c_at(p, k, u, j)); } else { assert(b.cell_c(u, j) is None); }
        }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] c.cell_c(u, j) is Some implies c.cell_c(u, j) == a.cell_c(u, j) by {
            assert(b.cell_c(u, j) is Some);
        }
        assert forall|u: TpPropertyType, j: ga::Index| a.cell_c(u, j) is Some && #[trigger] c.cell_c(u, j) is None
            implies exists|p: ga::Index, k: int| #[trigger] a.c_at(p, k, u, j) && !c.objects.m().contains_key(p) by {
            if b.cell_c(u, j) is Some {
                let k = choose|k: int| #[trigger] b.c_at(o, k, u, j);
                assert(a.c_at(o, k, u, j) && !c.objects.m().contains_key(o));
            } else {
                let (p, k) = choose|p: ga::Index, k: int| #[trigger] a.c_at(p, k, u, j) && !b.objects.m().contains_key(p);
                assert(a.c_at(p, k, u, j) && !c.objects.m().contains_key(p));
            }
        }
        assert forall|d: ga::Index| d != cd && #[trigger] c.contracts.m().contains_key(d) implies
            c.contracts.m()[d].id == a.contracts.m()[d].id && c.contracts.m()[d].objects.m() == a.contracts.m()[d].objects.m() by {
            assert(b.contracts.m().contains_key(d));
        }
        assert forall|d: ga::Index| d != cd implies a.contracts.m().contains_key(d) == #[trigger] c.contracts.m().contains_key(d) by {
            assert(a.contracts.m().contains_key(d) == b.contracts.m().contains_key(d));
        }
    }
    /// same contents
    pub open spec fn same(a: Baseline, b: Baseline) -> bool {
        &&& a.kind == b.kind && a.states == b.states && a.channels == b.channels
        &&& a.objects.m() =~= b.objects.m() && a.objects.iss() == b.objects.iss()
        &&& a.contracts.m() =~= b.contracts.m() && a.contracts.iss() == b.contracts.iss()
    }
    pub broadcast proof fn lemma_same(a: Baseline, b: Baseline)
        requires same(a, b), #[trigger] a.core()
        ensures #[trigger] b.core()
    {
        lemma_cells(a, b);
        assert(sub(a, b));
        lemma_sub(a, b);
        assert(b.fields_live());
        assert(b.issued());
        assert(b.unique_ids());
    }
    pub broadcast proof fn lemma_same_link(a: Baseline, b: Baseline, but: Option<ga::Index>)
        requires same(a, b), #[trigger] a.linked(but), a.core()
        ensures #[trigger] b.linked(but)
    {}
    pub proof fn lemma_swept_drop(a: Baseline, b: Baseline, c: Baseline, cd: ga::Index)
        requires
            swept(a, b, cd), c.kind == b.kind, c.objects == b.objects, c.states == b.states, c.channels == b.channels,
            c.contracts.iss() == b.contracts.iss(), c.contracts.m() == b.contracts.m().remove(cd),
        ensures swept(a, c, cd)
    {
        lemma_cells(b, c);
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] c.iss_s(u, j) == a.iss_s(u, j) by { assert(b.iss_s(u, j) == a.iss_s(u, j)); }
        assert forall|u: TpPropertyType, j: ga::Index| #[trigger] c.iss_c(u, j) == a.iss_c(u, j) by { assert(b.iss_c(u, j) == a.iss_c(u, j)); }
    }
    pub proof fn lemma_types()
        ensures
            //@foreach
            <$T as ITpPropertyStatic>::PROPERTY_TYPE == TpPropertyType::Primitive(TpPrimitiveType::$V),
            <Vec<$T> as ITpPropertyStatic>::PROPERTY_TYPE == TpPropertyType::Vec(TpPrimitiveType::$V),
            //@endfor
    {
        //@foreach
        <$T as ITpPropertyStatic>::lemma_inj_type(arbitrary());
        <Vec<$T> as ITpPropertyStatic>::lemma_inj_type(arbitrary());
        //@endfor
    }
    pub open spec fn only_channels_differ(a: Baseline, b: Baseline) -> bool {
        a.kind == b.kind && a.objects == b.objects && a.contracts == b.contracts && a.states == b.states
    }
    impl Baseline {
        /// the value of the state field stored at index `i` among those of type `t`
        pub open spec fn cell_s(&self, t: TpPropertyType, i: ga::Index) -> Option<GVal> {
            if self.states.0.m().contains_key((false, t)) && self.states.0.m()[(false, t)].m.contains_key(i) {
                Some(self.states.0.m()[(false, t)].m[i])
            } else { None }
        }
        pub open spec fn iss_s(&self, t: TpPropertyType, i: ga::Index) -> bool {
            self.states.0.m().contains_key((false, t)) && self.states.0.m()[(false, t)].iss.contains(i)
        }
        pub open spec fn cell_c(&self, t: TpPropertyType, i: ga::Index) -> Option<GVal> {
            if self.channels.0.m().contains_key((true, t)) && self.channels.0.m()[(true, t)].m.contains_key(i) {
                Some(self.channels.0.m()[(true, t)].m[i])
            } else { None }
        }
        pub open spec fn iss_c(&self, t: TpPropertyType, i: ga::Index) -> bool {
            self.channels.0.m().contains_key((true, t)) && self.channels.0.m()[(true, t)].iss.contains(i)
        }

        pub open spec fn is_empty(&self) -> bool {
            &&& self.objects.m() == Map::<ga::Index, Object>::empty()
            &&& self.contracts.m() == Map::<ga::Index, ContractData>::empty()
            &&& forall|t: TpPropertyType, i: ga::Index| #[trigger] self.cell_s(t, i) is None
            &&& forall|t: TpPropertyType, i: ga::Index| #[trigger] self.cell_c(t, i) is None
        }
        pub open spec fn has_id(&self, id: ContractId) -> bool {
            exists|c: ga::Index| #[trigger] self.contracts.m().contains_key(c) && self.contracts.m()[c].id == id
        }
        /// the types of an object's fields
        pub open spec fn st(&self, o: ga::Index) -> Seq<TpPropertyType> {
            stypes(self.contracts.m()[self.objects.m()[o].contract.inner].id)
        }
        pub open spec fn ct(&self, o: ga::Index) -> Seq<TpPropertyType> {
            ctypes(self.contracts.m()[self.objects.m()[o].contract.inner].id)
        }
        /// state field `k` of object `o` is at index `i` among those of type `t`
        pub open spec fn s_at(&self, o: ga::Index, k: int, t: TpPropertyType, i: ga::Index) -> bool {
            self.objects.m().contains_key(o) && 0 <= k < self.st(o).len() && self.st(o)[k] == t && self.objects.m()[o].states@[k] == i
        }
        pub open spec fn c_at(&self, o: ga::Index, k: int, t: TpPropertyType, i: ga::Index) -> bool {
            self.objects.m().contains_key(o) && 0 <= k < self.ct(o).len() && self.ct(o)[k] == t && self.objects.m()[o].channels@[k] == i
        }
        /// no two contracts have the same id
        pub open spec fn unique_ids(&self) -> bool {
            forall|c: ga::Index, d: ga::Index| #[trigger] self.contracts.m().contains_key(c) && #[trigger] self.contracts.m().contains_key(d)
                && self.contracts.m()[c].id == self.contracts.m()[d].id ==> c == d
        }
        /// every object's contract is registered, and the object has the fields it declares, each live
        pub open spec fn fields_live(&self) -> bool {
            &&& forall|o: ga::Index| #[trigger] self.objects.m().contains_key(o) ==> {
                &&& self.contracts.m().contains_key(self.objects.m()[o].contract.inner)
                &&& self.objects.m()[o].states@.len() == self.st(o).len()
                &&& self.objects.m()[o].channels@.len() == self.ct(o).len()
            }
            &&& forall|o: ga::Index, k: int, t: TpPropertyType, i: ga::Index| #[trigger] self.s_at(o, k, t, i) ==> self.cell_s(t, i) is Some
            &&& forall|o: ga::Index, k: int, t: TpPropertyType, i: ga::Index| #[trigger] self.c_at(o, k, t, i) ==> self.cell_c(t, i) is Some
        }
        /// no two fields share their storage
        pub open spec fn fields_apart(&self) -> bool {
            &&& forall|o: ga::Index, k: int, p: ga::Index, l: int, t: TpPropertyType, i: ga::Index|
                #[trigger] self.s_at(o, k, t, i) && #[trigger] self.s_at(p, l, t, i) ==> o == p && k == l
            &&& forall|o: ga::Index, k: int, p: ga::Index, l: int, t: TpPropertyType, i: ga::Index|
                #[trigger] self.c_at(o, k, t, i) && #[trigger] self.c_at(p, l, t, i) ==> o == p && k == l
        }
        /// what is stored was issued
        pub open spec fn issued(&self) -> bool {
            &&& forall|t: TpPropertyType, i: ga::Index| #[trigger] self.cell_s(t, i) is Some ==> self.iss_s(t, i)
            &&& forall|t: TpPropertyType, i: ga::Index| #[trigger] self.cell_c(t, i) is Some ==> self.iss_c(t, i)
        }
        pub open spec fn core(&self) -> bool {
            self.unique_ids() && self.fields_live() && self.fields_apart() && self.issued()
        }
        /// a contract's set of objects is the objects that name it as their contract
        /// (`but`: except that contract `but`'s set may lack some)
        pub open spec fn linked(&self, but: Option<ga::Index>) -> bool {
            &&& forall|o: ga::Index| #[trigger] self.objects.m().contains_key(o) && Some(self.objects.m()[o].contract.inner) != but
                ==> self.contracts.m()[self.objects.m()[o].contract.inner].objects.m().contains(o)
            &&& forall|c: ga::Index, o: ga::Index| self.contracts.m().contains_key(c) && #[trigger] self.contracts.m()[c].objects.m().contains(o)
                ==> self.objects.m().contains_key(o) && self.objects.m()[o].contract.inner == c
        }
        pub open spec fn inv(&self) -> bool { self.core() && self.linked(None) }

        //@fn tp_client::baseline::Baseline::new
        //@spec
            ensures ret.kind == $A0, ret.is_empty(), ret.inv()
        //@end
        //@fn tp_client::baseline::Baseline::kind
        //@spec
            ensures ret == self.kind
        //@end
        //@fn tp_client::baseline::Baseline::register_contract
        //@spec
            requires old(self).inv()
            ensures
                final(self).inv(),
                final(self).kind == old(self).kind, final(self).objects == old(self).objects,
                final(self).states == old(self).states, final(self).channels == old(self).channels,
                ret is Ok == !old(self).has_id(C::ID),
                ret is Err ==> final(self).contracts.m() == old(self).contracts.m(),
                ret matches Ok(c) ==> {
                    &&& !old(self).contracts.iss().contains(c.h().inner)
                    &&& final(self).contracts.m() == old(self).contracts.m().insert(c.h().inner, final(self).contracts.m()[c.h().inner])
                    &&& final(self).contracts.m()[c.h().inner].id == C::ID
                    &&& final(self).contracts.m()[c.h().inner].objects.m() == Set::<ga::Index>::empty()
                }
        //@ready 0
            let ghost all = __it0.rem();
        //@loop 0
            invariant
                *self == *old(self), __it0.wf(),
                suffix(__it0.rem(), all), crate::arena::listing(all, self.contracts.m()),
                forall|i: int| 0 <= i < all.len() - __it0.rem().len() ==> (#[trigger] all[i]).1.id != C::ID,
            decreases __it0.rem().len()
        //@after 0
            proof {
                assert forall|c: ga::Index| #[trigger] self.contracts.m().contains_key(c) implies self.contracts.m()[c].id != C::ID by {
                    let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0.inner == c;
                    assert(all[i].1.id != C::ID);
                }
            }
        //@tail
            proof {
                ga::ax_issued(old(self).contracts.0);
                lemma_sub(*old(self), *self);
                lemma_cells(*old(self), *self);
            }
        //@end
        //@fn tp_client::baseline::Baseline::object_create
        //@spec
            requires old(self).inv(), $A1.wf(), $A2.wf()
            ensures
                final(self).inv(),
                ret is Ok == (old(self).contracts.m().contains_key($A0.h().inner) && old(self).contracts.m()[$A0.h().inner].id == C::ID
                    && fits($A1.rem(), C::States::types()) && fits($A2.rem(), C::Channels::types())),
                ret is Err ==> *final(self) == *old(self),
                ret matches Ok(o) ==> created(*old(self), *final(self), o.inner, $A0.h(), $A1.rem(), $A2.rem())
        //@bind $S Vec<DynTpProperty>=
        //@bind $C Vec<DynChannel>=
        //@bind $H#0 =Vec::new()
        //@bind $G#1 =Vec::new()
        //@bind $O self.objects.insert(
        //@hoist 1 __check_s
        //@hoist 2 __check_c
        //@closure 1
            |__c0: Vec<DynTpProperty>, __c1: (usize, EitherOrBoth<DynTpProperty, &'static TpPropertyType>)| -> (r: Result<Vec<DynTpProperty>>)
                ensures checks(__c0, __c1, r)
        //@closure 2
            |__c0: Vec<DynChannel>, __c1: (usize, EitherOrBoth<DynChannel, &'static TpPropertyType>)| -> (r: Result<Vec<DynChannel>>)
                ensures checks(__c0, __c1, r)
        //@lift push_state ; <T: ITpPropertyStatic>(&mut self, $H: &mut Vec<ga::Index>, $P: T) ; &mut $H
            ensures
                final($H)@.len() == old($H)@.len() + 1, final($H)@ == old($H)@.push(final($H)@.last()),
                new_s(*old(self), *final(self), $P.inj().ptype(), $P.inj(), final($H)@.last())
        //@liftentry
            proof { T::lemma_inj_type($P); }
        //@lift push_channel ; <T: ITpPropertyStatic>(&mut self, $G: &mut Vec<ga::Index>, $P: Channel<T>) ; &mut $G
            ensures
                final($G)@.len() == old($G)@.len() + 1, final($G)@ == old($G)@.push(final($G)@.last()),
                new_c(*old(self), *final(self), T::cinj($P).ptype(), T::cinj($P), final($G)@.last())
        //@liftentry
            proof { T::lemma_cinj_type($P); }
        //@entry
            let ghost (sv, cv) = ($A1.rem(), $A2.rem());
        //@before 0
            proof {
                let ts = C::States::types();
                let accs = choose|accs: Seq<Vec<DynTpProperty>>| #![trigger accs.len()] accs.len() > 0 && accs[0]@ == Seq::<DynTpProperty>::empty()
                    && crate::itertools::steps(__check_s, zipped(sv, ts.map_values(|t: TpPropertyType| &t)), accs)
                    && accs.len() == zipped(sv, ts.map_values(|t: TpPropertyType| &t)).len() + 1 && $S == accs.last();
                lemma_checked(__check_s, sv, ts, accs);
                lemma_taken(sv);
                let us = C::Channels::types();
                let bccs = choose|accs: Seq<Vec<DynChannel>>| #![trigger accs.len()] accs.len() > 0 && accs[0]@ == Seq::<DynChannel>::empty()
                    && crate::itertools::steps(__check_c, zipped(cv, us.map_values(|t: TpPropertyType| &t)), accs)
                    && accs.len() == zipped(cv, us.map_values(|t: TpPropertyType| &t)).len() + 1 && $C == accs.last();
                lemma_checked(__check_c, cv, us, bccs);
                lemma_taken(cv);
                assert($S@ == sv && $C@ == cv);
                assert(fits(sv, ts) && fits(cv, us));
            }
        //@ready 0
            let ghost b0 = *self;
        //@loop 0
            invariant
                __it0.wf(), suffix(__it0.rem(), sv), made_s(b0, *self, sv, $H@, sv.len() - __it0.rem().len()),
            decreases __it0.rem().len()
        //@top 0
            let ghost b = *self; let ghost h = $H@; let ghost n = sv.len() - __it0.rem().len();
        //@item 0
            assert(__item == sv[n]);
        //@bottom 0
            proof {
                assert(new_s(b, *self, sv[n].ptype(), sv[n], $H@.last()));
                lemma_made_s(b0, b, *self, sv, h, n, $H@.last());
            }
        //@ready 1
            let ghost b1 = *self;
            proof { lemma_cells(b0, b1); }
        //@loop 1
            invariant
                __it1.wf(), suffix(__it1.rem(), cv), made_c(b1, *self, cv, $G@, cv.len() - __it1.rem().len()),
            decreases __it1.rem().len()
        //@top 1
            let ghost b = *self; let ghost h = $G@; let ghost n = cv.len() - __it1.rem().len();
        //@item 1
            assert(__item == cv[n]);
        //@bottom 1
            proof {
                assert(new_c(b, *self, cv[n].ptype(), cv[n], $G@.last()));
                lemma_made_c(b1, b, *self, cv, h, n, $G@.last());
            }
        //@after 1
            let ghost b2 = *self;
        //@tail
            proof {
                ax_contract_types::<C>();
                ga::ax_issued(b0.objects.0);
                assert(self.contracts.m().dom() =~= b0.contracts.m().dom());
                lemma_created(b0, b1, b2, *self, $O.inner, $A0.h(), sv, cv);
            }
        //@end
        //@fn tp_client::baseline::Baseline::object_remove
        //@spec
            requires old(self).core()
            ensures
                ret is Err ==> same(*old(self), *final(self)),
                final(self).core(),
                forall|but: Option<ga::Index>| old(self).linked(but) ==> #[trigger] final(self).linked(but),
                ret is Ok == (old(self).objects.m().contains_key($A0.inner)
                    && old(self).contracts.m()[old(self).objects.m()[$A0.inner].contract.inner].id == C::ID),
                ret is Ok ==> removed(*old(self), *final(self), $A0.inner)
        //@bind $O self.objects.remove(
        //@lift remove_state ; <T: ITpPropertyStatic>(&mut self, $O: &Object, $P: StateId<T>) -> (ret: Result<()>) ; &$O
            requires $P.contract.inner == $O.contract.inner, $P.idx < $O.states@.len()
            ensures ret is Ok, del_s(*old(self), *final(self), T::PROPERTY_TYPE, $O.states@[$P.idx as int])
        //@liftentry
            proof { reveal(del_s); }
        //@lift remove_channel ; <T: ITpPropertyStatic>(&mut self, $O: &Object, $P: ChannelId<T>) -> (ret: Result<()>) ; &$O
            requires $P.contract.inner == $O.contract.inner, $P.idx < $O.channels@.len()
            ensures ret is Ok, del_c(*old(self), *final(self), T::PROPERTY_TYPE, $O.channels@[$P.idx as int])
        //@liftentry
            proof { reveal(del_c); }
        //@entry
            broadcast use {lemma_same, lemma_same_link};
        //@before 0
            let ghost a = *old(self);
            proof {
                ax_contract_types::<C>(); lemma_types();
                assert(a.objects.m().contains_key($A0.inner));
                assert(C::States::types() == a.st($A0.inner));
                assert(C::Channels::types() == a.ct($A0.inner));
                assert($O.states.len() == a.st($A0.inner).len());
                assert($O.channels.len() == a.ct($A0.inner).len());
            }
        //@ready 0
            let ghost b1 = *self; let ghost all0 = __it0.rem();
            proof { lemma_cut_none_s(b1, a.st($A0.inner), $O.states@); }
        //@loop 0
            invariant
                __it0.wf(), suffix(__it0.rem(), all0),
                cut_s(b1, *self, a.st($A0.inner), $O.states@, all0.len() - __it0.rem().len()),
            decreases __it0.rem().len()
        //@top 0
            let ghost b = *self; let ghost n = all0.len() - __it0.rem().len();
        //@item 0
            assert(__item == crate::contract::properties::states::id::sid($O.contract, n as usize, a.st($A0.inner)[n]));
        //@bottom 0
            proof { lemma_cut_s(b1, b, *self, a.st($A0.inner), $O.states@, n); }
        //@ready 1
            let ghost b2 = *self; let ghost all1 = __it1.rem();
            proof { lemma_cut_none_c(b2, a.ct($A0.inner), $O.channels@); lemma_cut_frame_s(b1, b2, a.st($A0.inner), $O.states@, all0.len() as int); }
        //@loop 1
            invariant
                __it1.wf(), suffix(__it1.rem(), all1),
                cut_c(b2, *self, a.ct($A0.inner), $O.channels@, all1.len() - __it1.rem().len()),
            decreases __it1.rem().len()
        //@top 1
            let ghost b = *self; let ghost n = all1.len() - __it1.rem().len();
        //@item 1
            assert(__item == crate::contract::properties::channels::cid($O.contract, n as usize, a.ct($A0.inner)[n]));
        //@bottom 1
            proof { lemma_cut_c(b2, b, *self, a.ct($A0.inner), $O.channels@, n); }
        //@tail
            proof {
                lemma_cut_frame_c(b2, *self, a.ct($A0.inner), $O.channels@, all1.len() as int);
                assert(self.contracts.m().dom() =~= a.contracts.m().dom());
                lemma_removed(a, b1, b2, *self, $A0.inner);
            }
        //@end
        //@fn tp_client::baseline::Baseline::unregister_contract
        //@spec
            requires old(self).inv()
            ensures
                ret is Err ==> same(*old(self), *final(self)),
                final(self).core(), final(self).linked(None),
                ret is Ok == (old(self).contracts.m().contains_key($A0.inner) && old(self).contracts.m()[$A0.inner].id == C::ID),
                ret is Ok ==> {
                    &&& swept(*old(self), *final(self), $A0.inner)
                    &&& !final(self).contracts.m().contains_key($A0.inner)
                    &&& forall|o: ga::Index| #[trigger] final(self).objects.m().contains_key(o) ==> final(self).objects.m()[o].contract.inner != $A0.inner
                }
        //@entry
            broadcast use {lemma_same, lemma_same_link};
        //@ready 0
            let ghost a = *old(self); let ghost all = __it0.rem(); let ghost cd = $A0.inner;
            proof {
                lemma_cells(a, *self);
                assert(sub(a, *self));
                lemma_sub(a, *self);
                assert(self.fields_live());
                assert(self.issued());
                assert(self.unique_ids());
                assert(self.linked(Some(cd)));
                assert(swept(a, *self, cd));
            }
        //@loop 0
            invariant
                __it0.wf(), suffix(__it0.rem(), all), crate::stub::enumerates(all, a.contracts.m()[cd].objects.m()),
                self.core(), self.linked(Some(cd)), swept(a, *self, cd),
                self.contracts.m().contains_key(cd), self.contracts.m()[cd].id == a.contracts.m()[cd].id,
                forall|k: int| 0 <= k < all.len() - __it0.rem().len() ==> !self.objects.m().contains_key(#[trigger] all[k].inner),
                forall|k: int| all.len() - __it0.rem().len() <= k < all.len() ==> self.objects.m().contains_key(#[trigger] all[k].inner),
            decreases __it0.rem().len()
        //@top 0
            let ghost b = *self; let ghost n = all.len() - __it0.rem().len();
        //@item 0
            assert(__item == all[n]);
            assert(a.contracts.m()[cd].objects.m().contains(all[n].hk()));
        //@bottom 0
            proof { lemma_swept(a, b, *self, cd, all[n].inner); }
        //@after 0
            let ghost b = *self;
        //@tail
            proof {
                assert forall|o: ga::Index| #[trigger] self.objects.m().contains_key(o) implies self.objects.m()[o].contract.inner != cd by {
                    if self.objects.m()[o].contract.inner == cd {
                        assert(a.objects.m().contains_key(o));
                        assert(a.contracts.m()[cd].objects.m().contains(o));
                        let k = choose|k: int| 0 <= k < all.len() && (#[trigger] all[k]).hk() == o;
                        assert(!b.objects.m().contains_key(all[k].inner));
                    }
                }
                lemma_swept_drop(a, b, *self, cd);
                lemma_cells(b, *self);
                assert(sub(b, *self));
                lemma_sub(b, *self);
                assert(self.fields_live());
                assert(self.unique_ids());
                assert(self.issued());
                assert(self.linked(None));
            }
        //@end
        //@fn tp_client::baseline::Baseline::contract_data
        //@spec
            ensures
                ret is Ok == self.contracts.m().contains_key($A0.inner),
                ret matches Ok(c) ==> *c == self.contracts.m()[$A0.inner]
        //@end
        //@fn tp_client::baseline::Baseline::iter_objects
        //@spec
            ensures ret.wf(), arena::listing(ret.rem(), self.objects.m())
        //@end
        //@fn tp_client::baseline::Baseline::object
        //@spec
            ensures
                ret is Ok == self.objects.m().contains_key($A0.inner),
                ret matches Ok(o) ==> *o == self.objects.m()[$A0.inner]
        //@end
        //@fn tp_client::baseline::Baseline::object_mut
        //@spec
            ensures
                final(self).kind == old(self).kind, final(self).contracts == old(self).contracts,
                final(self).states == old(self).states, final(self).channels == old(self).channels,
                match ret {
                    Ok(o) => old(self).objects.m().contains_key($A0.inner) && *o == old(self).objects.m()[$A0.inner]
                        && final(self).objects.m() == old(self).objects.m().insert($A0.inner, *final(o)),
                    Err(_) => !old(self).objects.m().contains_key($A0.inner) && final(self).objects.m() == old(self).objects.m(),
                }
        //@end
        //@fn tp_client::baseline::Baseline::state
        //@spec
            ensures $A0.got(self, ret)
        //@end
        //@fn tp_client::baseline::Baseline::state_mut
        //@spec
            ensures $A0.got_mut(*old(self), *final(self), ret)
        //@end
        //@fn tp_client::baseline::Baseline::channel
        //@spec
            ensures match ret {
                Ok(s) => self.cell_c(T::PROPERTY_TYPE, $A0.inner) == Some(GVal::C(T::cinj(*s))),
                Err(_) => self.cell_c(T::PROPERTY_TYPE, $A0.inner) is None,
            }
        //@end
        //@fn tp_client::baseline::Baseline::channel_mut
        //@spec
            ensures
                only_channels_differ(*old(self), *final(self)),
                forall|t: TpPropertyType, i: ga::Index| final(self).iss_c(t, i) == old(self).iss_c(t, i),
                match ret {
                    Ok(s) => old(self).cell_c(T::PROPERTY_TYPE, $A0.inner) == Some(GVal::C(T::cinj(*s)))
                        && (forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).cell_c(t, i) ==
                            (if t == T::PROPERTY_TYPE && i == $A0.inner { Some(GVal::C(T::cinj(*final(s)))) } else { old(self).cell_c(t, i) })),
                    Err(_) => old(self).cell_c(T::PROPERTY_TYPE, $A0.inner) is None
                        && (forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).cell_c(t, i) == old(self).cell_c(t, i)),
                }
        //@end
        //@fn tp_client::baseline::Baseline::state_remove
        //@spec
            ensures
                only_states_differ(*old(self), *final(self)),
                forall|t: TpPropertyType, i: ga::Index| final(self).iss_s(t, i) == old(self).iss_s(t, i),
                forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).cell_s(t, i) ==
                    (if t == T::PROPERTY_TYPE && i == $A0.inner { None } else { old(self).cell_s(t, i) }),
                match ret {
                    Ok(s) => old(self).cell_s(T::PROPERTY_TYPE, $A0.inner) == Some(GVal::S(s.value.inj())),
                    Err(_) => old(self).cell_s(T::PROPERTY_TYPE, $A0.inner) is None,
                }
        //@end
        //@fn tp_client::baseline::Baseline::channel_remove
        //@spec
            ensures
                only_channels_differ(*old(self), *final(self)),
                forall|t: TpPropertyType, i: ga::Index| final(self).iss_c(t, i) == old(self).iss_c(t, i),
                forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).cell_c(t, i) ==
                    (if t == T::PROPERTY_TYPE && i == $A0.inner { None } else { old(self).cell_c(t, i) }),
                match ret {
                    Ok(s) => old(self).cell_c(T::PROPERTY_TYPE, $A0.inner) == Some(GVal::C(T::cinj(s))),
                    Err(_) => old(self).cell_c(T::PROPERTY_TYPE, $A0.inner) is None,
                }
        //@end
        //@fn tp_client::baseline::Baseline::state_create
        //@spec
            ensures
                only_states_differ(*old(self), *final(self)),
                !old(self).iss_s(T::PROPERTY_TYPE, ret.inner),
                forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).iss_s(t, i) ==
                    ((t == T::PROPERTY_TYPE && i == ret.inner) || old(self).iss_s(t, i)),
                forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).cell_s(t, i) ==
                    (if t == T::PROPERTY_TYPE && i == ret.inner { Some(GVal::S($A0.inj())) } else { old(self).cell_s(t, i) }),
        //@closure 0
            || -> (r: Arena<State<T>>) ensures r.m() == Map::<ga::Index, State<T>>::empty(), r.iss() == Set::<ga::Index>::empty()
        //@end
        //@fn tp_client::baseline::Baseline::channel_create
        //@spec
            ensures
                only_channels_differ(*old(self), *final(self)),
                !old(self).iss_c(T::PROPERTY_TYPE, ret.inner),
                forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).iss_c(t, i) ==
                    ((t == T::PROPERTY_TYPE && i == ret.inner) || old(self).iss_c(t, i)),
                forall|t: TpPropertyType, i: ga::Index| #[trigger] final(self).cell_c(t, i) ==
                    (if t == T::PROPERTY_TYPE && i == ret.inner { Some(GVal::C(T::cinj($A0))) } else { old(self).cell_c(t, i) }),
        //@closure 0
            || -> (r: Arena<Channel<T>>) ensures r.m() == Map::<ga::Index, Channel<T>>::empty(), r.iss() == Set::<ga::Index>::empty()
        //@end
        //@fn tp_client::baseline::Baseline::bind_state
        //@spec
            ensures
                ret is Ok == (self.objects.m().contains_key($A1.inner)
                    && $A0.contract.inner == self.objects.m()[$A1.inner].contract.inner
                    && $A0.idx < self.objects.m()[$A1.inner].states@.len()),
                ret matches Ok(h) ==> h.inner == self.objects.m()[$A1.inner].states@[$A0.idx as int]
        //@end
        //@fn tp_client::baseline::Baseline::bind_channel
        //@spec
            ensures
                ret is Ok == (self.objects.m().contains_key($A1.inner)
                    && $A0.contract.inner == self.objects.m()[$A1.inner].contract.inner
                    && $A0.idx < self.objects.m()[$A1.inner].channels@.len()),
                ret matches Ok(h) ==> h.inner == self.objects.m()[$A1.inner].channels@[$A0.idx as int]
        //@end
    }
    // what is not there panics
    impl crate::stub::Index<ObjectHandle> for Baseline {
        type Output = Object;
        open spec fn has(&self, i: ObjectHandle) -> bool { self.objects.m().contains_key(i.inner) }
        open spec fn at(&self, i: ObjectHandle, r: &Object) -> bool { *r == self.objects.m()[i.inner] }
        //@traitfn tp_client::baseline::Index<ObjectHandle>@Baseline::index
        //@ops
        //@end
    }
    impl crate::stub::IndexMut<ObjectHandle> for Baseline {
        #[verifier::prophetic]
        open spec fn upd(a: Self, b: Self, i: ObjectHandle, r: &mut Object) -> bool {
            b.kind == a.kind && b.contracts == a.contracts && b.states == a.states && b.channels == a.channels
                && *r == a.objects.m()[i.inner] && b.objects.iss() == a.objects.iss() && b.objects.m() == a.objects.m().insert(i.inner, *final(r))
        }
        //@traitfn tp_client::baseline::IndexMut<ObjectHandle>@Baseline::index_mut
        //@ops
        //@end
    }
    impl<T: ITpPropertyStatic> crate::stub::Index<StateHandle<T>> for Baseline {
        type Output = State<T>;
        open spec fn has(&self, i: StateHandle<T>) -> bool { self.cell_s(T::PROPERTY_TYPE, i.inner) is Some }
        open spec fn at(&self, i: StateHandle<T>, r: &State<T>) -> bool { self.cell_s(T::PROPERTY_TYPE, i.inner) == Some(GVal::S(r.value.inj())) }
        //@traitfn tp_client::baseline::Index<StateHandle<T>>@Baseline::index
        //@end
    }
    impl<T: ITpPropertyStatic> crate::stub::IndexMut<StateHandle<T>> for Baseline {
        #[verifier::prophetic]
        open spec fn upd(a: Self, b: Self, i: StateHandle<T>, r: &mut State<T>) -> bool {
            &&& only_states_differ(a, b)
            &&& forall|t: TpPropertyType, j: ga::Index| b.iss_s(t, j) == a.iss_s(t, j)
            &&& a.cell_s(T::PROPERTY_TYPE, i.inner) == Some(GVal::S((*r).value.inj()))
            &&& forall|t: TpPropertyType, j: ga::Index| #[trigger] b.cell_s(t, j) ==
                    (if t == T::PROPERTY_TYPE && j == i.inner { Some(GVal::S((*final(r)).value.inj())) } else { a.cell_s(t, j) })
        }
        //@traitfn tp_client::baseline::IndexMut<StateHandle<T>>@Baseline::index_mut
        //@end
    }
    impl<T: ITpPropertyStatic> crate::stub::Index<ChannelHandle<T>> for Baseline {
        type Output = Channel<T>;
        open spec fn has(&self, i: ChannelHandle<T>) -> bool { self.cell_c(T::PROPERTY_TYPE, i.inner) is Some }
        open spec fn at(&self, i: ChannelHandle<T>, r: &Channel<T>) -> bool { self.cell_c(T::PROPERTY_TYPE, i.inner) == Some(GVal::C(T::cinj(*r))) }
        //@traitfn tp_client::baseline::Index<ChannelHandle<T>>@Baseline::index
        //@end
    }
    impl<T: ITpPropertyStatic> crate::stub::IndexMut<ChannelHandle<T>> for Baseline {
        #[verifier::prophetic]
        open spec fn upd(a: Self, b: Self, i: ChannelHandle<T>, r: &mut Channel<T>) -> bool {
            &&& only_channels_differ(a, b)
            &&& forall|t: TpPropertyType, j: ga::Index| b.iss_c(t, j) == a.iss_c(t, j)
            &&& a.cell_c(T::PROPERTY_TYPE, i.inner) == Some(GVal::C(T::cinj(*r)))
            &&& forall|t: TpPropertyType, j: ga::Index| #[trigger] b.cell_c(t, j) ==
                    (if t == T::PROPERTY_TYPE && j == i.inner { Some(GVal::C(T::cinj(*final(r)))) } else { a.cell_c(t, j) })
        }
        //@traitfn tp_client::baseline::IndexMut<ChannelHandle<T>>@Baseline::index_mut
        //@end
    }
}
} // verus!
fn main() {}
