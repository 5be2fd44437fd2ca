// Contracts on the generational arena itself (the crate of that name, at the version /repo's lock file
// names): what core.rs assumes of it. Extracted as core.rs is.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
#![feature(allocator_api)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;

verus! {

// ======================================================================================
// Trusted contracts of the standard library
// ======================================================================================
pub mod stub {
    use vstd::prelude::*;

    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }

    pub trait Default: Sized {
        spec fn is_default(&self) -> bool;
        fn default() -> (ret: Self) ensures ret.is_default();
    }
    pub trait Index<I>: Sized {
        type Output;
        spec fn has(&self, i: I) -> bool;
        spec fn at(&self, i: I, r: &Self::Output) -> bool;
        fn index(&self, i: I) -> (ret: &Self::Output) requires self.has(i) ensures self.at(i, ret);
    }
    pub trait IndexMut<I>: Index<I> {
        #[verifier::prophetic]
        spec fn upd(a: Self, b: Self, i: I, r: &mut Self::Output) -> bool;
        fn index_mut(&mut self, i: I) -> (ret: &mut Self::Output) requires old(self).has(i) ensures Self::upd(*old(self), *final(self), i, ret);
    }
    pub trait Hasher: Sized { spec fn fed(&self) -> Seq<u64>; }
    pub trait Hash {
        /// what the value feeds a hasher
        spec fn feeds(&self) -> Seq<u64>;
        fn hash<__H: Hasher>(&self, state: &mut __H)
            ensures final(state).fed() == old(state).fed() + self.feeds();
    }

    impl Hash for usize {
        open spec fn feeds(&self) -> Seq<u64> { seq![*self as u64] }
        #[verifier::external_body]
        fn hash<__H: Hasher>(&self, state: &mut __H) { unimplemented!() }
    }
    impl Hash for u64 {
        open spec fn feeds(&self) -> Seq<u64> { seq![*self] }
        #[verifier::external_body]
        fn hash<__H: Hasher>(&self, state: &mut __H) { unimplemented!() }
    }
    /// `std::iter::Iterator`, for iterators that end: `rem` is what is still to come
    pub trait Iterator: Sized {
        type Item;
        spec fn wf(&self) -> bool;
        spec fn rem(&self) -> Seq<Self::Item>;
        fn next(&mut self) -> (ret: Option<Self::Item>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
        fn size_hint(&self) -> (ret: (usize, Option<usize>))
            requires self.wf(),
            ensures ret.0 <= self.rem().len(), ret.1 matches Some(n) ==> self.rem().len() <= n;
    }
    pub trait DoubleEndedIterator: Iterator {
        fn next_back(&mut self) -> (ret: Option<Self::Item>)
            requires old(self).wf(),
            ensures
                final(self).wf(),
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret == Some(old(self).rem().last()) && final(self).rem() == old(self).rem().drop_last();
    }
    pub trait ExactSizeIterator: Iterator {
        fn len(&self) -> (ret: usize)
            requires self.wf(),
            ensures ret == self.rem().len();
    }
    pub trait IntoIterator: Sized {
        type Item;
        type IntoIter: Iterator<Item = Self::Item>;
        spec fn into_wf(self) -> bool;
        spec fn into_spec(self, it: Self::IntoIter) -> bool;
        fn into_iter(self) -> (ret: Self::IntoIter)
            requires self.into_wf(),
            ensures self.into_spec(ret), ret.wf();
    }
    pub mod iter {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(I)]
        pub struct Enumerate<I: super::Iterator> { _p: core::marker::PhantomData<I> }
        impl<I: super::Iterator> Enumerate<I> {
            pub uninterp spec fn left(&self) -> Seq<(usize, I::Item)>;
        }
        impl<I: super::Iterator> super::Iterator for Enumerate<I> {
            type Item = (usize, I::Item);
            open spec fn wf(&self) -> bool { true }
            open spec fn rem(&self) -> Seq<(usize, I::Item)> { self.left() }
            #[verifier::external_body]
            fn next(&mut self) -> Option<(usize, I::Item)> { unimplemented!() }
            #[verifier::external_body]
            fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
        }
        impl<I: super::DoubleEndedIterator> super::DoubleEndedIterator for Enumerate<I> {
            #[verifier::external_body]
            fn next_back(&mut self) -> Option<(usize, I::Item)> { unimplemented!() }
        }
    }
    pub trait IteratorEnumerate: Iterator {
        fn enumerate(self) -> (r: iter::Enumerate<Self>)
            requires self.wf(), self.rem().len() <= usize::MAX,
            ensures r.left() == Seq::new(self.rem().len(), |i: int| (i as usize, self.rem()[i]));
    }
    impl<I: Iterator> IteratorEnumerate for I {
        #[verifier::external_body]
        fn enumerate(self) -> iter::Enumerate<I> { unimplemented!() }
    }
    pub mod slice {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Iter<'a, T> { _p: core::marker::PhantomData<&'a T> }
        impl<'a, T> Iter<'a, T> { pub uninterp spec fn left(&self) -> Seq<&'a T>; }
        impl<'a, T> super::Iterator for Iter<'a, T> {
            type Item = &'a T;
            open spec fn wf(&self) -> bool { true }
            open spec fn rem(&self) -> Seq<&'a T> { self.left() }
            #[verifier::external_body]
            fn next(&mut self) -> Option<&'a T> { unimplemented!() }
            #[verifier::external_body]
            fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
        }
        impl<'a, T> super::DoubleEndedIterator for Iter<'a, T> {
            #[verifier::external_body]
            fn next_back(&mut self) -> Option<&'a T> { unimplemented!() }
        }
    }
    pub mod vec {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct IntoIter<T> { _p: core::marker::PhantomData<T> }
        impl<T> IntoIter<T> { pub uninterp spec fn left(&self) -> Seq<T>; }
        impl<T> super::Iterator for IntoIter<T> {
            type Item = T;
            open spec fn wf(&self) -> bool { true }
            open spec fn rem(&self) -> Seq<T> { self.left() }
            #[verifier::external_body]
            fn next(&mut self) -> Option<T> { unimplemented!() }
            #[verifier::external_body]
            fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
        }
        impl<T> super::DoubleEndedIterator for IntoIter<T> {
            #[verifier::external_body]
            fn next_back(&mut self) -> Option<T> { unimplemented!() }
        }
    }
    impl<T> IntoIterator for Vec<T> {
        type Item = T;
        type IntoIter = vec::IntoIter<T>;
        open spec fn into_wf(self) -> bool { true }
        open spec fn into_spec(self, it: vec::IntoIter<T>) -> bool { it.left() == self@ }
        #[verifier::external_body]
        fn into_iter(self) -> vec::IntoIter<T> { unimplemented!() }
    }
    /// methods of `Vec` and of the slice it is
    pub trait VecMore<T> {
        spec fn items(&self) -> Seq<T>;
        fn get(&self, i: usize) -> (r: Option<&T>)
            ensures i < self.items().len() ==> r == Some(&self.items()[i as int]), i >= self.items().len() ==> r is None;
        fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
            ensures match r {
                Some(p) => i < old(self).items().len() && *p == old(self).items()[i as int] && final(self).items() == old(self).items().update(i as int, *final(p)),
                None => i >= old(self).items().len() && final(self).items() == old(self).items(),
            };
        fn iter(&self) -> (r: slice::Iter<'_, T>)
            ensures r.left() == Seq::new(self.items().len(), |i: int| &self.items()[i]);
    }
    impl<T> VecMore<T> for Vec<T> {
        open spec fn items(&self) -> Seq<T> { self@ }
        #[verifier::external_body]
        fn get(&self, i: usize) -> Option<&T> { unimplemented!() }
        #[verifier::external_body]
        fn get_mut(&mut self, i: usize) -> Option<&mut T> { unimplemented!() }
        #[verifier::external_body]
        fn iter(&self) -> slice::Iter<'_, T> { unimplemented!() }
    }
    /// `(a..b).map(f)`
    #[verifier::external_body]
    #[verifier::accept_recursive_types(B)]
    pub struct Mapped<B> { _p: core::marker::PhantomData<B> }
    impl<B> Mapped<B> { pub uninterp spec fn left(&self) -> Seq<B>; }
    impl<B> Iterator for Mapped<B> {
        type Item = B;
        open spec fn wf(&self) -> bool { true }
        open spec fn rem(&self) -> Seq<B> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<B> { unimplemented!() }
        #[verifier::external_body]
        fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    }
    pub struct Range { pub lo: usize, pub hi: usize }
    pub fn range(lo: usize, hi: usize) -> (r: Range) ensures r.lo == lo, r.hi == hi { Range { lo, hi } }
    impl Range {
        #[verifier::external_body]
        pub fn map<B, F: Fn(usize) -> B>(self, f: F) -> (r: Mapped<B>)
            requires forall|i: usize| self.lo <= i < self.hi ==> #[trigger] f.requires((i,)),
            ensures
                r.left().len() == if self.lo < self.hi { self.hi - self.lo } else { 0 },
                forall|i: int| 0 <= i < r.left().len() ==> f.ensures(((self.lo + i) as usize,), #[trigger] r.left()[i]),
        { unimplemented!() }
    }
    pub trait Extend<T>: VecMore<T> {
        fn extend<I: Iterator<Item = T>>(&mut self, i: I)
            requires i.wf(),
            ensures final(self).items() == old(self).items() + i.rem();
    }
    impl<T> Extend<T> for Vec<T> {
        #[verifier::external_body]
        fn extend<I: Iterator<Item = T>>(&mut self, i: I) { unimplemented!() }
    }
    pub mod cmp {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { unimplemented!() }
    }
    pub mod mem { pub use core::mem::replace; }
    pub assume_specification<T>[ core::mem::replace ](d: &mut T, s: T) -> (r: T)
        ensures r == *old(d), *final(d) == s;
    pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::reserve_exact ](v: &mut Vec<T, A>, n: usize)
        ensures final(v)@ == old(v)@;
}

// ======================================================================================
// crate generational-arena
// ======================================================================================
pub mod generational_arena {
    use vstd::prelude::*;
    use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl};
    use core::cmp::Ordering;
    use crate::stub::{cmp, iter, mem, slice, vec};
    use crate::stub::{Default, Iterator, DoubleEndedIterator, ExactSizeIterator, IntoIterator, IteratorEnumerate, Extend, VecMore};

    //@enum generational_arena::Entry
    //@struct generational_arena::Arena
    //@struct generational_arena::Index
    impl Copy for Index {}
    impl Clone for Index {
        fn clone(&self) -> (r: Self) ensures r == *self { *self }
    }
    impl Eq for Index {}
    impl PartialEqSpecImpl for Index {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &Index) -> bool { *self == *other }
    }
    impl PartialEq for Index {
        //@traitfn generational_arena::PartialEq@Index::eq
        //@spec
            ensures ret == (*self == *$A0)
        //@end
    }
    /// (derived: by slot, then by generation)
    pub open spec fn index_cmp(a: Index, b: Index) -> Ordering {
        if a.index < b.index { Ordering::Less } else if a.index > b.index { Ordering::Greater }
        else if a.generation < b.generation { Ordering::Less } else if a.generation > b.generation { Ordering::Greater }
        else { Ordering::Equal }
    }
    impl PartialOrdSpecImpl for Index {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &Index) -> Option<Ordering> { Some(index_cmp(*self, *other)) }
    }
    impl PartialOrd for Index {
        //@traitfn generational_arena::PartialOrd@Index::partial_cmp
        //@spec
            ensures ret == Some(index_cmp(*self, *$A0))
        //@end
    }
    impl OrdSpecImpl for Index {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, other: &Index) -> Ordering { index_cmp(*self, *other) }
    }
    impl Ord for Index {
        //@traitfn generational_arena::Ord@Index::cmp
        //@spec
            ensures ret == index_cmp(*self, *$A0)
        //@end
    }
    impl crate::stub::Hash for Index {
        open spec fn feeds(&self) -> Seq<u64> { seq![self.index as u64, self.generation] }
        //@traitfn generational_arena::Hash@Index::hash
        //@end
    }

    /// (whatever its value)
    #[verifier::external_body]
    exec const DEFAULT_CAPACITY: usize ensures true { 4 }

    pub open spec fn at<T>(s: Seq<Entry<T>>, k: Index) -> bool {
        k.index < s.len() && s[k.index as int] is Occupied && s[k.index as int]->generation == k.generation
    }
    /// how many places hold a value
    #[verifier::opaque]
    pub open spec fn occupied<T>(s: Seq<Entry<T>>) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { occupied(s.drop_last()) + if s.last() is Occupied { 1nat } else { 0nat } }
    }
    /// what they hold
    #[verifier::opaque]
    pub open spec fn values<T>(s: Seq<Entry<T>>) -> Map<Index, T> decreases s.len() {
        if s.len() == 0 { Map::empty() } else {
            match s.last() {
                Entry::Occupied { generation, value } => values(s.drop_last()).insert(Index { index: (s.len() - 1) as usize, generation }, value),
                Entry::Free { .. } => values(s.drop_last()),
            }
        }
    }
    pub broadcast proof fn lemma_at<T>(s: Seq<Entry<T>>, k: Index)
        requires s.len() <= usize::MAX
        ensures #![trigger values(s).contains_key(k)] #![trigger values(s).dom().contains(k)] #![trigger values(s)[k]]
            values(s).contains_key(k) == at(s, k), values(s).dom().contains(k) == at(s, k), at(s, k) ==> values(s)[k] == s[k.index as int]->value
        decreases s.len()
    {
        reveal(values);
        if s.len() > 0 { lemma_at(s.drop_last(), k); }
    }
    pub proof fn lemma_count<T>(s: Seq<Entry<T>>)
        requires s.len() <= usize::MAX
        ensures values(s).dom().len() == occupied(s), occupied(s) <= s.len()
        decreases s.len()
    {
        reveal(values); reveal(occupied);
        if s.len() > 0 {
            lemma_count(s.drop_last());
            if s.last() is Occupied { lemma_at(s.drop_last(), Index { index: (s.len() - 1) as usize, generation: s.last()->generation }); }
        }
    }
    pub broadcast proof fn lemma_occupied<T>(s: Seq<Entry<T>>, i: int, e: Entry<T>)
        requires 0 <= i < s.len()
        ensures #[trigger] occupied(s.update(i, e)) == occupied(s) - (if s[i] is Occupied { 1int } else { 0int }) + (if e is Occupied { 1int } else { 0int }),
            s[i] is Free ==> occupied(s) < s.len(), s[i] is Occupied ==> occupied(s) > 0
        decreases s.len()
    {
        reveal(occupied);
        let u = s.update(i, e);
        if i == s.len() - 1 {
            assert(u.drop_last() =~= s.drop_last());
            lemma_le(s.drop_last());
        } else {
            assert(u.drop_last() =~= s.drop_last().update(i, e));
            lemma_occupied(s.drop_last(), i, e);
        }
    }
    pub proof fn lemma_le<T>(s: Seq<Entry<T>>)
        ensures occupied(s) <= s.len()
        decreases s.len()
    {
        reveal(occupied);
        if s.len() > 0 { lemma_le(s.drop_last()); }
    }
    /// what is all free adds nothing
    pub broadcast proof fn lemma_free<T>(s: Seq<Entry<T>>, f: Seq<Entry<T>>)
        requires forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) is Free
        ensures #[trigger] occupied(s + f) == occupied(s)
        decreases f.len()
    {
        if f.len() == 0 {
            assert(s + f =~= s);
        } else {
            reveal(occupied);
            assert((s + f).drop_last() =~= s + f.drop_last());
            lemma_free(s, f.drop_last());
        }
    }
    pub broadcast proof fn lemma_same<T>(s: Seq<T>, i: int, e: T)
        requires 0 <= i < s.len(), e == s[i]
        ensures #[trigger] s.update(i, e) == s
    { assert(s.update(i, e) =~= s); }

    /// `fl` is the list of free places from `head` on
    pub open spec fn chain<T>(s: Seq<Entry<T>>, head: Option<usize>, fl: Seq<usize>) -> bool {
        &&& fl.no_duplicates()
        &&& head == if fl.len() == 0 { None } else { Some(fl[0]) }
        &&& forall|k: int| 0 <= k < fl.len() ==> (#[trigger] fl[k]) < s.len() && s[fl[k] as int] == (Entry::<T>::Free { next_free: if k + 1 < fl.len() { Some(fl[k + 1]) } else { None } })
    }
    #[verifier::opaque]
    pub open spec fn listed<T>(s: Seq<Entry<T>>, head: Option<usize>) -> bool { exists|fl: Seq<usize>| chain(s, head, fl) }
    /// and `i` is not on it
    #[verifier::opaque]
    pub open spec fn listed_but<T>(s: Seq<Entry<T>>, head: Option<usize>, i: usize) -> bool { exists|fl: Seq<usize>| chain(s, head, fl) && !fl.contains(i) }
    pub proof fn lemma_take<T>(s: Seq<Entry<T>>, head: Option<usize>)
        requires listed(s, head)
        ensures head matches Some(i) ==> i < s.len() && (s[i as int] matches Entry::Free { next_free } && listed_but(s, next_free, i))
    {
        reveal(listed); reveal(listed_but);
        let fl = choose|fl: Seq<usize>| chain(s, head, fl);
        if head is Some {
            let r = fl.skip(1);
            assert(chain(s, s[fl[0] as int]->next_free, r)) by {
                assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < s.len() && s[r[k] as int] == (Entry::<T>::Free { next_free: if k + 1 < r.len() { Some(r[k + 1]) } else { None } }) by {
                    assert(r[k] == fl[k + 1]);
                }
            }
            assert(!r.contains(fl[0]));
        }
    }
    pub broadcast proof fn lemma_put<T>(s: Seq<Entry<T>>, head: Option<usize>, i: usize, e: Entry<T>)
        requires listed_but(s, head, i), i < s.len()
        ensures #[trigger] listed(s.update(i as int, e), head)
    {
        reveal(listed); reveal(listed_but);
        let fl = choose|fl: Seq<usize>| chain(s, head, fl) && !fl.contains(i);
        assert(chain(s.update(i as int, e), head, fl));
    }
    pub broadcast proof fn lemma_set<T>(s: Seq<Entry<T>>, head: Option<usize>, i: usize, e: Entry<T>)
        requires listed(s, head), i < s.len(), s[i as int] is Occupied
        ensures #[trigger] listed(s.update(i as int, e), head)
    {
        reveal(listed);
        let fl = choose|fl: Seq<usize>| chain(s, head, fl);
        assert(chain(s.update(i as int, e), head, fl));
    }
    pub broadcast proof fn lemma_give<T>(s: Seq<Entry<T>>, head: Option<usize>, i: usize)
        requires listed(s, head), i < s.len(), s[i as int] is Occupied
        ensures #[trigger] listed(s.update(i as int, Entry::Free { next_free: head }), Some(i))
    {
        reveal(listed);
        let fl = choose|fl: Seq<usize>| chain(s, head, fl);
        let u = s.update(i as int, Entry::Free { next_free: head });
        let r = Seq::new(fl.len() + 1, |k: int| if k == 0 { i } else { fl[k - 1] });
        assert(forall|k: int| 0 <= k < fl.len() ==> #[trigger] fl[k] != i);
        assert(forall|k: int| 0 < k < r.len() ==> #[trigger] r[k] == fl[k - 1]);
        assert(r.no_duplicates());
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < u.len() && u[r[k] as int] == (Entry::<T>::Free { next_free: if k + 1 < r.len() { Some(r[k + 1]) } else { None } }) by {
            if k > 0 {
                let j = k - 1;
                assert(fl[j] < s.len() && s[fl[j] as int] == (Entry::<T>::Free { next_free: if j + 1 < fl.len() { Some(fl[j + 1]) } else { None } }));
            }
        }
        assert(chain(u, Some(i), r));
    }
    pub open spec fn link<T>(s: Seq<Entry<T>>, fl: Seq<usize>, k: int) -> bool {
        fl[k] < s.len() && s[fl[k] as int] == (Entry::<T>::Free { next_free: if k + 1 < fl.len() { Some(fl[k + 1]) } else { None } })
    }
    pub proof fn lemma_link<T>(s: Seq<Entry<T>>, head: Option<usize>, fl: Seq<usize>, k: int)
        requires chain(s, head, fl), 0 <= k < fl.len()
        ensures link(s, fl, k)
    { }
    pub proof fn lemma_distinct<T>(s: Seq<Entry<T>>, head: Option<usize>, fl: Seq<usize>)
        requires chain(s, head, fl)
        ensures fl.no_duplicates(), head == if fl.len() == 0 { None } else { Some(fl[0]) }
    { }
    pub proof fn lemma_chain<T>(s: Seq<Entry<T>>, head: Option<usize>, fl: Seq<usize>)
        requires
            fl.no_duplicates(), head == if fl.len() == 0 { None } else { Some(fl[0]) },
            forall|k: int| 0 <= k < fl.len() ==> #[trigger] link(s, fl, k),
        ensures chain(s, head, fl)
    {
        assert forall|k: int| 0 <= k < fl.len() implies (#[trigger] fl[k]) < s.len() && s[fl[k] as int] == (Entry::<T>::Free { next_free: if k + 1 < fl.len() { Some(fl[k + 1]) } else { None } }) by {
            assert(link(s, fl, k));
        }
    }
    pub broadcast proof fn lemma_more<T>(s: Seq<Entry<T>>, f: Seq<Entry<T>>, head: Option<usize>)
        requires
            listed(s, head), f.len() > 0, s.len() + f.len() <= usize::MAX,
            forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k] == (Entry::<T>::Free { next_free: if k == f.len() - 1 { head } else { Some((s.len() + k + 1) as usize) } }),
        ensures #![trigger listed(s, head), s + f] listed(s + f, Some(s.len() as usize))
    {
        hide(chain); reveal(listed);
        let fl = choose|fl: Seq<usize>| chain(s, head, fl);
        let n = Seq::new(f.len(), |k: int| (s.len() + k) as usize);
        let r = n + fl;
        let u = s + f;
        lemma_distinct(s, head, fl);
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] link(u, r, k) by {
            if k < f.len() {
                assert(r[k] == n[k]);
                assert(u[s.len() + k] == f[k]);
                if k + 1 < f.len() { assert(r[k + 1] == n[k + 1]); }
            } else {
                lemma_link(s, head, fl, k - f.len());
            }
        }
        assert forall|k: int| 0 <= k < fl.len() implies (#[trigger] fl[k]) < s.len() by { lemma_link(s, head, fl, k); }
        assert(r.no_duplicates()) by {
            assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
                if a >= f.len() && b >= f.len() { assert(fl[a - f.len()] != fl[b - f.len()]); }
            }
        }
        lemma_chain(u, Some(s.len() as usize), r);
    }
    pub proof fn lemma_empty<T>()
        ensures listed(Seq::<Entry<T>>::empty(), None), occupied(Seq::<Entry<T>>::empty()) == 0
    {
        reveal(listed); reveal(occupied);
        assert(chain(Seq::<Entry<T>>::empty(), None, Seq::<usize>::empty()));
    }
    // ---- enumeration ----
    /// the entry an iterator over the places gives for one of them
    pub open spec fn one<'a, T>(e: (usize, &'a Entry<T>)) -> Seq<(Index, &'a T)> {
        match *e.1 {
            Entry::Occupied { generation, value } => seq![(Index { index: e.0, generation }, &value)],
            Entry::Free { .. } => Seq::empty(),
        }
    }
    /// what an iterator over the places still has to give
    #[verifier::opaque]
    pub open spec fn live<'a, T>(s: Seq<(usize, &'a Entry<T>)>) -> Seq<(Index, &'a T)> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { live(s.drop_last()) + one(s.last()) }
    }
    pub proof fn lemma_live<'a, T>(s: Seq<(usize, &'a Entry<T>)>)
        ensures
            s.len() == 0 ==> live(s) == Seq::<(Index, &'a T)>::empty(),
            s.len() > 0 ==> live(s) == live(s.drop_last()) + one(s.last()),
            s.len() > 0 ==> live(s) == one(s[0]) + live(s.skip(1)),
        decreases s.len()
    {
        reveal(live);
        if s.len() > 0 {
            lemma_live(s.drop_last());
            if s.len() == 1 {
                assert(s.skip(1) =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty());
                assert(live(s) =~= one(s[0]) + live(s.skip(1)));
            } else {
                assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
                lemma_live(s.skip(1));
                assert(live(s) =~= one(s[0]) + live(s.skip(1)));
            }
        }
    }
    pub open spec fn places<'a, T>(s: Seq<Entry<T>>) -> Seq<(usize, &'a Entry<T>)> { Seq::new(s.len(), |i: int| (i as usize, &s[i])) }
    pub broadcast proof fn lemma_places<'a, T>(l: Seq<(usize, &'a Entry<T>)>, s: Seq<Entry<T>>)
        requires l.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> l[i] == (i as usize, &s[i])
        ensures #![trigger live(l), places::<T>(s)] live(l) == live(places::<T>(s))
    { assert(l =~= places::<T>(s)); }
    /// (as in unit core) yields each entry of `m` once
    pub open spec fn over<'a, T>(l: Seq<(Index, &'a T)>, m: Map<Index, T>) -> bool {
        &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0) && *l[i].1 == m[l[i].0]
        &&& forall|k: Index| m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k
        &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
    }
    pub proof fn lemma_over<'a, T>(s: Seq<Entry<T>>)
        requires s.len() <= usize::MAX
        ensures over::<T>(live(places(s)), values(s)), live(places(s)).len() == occupied(s)
        decreases s.len()
    {
        broadcast use lemma_at;
        reveal(occupied); reveal(live); reveal(values);
        if s.len() > 0 {
            let t = s.drop_last();
            lemma_over(t);
            assert(places::<T>(s).drop_last() =~= places(t));
            let (a, b, m, n) = (live(places::<T>(t)), live(places::<T>(s)), values(t), values(s));
            assert(b == a + one(places(s).last()));
            if s.last() is Occupied {
                let k = Index { index: (s.len() - 1) as usize, generation: s.last()->generation };
                assert(b == a.push((k, &s.last()->value)));
                assert forall|i: int| 0 <= i < b.len() implies n.contains_key((#[trigger] b[i]).0) && *b[i].1 == n[b[i].0] by {
                    if i < a.len() { assert(b[i] == a[i]); assert(m.contains_key(a[i].0)); }
                }
                assert forall|q: Index| n.contains_key(q) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == q by {
                    if q == k { assert(b[a.len() as int].0 == q); } else {
                        assert(m.contains_key(q));
                        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == q;
                        assert(b[i] == a[i]);
                    }
                }
                assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by {
                    assert(b[i] == a[i]); assert(m.contains_key(a[i].0));
                    if j < a.len() { assert(b[j] == a[j]); }
                }
            } else { assert(b =~= a); }
        }
    }
    //@struct generational_arena::Iter
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = (Index, &'a T);
        open spec fn wf(&self) -> bool { self.len == live(self.inner.left()).len() }
        open spec fn rem(&self) -> Seq<(Index, &'a T)> { live(self.inner.left()) }
        //@traitfn generational_arena::Iterator@Iter::next
        //@sugar
        //@loop 0
            invariant self.len == live(self.inner.left()).len(), live(self.inner.left()) =~= live(old(self).inner.left())
            decreases self.inner.left().len()
        //@top 0
            proof { lemma_live(self.inner.left()); }
        //@end
        //@traitfn generational_arena::Iterator@Iter::size_hint
        //@end
    }
    impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
        //@traitfn generational_arena::DoubleEndedIterator@Iter::next_back
        //@sugar
        //@loop 0
            invariant self.len == live(self.inner.left()).len(), live(self.inner.left()) =~= live(old(self).inner.left())
            decreases self.inner.left().len()
        //@top 0
            proof { lemma_live(self.inner.left()); }
        //@end
    }
    impl<'a, T> ExactSizeIterator for Iter<'a, T> {
        //@traitfn generational_arena::ExactSizeIterator@Iter::len
        //@end
    }
    #[verifier::opaque]
    pub open spec fn held<T>(s: Seq<Entry<T>>) -> Seq<T> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { held(s.drop_last()) + its(s.last()) }
    }
    pub open spec fn its<T>(e: Entry<T>) -> Seq<T> {
        match e { Entry::Occupied { generation, value } => seq![value], Entry::Free { .. } => Seq::empty() }
    }
    pub proof fn lemma_held<T>(s: Seq<Entry<T>>)
        ensures
            s.len() == 0 ==> held(s) == Seq::<T>::empty(),
            s.len() > 0 ==> held(s) == held(s.drop_last()) + its(s.last()),
            s.len() > 0 ==> held(s) == its(s[0]) + held(s.skip(1)),
        decreases s.len()
    {
        reveal(held);
        if s.len() > 0 {
            lemma_held(s.drop_last());
            if s.len() == 1 {
                assert(s.skip(1) =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty());
                assert(held(s) =~= its(s[0]) + held(s.skip(1)));
            } else {
                assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
                lemma_held(s.skip(1));
                assert(held(s) =~= its(s[0]) + held(s.skip(1)));
            }
        }
    }
    /// (as in unit core) the values of `m`, each once
    pub open spec fn values_of<T>(s: Seq<T>, m: Map<Index, T>) -> bool {
        exists|ks: Seq<Index>| {
            &&& ks.len() == s.len() && ks.no_duplicates()
            &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] ks[i]) && s[i] == m[ks[i]]
            &&& forall|k: Index| m.contains_key(k) ==> ks.contains(k)
        }
    }
    pub proof fn lemma_held_live<T>(s: Seq<Entry<T>>)
        requires s.len() <= usize::MAX
        ensures held(s).len() == live(places(s)).len(), forall|i: int| 0 <= i < held(s).len() ==> #[trigger] held(s)[i] == *live(places::<T>(s))[i].1
        decreases s.len()
    {
        reveal(held); reveal(live);
        if s.len() > 0 {
            lemma_held_live(s.drop_last());
            assert(places::<T>(s).drop_last() =~= places(s.drop_last()));
        }
    }
    pub proof fn lemma_values_of<T>(s: Seq<Entry<T>>)
        requires s.len() <= usize::MAX
        ensures values_of(held(s), values(s)), held(s).len() == occupied(s)
    {
        lemma_held_live(s); lemma_over(s);
        let l = live(places::<T>(s));
        let ks = Seq::new(l.len(), |i: int| l[i].0);
        assert forall|i: int| 0 <= i < held(s).len() implies values(s).contains_key(#[trigger] ks[i]) && held(s)[i] == values(s)[ks[i]] by { assert(values(s).contains_key(l[i].0)); }
        assert forall|k: Index| values(s).contains_key(k) implies ks.contains(k) by {
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k;
            assert(ks[i] == k);
        }
        assert(ks.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
                if i < j { assert(l[i].0 != l[j].0); } else { assert(l[j].0 != l[i].0); }
            }
        }
        assert(values_of(held(s), values(s)));
    }
    //@struct generational_arena::IntoIter
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        open spec fn wf(&self) -> bool { self.len == held(self.inner.left()).len() }
        open spec fn rem(&self) -> Seq<T> { held(self.inner.left()) }
        //@traitfn generational_arena::Iterator@IntoIter::next
        //@loop 0
            invariant self.len == held(self.inner.left()).len(), held(self.inner.left()) =~= held(old(self).inner.left())
            decreases self.inner.left().len()
        //@top 0
            proof { lemma_held(self.inner.left()); }
        //@end
        //@traitfn generational_arena::Iterator@IntoIter::size_hint
        //@end
    }
    impl<T> DoubleEndedIterator for IntoIter<T> {
        //@traitfn generational_arena::DoubleEndedIterator@IntoIter::next_back
        //@loop 0
            invariant self.len == held(self.inner.left()).len(), held(self.inner.left()) =~= held(old(self).inner.left())
            decreases self.inner.left().len()
        //@top 0
            proof { lemma_held(self.inner.left()); }
        //@end
    }
    impl<T> ExactSizeIterator for IntoIter<T> {
        //@traitfn generational_arena::ExactSizeIterator@IntoIter::len
        //@end
    }
    impl<T> IntoIterator for Arena<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        open spec fn into_wf(self) -> bool { Arena::wf(&self) }
        open spec fn into_spec(self, it: IntoIter<T>) -> bool { values_of(it.rem(), self.m()) }
        //@traitfn generational_arena::IntoIterator@Arena::into_iter
        //@entry
            proof { lemma_values_of(self.items@); }
        //@end
    }
    impl<T> Default for Arena<T> {
        open spec fn is_default(&self) -> bool { Arena::wf(self) && self.m() =~= Map::<Index, T>::empty() && forall|k: Index| !self.out(k) }
        //@traitfn generational_arena::Default@Arena::default
        //@end
    }
    impl<T> crate::stub::Index<Index> for Arena<T> {
        type Output = T;
        open spec fn has(&self, i: Index) -> bool { self.wf() && self.m().contains_key(i) }
        open spec fn at(&self, i: Index, r: &T) -> bool { *r == self.m()[i] }
        //@traitfn generational_arena::Index<Index>@Arena::index
        //@end
    }
    impl<T> crate::stub::IndexMut<Index> for Arena<T> {
        #[verifier::prophetic]
        open spec fn upd(a: Self, b: Self, i: Index, r: &mut T) -> bool {
            b.wf() && (forall|k: Index| b.out(k) == a.out(k)) && *r == a.m()[i] && b.m() =~= a.m().insert(i, *final(r))
        }
        //@traitfn generational_arena::IndexMut<Index>@Arena::index_mut
        //@end
    }
    pub broadcast group facts { lemma_at, lemma_occupied, lemma_free, lemma_same, lemma_put, lemma_set, lemma_give }
    impl<T> Arena<T> {
        pub open spec fn wf0(&self) -> bool {
            &&& self.items@.len() <= usize::MAX
            &&& self.len == occupied(self.items@)
            &&& listed(self.items@, self.free_list_head)
            &&& forall|i: int| 0 <= i < self.items@.len() && self.items@[i] is Occupied ==> (#[trigger] self.items@[i])->generation <= self.generation
        }
        pub open spec fn wf(&self) -> bool { self.wf0() && self.items@.len() > 0 }
        /// the values in the arena
        pub open spec fn m(&self) -> Map<Index, T> { values(self.items@) }
        /// no other index can have been given out so far
        pub open spec fn out(&self, k: Index) -> bool { k.generation < self.generation || at(self.items@, k) }
        //@fn generational_arena::Arena::new
        //@spec
            ensures ret.wf(), ret.m() =~= Map::<Index, T>::empty(), forall|k: Index| !ret.out(k)
        //@end
        //@fn generational_arena::Arena::with_capacity
        //@spec
            ensures ret.wf(), ret.m() =~= Map::<Index, T>::empty(), forall|k: Index| !ret.out(k)
        //@entry
            broadcast use facts; proof { lemma_empty::<T>(); }
        //@end
        //@fn generational_arena::Arena::reserve
        //@sugar
        //@spec
            requires
                old(self).wf0(), $A0 > 0, old(self).items@.len() + $A0 <= usize::MAX,
            ensures
                final(self).wf(), final(self).m() =~= old(self).m(), forall|k: Index| final(self).out(k) == old(self).out(k),
                final(self).free_list_head is Some, final(self).items@.len() == old(self).items@.len() + $A0,
                final(self).generation == old(self).generation
        //@closure 0
            |__c0: usize| -> (r: Entry<T>) requires end > 0, __c0 < usize::MAX ensures r == (Entry::<T>::Free { next_free: if __c0 == end - 1 { old_head } else { Some((__c0 + 1) as usize) } })
        //@entry
            broadcast use facts; broadcast use lemma_more;
        //@end
        //@fn generational_arena::Arena::try_alloc_next_index
        //@spec
            requires old(self).wf(),
            ensures
                ret is None == old(self).free_list_head is None,
                ret is None ==> *final(self) == *old(self),
                ret matches Some(i) ==> {
                    &&& i.index < old(self).items@.len()
                    &&& i.generation == old(self).generation
                    &&& final(self).items@ == old(self).items@
                    &&& final(self).generation == old(self).generation
                    &&& final(self).len == old(self).len + 1
                    &&& old(self).items@[i.index as int] is Free
                    &&& listed_but(old(self).items@, final(self).free_list_head, i.index)
                }
        //@entry
            proof { lemma_take(self.items@, self.free_list_head); if let Some(i) = self.free_list_head { lemma_occupied(self.items@, i as int, self.items@[i as int]); } }
        //@end
        //@fn generational_arena::Arena::try_insert
        //@sugar
        //@spec
            requires old(self).wf()
            ensures
                final(self).wf(),
                final(self).items@.len() == old(self).items@.len(),
                final(self).generation == old(self).generation,
                ret is Err == old(self).free_list_head is None,
                match ret {
                    Ok(i) => !old(self).out(i) && final(self).m() =~= old(self).m().insert(i, $A0) && (forall|k: Index| final(self).out(k) == (k == i || old(self).out(k))),
                    Err(v) => v == $A0 && *final(self) == *old(self),
                }
        //@entry
            broadcast use facts;
        //@end
        //@fn generational_arena::Arena::insert_slow_path
        //@spec
            requires old(self).wf(), old(self).items@.len() * 2 <= usize::MAX
            ensures
                final(self).wf(),
                !old(self).out(ret), final(self).m() =~= old(self).m().insert(ret, $A0), (forall|k: Index| final(self).out(k) == (k == ret || old(self).out(k)))
        //@end
        //@fn generational_arena::Arena::insert
        //@spec
            requires old(self).wf(), old(self).items@.len() * 2 <= usize::MAX
            ensures
                final(self).wf(),
                !old(self).out(ret), final(self).m() =~= old(self).m().insert(ret, $A0), (forall|k: Index| final(self).out(k) == (k == ret || old(self).out(k)))
        //@end
        //@fn generational_arena::Arena::get
        //@spec
            requires self.wf()
            ensures ret is Some == self.m().contains_key($A0), ret matches Some(p) ==> *p == self.m()[$A0]
        //@entry
            broadcast use facts;
        //@end
        //@fn generational_arena::Arena::contains
        //@spec
            requires self.wf()
            ensures ret == self.m().contains_key($A0)
        //@end
        //@fn generational_arena::Arena::get_mut
        //@sugar
        //@spec
            requires old(self).wf()
            ensures
                final(self).wf(),
                forall|k: Index| final(self).out(k) == old(self).out(k),
                match ret {
                    Some(p) => old(self).m().contains_key($A0) && *p == old(self).m()[$A0] && final(self).m() =~= old(self).m().insert($A0, *final(p)),
                    None => !old(self).m().contains_key($A0) && final(self).m() =~= old(self).m(),
                }
        //@entry
            broadcast use facts;
        //@end
        //@fn generational_arena::Arena::remove
        //@sugar
        //@spec
            requires old(self).wf(), old(self).generation < u64::MAX
            ensures
                final(self).wf(),
                forall|k: Index| old(self).out(k) ==> final(self).out(k),
                final(self).m() =~= old(self).m().remove($A0),
                match ret {
                    Some(v) => old(self).m().contains_key($A0) && v == old(self).m()[$A0],
                    None => !old(self).m().contains_key($A0),
                }
        //@entry
            broadcast use facts; proof { if $A0.index < self.items@.len() { lemma_occupied(self.items@, $A0.index as int, self.items@[$A0.index as int]); } }
        //@end
        //@fn generational_arena::Arena::len
        //@spec
            requires self.wf()
            ensures ret == self.m().dom().len()
        //@entry
            broadcast use facts; proof { lemma_count(self.items@); }
        //@end
        //@fn generational_arena::Arena::is_empty
        //@spec
            requires self.wf()
            ensures ret == (self.m() =~= Map::<Index, T>::empty())
        //@entry
            broadcast use facts; proof { lemma_count(self.items@); }
        //@end
        //@fn generational_arena::Arena::iter
        //@spec
            requires self.wf()
            ensures ret.wf(), over(ret.rem(), self.m()), ret.rem().len() == self.m().dom().len()
        //@entry
            broadcast use lemma_places;
            proof { lemma_over(self.items@); lemma_count(self.items@); }
        //@end
        //@fn generational_arena::Arena::capacity
        //@spec
            requires self.wf()
            ensures ret >= self.m().dom().len()
        //@entry
            broadcast use facts; proof { lemma_count(self.items@); }
        //@end
    }
}
}
fn main() {}
