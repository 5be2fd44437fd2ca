//! A02: the arena by itself.
use crate::src::Src;
use arena::generational_arena as ga;
use arena::{Arena, Index};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

fn raw(h: Index<String>) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}
fn hash(h: &Index<String>) -> u64 {
    let mut d = DefaultHasher::new();
    h.hash(&mut d);
    d.finish()
}
/// Takes an iterator apart from both ends; what is left in it must be known at each step. Then what is left at once, in any way.
fn drain<S: Src, Y, X: PartialEq + std::fmt::Debug, I: DoubleEndedIterator<Item = Y> + ExactSizeIterator>(s: &mut S, mut it: I, see: impl Fn(Y) -> X, want: &[X], what: &str) {
    let (mut a, mut b) = (0, want.len());
    for _ in 0..s.below(want.len() as u32 + 3) {
        assert!(it.len() == b - a && it.size_hint() == (b - a, Some(b - a)), "A02: {} knows how many are left", what);
        match s.below(6) {
            0..=1 => {
                let x = it.next().map(&see);
                assert!(x.as_ref() == (if a < b { Some(&want[a]) } else { None }), "A02: {} gives each live value once, in order", what);
                if a < b { a += 1; }
            }
            2..=3 => {
                let x = it.next_back().map(&see);
                assert!(x.as_ref() == (if a < b { Some(&want[b - 1]) } else { None }), "A02: {} backwards gives each live value once, in order", what);
                if a < b { b -= 1; }
            }
            4 => {
                let n = s.below(4) as usize;
                let x = it.nth(n).map(&see);
                assert!(x.as_ref() == (if n < b - a { Some(&want[a + n]) } else { None }), "A02: {} skips as many as asked", what);
                a = (a + n + 1).min(b);
            }
            _ => {
                let n = s.below(4) as usize;
                let x = it.nth_back(n).map(&see);
                assert!(x.as_ref() == (if n < b - a { Some(&want[b - 1 - n]) } else { None }), "A02: {} skips as many as asked", what);
                b = b.saturating_sub(n + 1).max(a);
            }
        }
    }
    let left = &want[a..b];
    let mut got = vec![];
    let mut back = false;
    match s.below(9) {
        0 => {
            assert!(it.count() == left.len(), "A02: {} counts what is left", what);
            return;
        }
        1 => {
            assert!(it.last().map(&see).as_ref() == left.last(), "A02: {} ends with the last value", what);
            return;
        }
        2 => it.for_each(|y| got.push(see(y))),
        3 => got = it.fold(got, |mut v, y| { v.push(see(y)); v }),
        4 => {
            back = true;
            got = it.rfold(got, |mut v, y| { v.push(see(y)); v });
        }
        5 => {
            back = true;
            got = it.rev().map(see).collect();
        }
        6 => {
            let n = s.below(left.len() as u32 + 1) as usize;
            let mut i = 0;
            let x = it.find(|_| { i += 1; i > n }).map(&see);
            assert!(x.as_ref() == left.get(n), "A02: {} finds the value looked for", what);
            return;
        }
        7 => {
            let n = s.below(left.len() as u32 + 1) as usize;
            let mut i = 0;
            let x = it.rfind(|_| { i += 1; i > n }).map(&see);
            assert!(x.as_ref() == left.iter().rev().nth(n), "A02: {} finds the value looked for", what);
            return;
        }
        _ => got = it.map(see).collect(),
    }
    if back { got.reverse(); }
    assert!(got == left, "A02: {} gives each value that is left once, in order", what);
}

pub fn a02_history<S: Src>(s: &mut S) {
    let mut given = 0;
    let mut a: Arena<String> = match s.below(4) {
        0 => Arena::new(),
        1 => Arena::default(),
        2 => Arena::with_capacity(s.below(40) as usize),
        _ => {
            let n = if s.below(8) == 0 { s.below(200) } else { s.below(5) };
            given = n as usize;
            match s.below(3) {
                0 => (0..n).map(|i| format!("first {}", i)).collect(),
                1 => (0..2 * n).filter(|i| i % 2 == 0).map(|i| format!("first {}", i / 2)).collect(),
                _ => {
                    let mut i = 0;
                    std::iter::from_fn(|| { i += 1; if i <= n { Some(format!("first {}", i - 1)) } else { None } }).collect()
                }
            }
        }
    };
    let mut live: BTreeMap<(usize, u64), String> = BTreeMap::new();
    let mut ever: Vec<Index<String>> = vec![];
    let first: Vec<_> = a.iter().map(|(h, v)| (h, v.clone())).collect();
    assert!(first.len() == given && a.len() == given, "A02: an arena collected from values holds them all");
    for (i, (h, v)) in first.iter().enumerate() {
        assert!(*v == format!("first {}", i), "A02: an arena collected from values holds them in order");
        live.insert(raw(*h), v.clone());
        ever.push(*h);
    }
    let mut fresh = 0;
    for _ in 0..s.below(24) + if s.below(16) == 0 { 300 } else { 0 } {
        let pick = |s: &mut S, ever: &Vec<Index<String>>| if ever.is_empty() || s.below(8) == 0 {
            Index::new(ga::Index::from_raw_parts(s.below(4) as usize, s.below(4) as u64))
        } else {
            ever[s.below(ever.len() as u32) as usize]
        };
        match s.below(8) {
            0..=2 => {
                fresh += 1;
                let h = a.insert(format!("v{}", fresh));
                assert!(ever.iter().all(|e| raw(*e) != raw(h)), "A02: a key is given out once");
                live.insert(raw(h), format!("v{}", fresh));
                ever.push(h);
            }
            3..=4 => {
                let h = pick(s, &ever);
                assert!(a.remove(h) == live.remove(&raw(h)), "A02: removing gives the value the key stands for");
            }
            5 => {
                let h = pick(s, &ever);
                fresh += 1;
                let g = a.get_mut(h).map(|v| std::mem::replace(v, format!("w{}", fresh)));
                assert!(g.as_ref() == live.get(&raw(h)), "A02: a key gives the value it stands for");
                if let Some(v) = live.get_mut(&raw(h)) { *v = format!("w{}", fresh); }
            }
            6 => {
                let h = pick(s, &ever);
                if live.contains_key(&raw(h)) {
                    fresh += 1;
                    a[h] = format!("x{}", fresh);
                    live.insert(raw(h), format!("x{}", fresh));
                    assert!(a[h] == live[&raw(h)], "A02: a key gives the value it stands for");
                }
            }
            _ => {
                let n = s.below(20) as usize;
                a.reserve(n);
                assert!(a.capacity() >= a.len() + n, "A02: reserved room is there");
            }
        }
        assert!(a.len() == live.len() && a.is_empty() == live.is_empty() && a.capacity() >= a.len(), "A02: an arena knows how many values it holds");
        for h in ever.iter().rev().take(12) {
            assert!(a.get(*h) == live.get(&raw(*h)) && a.contains(*h) == live.contains_key(&raw(*h)), "A02: a key gives the value it stands for, or nothing");
        }
    }
    let want: Vec<_> = a.iter().map(|(h, v)| (raw(h), v.clone())).collect();
    assert!(want.iter().cloned().collect::<BTreeMap<_, _>>() == live && want.len() == live.len(), "A02: enumeration gives each live value once");
    drain(s, a.iter(), |(h, v)| (raw(h), v.clone()), &want, "enumeration");
    drain(s, a.iter_mut(), |(h, v)| (raw(h), v.clone()), &want, "mutable enumeration");
    drain(s, (&mut a).into_iter(), |(h, v)| (raw(h), v.clone()), &want, "mutable enumeration");
    if s.below(4) == 0 {
        let mut it = a.iter();
        let n = s.below(want.len() as u32 + 1) as usize;
        for _ in 0..n { it.next(); }
        let rest: Vec<_> = it.clone().map(|(h, v)| (raw(h), v.clone())).collect();
        assert!(rest == want[n..] && it.len() == rest.len(), "A02: a copy of an enumeration goes on where it was");
    }
    // what is written through mutable enumeration
    for (h, v) in &mut a {
        v.push_str(&format!("{:?}", raw(h)));
    }
    for (h, v) in &want {
        assert!(a.get(Index::new(ga::Index::from_raw_parts(h.0, h.1))) == Some(&format!("{}{:?}", v, h)), "A02: what is written through enumeration is written to the value");
    }
    let c = a.clone();
    assert!(c.iter().map(|(h, v)| (raw(h), v.clone())).eq(a.iter().map(|(h, v)| (raw(h), v.clone()))), "A02: a copy holds the same values under the same keys");
    let all: Vec<_> = a.iter().map(|(_, v)| v.clone()).collect();
    if s.bool() {
        drain(s, a.clone().into_iter(), |v| v, &all, "taking an arena apart");
        assert!(a.into_iter().collect::<Vec<_>>() == all, "A02: taking an arena apart gives each live value once");
    } else {
        let g: ga::Arena<String> = a.into();
        assert!(g.iter().map(|(_, v)| v.clone()).collect::<Vec<_>>() == all, "A02: the untyped arena holds the same values");
        assert!(want.iter().all(|(h, _)| g.contains(ga::Index::from_raw_parts(h.0, h.1))), "A02: the untyped arena holds the values under the same keys");
    }
    // keys: equal when they are the same key, ordered and hashed accordingly
    let _ = BTreeSet::from_iter(ever.iter().copied());
    let hs: HashSet<_> = ever.iter().copied().collect();
    assert!(hs.len() == ever.len(), "A02: different keys are different in a set");
}

pub fn a02_keys<S: Src>(s: &mut S) {
    let mut part = |s: &mut S| match s.below(4) { 0 => s.u64(), 1 => u32::MAX as u64 + s.below(3) as u64, _ => s.below(3) as u64 };
    let mut key = |s: &mut S| ga::Index::from_raw_parts(part(s) as usize, part(s));
    let (x, y, z) = (key(s), key(s), key(s));
    let (a, b, c): (Index<String>, Index<String>, Index<String>) = (Index::new(x), Index::new(y), Index::new(z));
    let (ra, rb) = (x.into_raw_parts(), y.into_raw_parts());
    assert!(raw(a) == ra && raw(b) == rb && raw(a.clone()) == ra, "A02: a typed key is the key it was made from");
    assert!((a == b) == (ra == rb) && (a != b) == (ra != rb), "A02: keys are equal exactly when they are the same");
    assert!((ra == rb) == (hash(&a) == hash(&b)), "A02: keys hash alike exactly when they are the same");
    assert!((a < b) == a.cmp(&b).is_lt() && (a <= b) == a.cmp(&b).is_le() && (a > b) == a.cmp(&b).is_gt() && (a >= b) == a.cmp(&b).is_ge(), "A02: the order of keys is an order");
    assert!(a.cmp(&b) == x.cmp(&y), "A02: keys are ordered as the places and generations they stand for");
    assert!(a.partial_cmp(&b) == Some(a.cmp(&b)) && a.cmp(&b) == b.cmp(&a).reverse(), "A02: the order of keys is an order");
    assert!((a.cmp(&b) == std::cmp::Ordering::Equal) == (ra == rb), "A02: the order of keys agrees with their equality");
    assert!(!(a <= b && b <= c) || a <= c, "A02: the order of keys is an order");
    assert!(a.max(b) == (if a > b { a } else { b }) && a.min(b) == (if a > b { b } else { a }), "A02: the order of keys is an order");
}

/// One place used over and over: a key is never given out again, however often.
pub fn a01_wear<S: Src>(s: &mut S) {
    let n = match s.below(12) {
        0..=5 => s.below(40),
        6..=8 => 254 + s.below(5),
        9 => 1 << s.below(14),
        10 => s.below(5000),
        _ => 65534 + s.below(6),
    };
    let mut a: Arena<u32> = Arena::new();
    let others: Vec<_> = (0..s.below(4)).map(|i| a.insert(i)).collect();
    let first = a.insert(0);
    let (mut last, mut seen) = (first, vec![]);
    for i in 1..=n {
        seen.push(last);
        assert!(a.remove(last) == Some(i - 1) && a.remove(last) == None, "A01: a removed value is gone");
        last = a.insert(i);
    }
    for h in &seen {
        assert!(*h != last && !(*h == last), "A01: the handle of a removed value is not that of a later one (after {} uses of its place)", n);
        assert!(a.get(*h).is_none() && !a.contains(*h), "A01: the handle of a removed value resolves to a later one (after {} uses of its place)", n);
    }
    assert!(a.get(last) == Some(&n) && others.iter().enumerate().all(|(i, h)| a.get(*h) == Some(&(i as u32))), "A01: a handle resolves to its value");
    let all: BTreeSet<_> = seen.iter().map(|h| ga::Index::from(*h).into_raw_parts()).collect();
    assert!(all.len() == seen.len(), "A01: a handle was issued twice (after {} uses of its place)", n);
    let set: HashSet<_> = seen.iter().take(300).copied().collect();
    assert!(set.len() == seen.len().min(300) && !set.contains(&last), "A01: a set of handles tells them apart");
}
