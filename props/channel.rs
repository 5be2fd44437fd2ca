//! K01: keyframes and channels.
use crate::float::order;
use crate::model::*;
use crate::on_type;
use crate::src::Src;
use std::cmp::Ordering;
use tp_client::contract::properties::channels::{Channel, Keyframe};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

fn time<S: Src>(s: &mut S) -> f64 {
    match s.below(8) {
        0 => -0.0,
        1 => f64::INFINITY,
        2 => s.below(4) as f64,
        3 => f64::from_bits(s.u64() % 4),
        // closer to each other than one, and far from zero
        4 => 9e15 + s.below(64) as f64,
        5 => 1.0 + s.below(64) as f64 * f64::EPSILON,
        6 => s.i32() as f64 * 1e-3,
        _ => s.f64(),
    }
}

pub fn k01_keyframe<S: Src>(s: &mut S) {
    let t = s.below(28) as usize;
    on_type!(t, T => {
        let v = <T as Data>::make(s);
        let (e, at) = (v.enc(), s.f64());
        let k = Keyframe::new(v, at);
        assert!(k.value().enc() == e, "K01: a keyframe has the value it was made with");
        assert!(k.time().to_bits() == at.to_bits() || (k.time().is_nan() && at.is_nan()), "K01: a keyframe is at the time it was made for");
    })
}

pub fn k01_channel<S: Src>(s: &mut S) {
    let t = s.below(28) as usize;
    on_type!(t, T => {
        let n = match s.below(8) { 0 => s.below(300), 1 => s.below(3), 2 => s.below(5000), _ => s.below(24) };
        let shape = s.below(4);
        let mut given: Vec<(u64, Vec<u8>)> = vec![];
        let mut kfs: Vec<Keyframe<T>> = vec![];
        for i in 0..n {
            let at = match shape { 0 => i as f64, 1 => -(i as f64), _ => time(s) };
            // without times that are not numbers, which have no order
            let at = if at.is_nan() { 0.5 } else { at };
            let v = if n > 300 { <T as Data>::dec(&given.first().map(|g| g.1.clone()).unwrap_or_else(|| <T as Data>::make(s).enc())) } else { <T as Data>::make(s) };
            given.push((at.to_bits(), v.enc()));
            kfs.push(Keyframe::new(v, at));
        }
        let mut c = Channel::new(kfs.into_iter());
        let held = |c: &Channel<T>| c.keyframes().iter().map(|k| (k.time().to_bits(), k.value().enc())).collect::<Vec<_>>();
        let in_order = |c: &Channel<T>| c.keyframes().windows(2).all(|w| order(w[0].time(), w[1].time()) != Some(Ordering::Greater));
        let mut h = held(&c);
        assert!(in_order(&c), "K01: the keyframes of a channel are in the order of their times");
        let before = h.clone();
        let m: Vec<_> = c.keyframes_mut().iter().map(|k| (k.time().to_bits(), k.value().enc())).collect();
        assert!(m == before, "K01: mutable access gives the keyframes of the channel");
        h.sort();
        given.sort();
        assert!(h == given, "K01: a channel holds the keyframes it was made from");
        // what is done through mutable access is done to the channel
        if n > 0 {
            let i = s.below(n) as usize;
            let k = c.keyframes_mut().remove(i);
            let mut want = before.clone();
            want.remove(i);
            assert!(held(&c) == want, "K01: a keyframe removed through mutable access is gone");
            c.keyframes_mut().push(k);
            want.push(before[i].clone());
            assert!(held(&c) == want, "K01: a keyframe added through mutable access is there");
        }
    })
}

pub fn k01_nan<S: Src>(s: &mut S) {
    // times that are not numbers have no place, but no keyframe is lost to them
    let n = s.below(12);
    let given: Vec<(u64, u32)> = (0..n).map(|i| (s.f64().to_bits(), i)).collect();
    let c = Channel::new(given.iter().map(|g| Keyframe::new(g.1, f64::from_bits(g.0))));
    let mut h: Vec<u32> = c.keyframes().iter().map(|k| *k.value()).collect();
    h.sort();
    assert!(h == (0..n).collect::<Vec<_>>(), "K01: a channel holds the keyframes it was made from");
}
