//! E01: the engine's verdicts on collactions. R01: the two baselines of a realm.
use crate::model::*;
use crate::on_type;
use crate::src::Src;
use arena::generational_arena as ga;
use std::time::Duration;
use tp_client::action::property::{ChannelAction, PropertyAction, StateAction};
use tp_client::action::{Action, Collaction};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::{DynStateHandle, StateHandle, StateId};
use tp_client::contract::{Contract, ContractDataHandle};
use tp_client::engine::Engine;
use tp_client::object::ObjectHandle;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;

const BK: [BaselineKind; 2] = [BaselineKind::Main, BaselineKind::Fork];
fn kind(k: usize) -> BaselineKind {
    BK[k]
}

// ---- R01 ----

pub fn r01_access<S: Src>(s: &mut S) {
    let mut r = Realm::new(RealmID::new("r".into()));
    assert!(r.time().ticks().as_millis() == 0, "R01: a new realm's time is zero");
    for k in 0..2 {
        assert!(r.baseline(kind(k)).kind() == kind(k) && r.baseline_mut(kind(k)).kind() == kind(k), "R01: a realm gives the baseline asked for");
        assert!(r.baseline(kind(k)).iter_objects().count() == 0, "R01: a new realm is empty");
    }
    // what is registered and created in one baseline is there and not in the other
    let w = s.below(2) as usize;
    let c = r.baseline_mut(kind(w)).register_contract::<K3>().unwrap();
    assert!(r.baseline(kind(w)).contract_data(c.handle()).is_ok(), "R01: a registered contract is in its baseline");
    assert!(r.baseline(kind(1 - w)).contract_data(c.handle()).is_err(), "R01: registering a contract in one baseline leaves the other alone");
    let n = s.below(4);
    for _ in 0..n {
        r.baseline_mut(kind(w)).object_create(&c, std::iter::empty(), std::iter::empty()).unwrap();
    }
    assert!(r.baseline(kind(w)).iter_objects().count() == n as usize, "R01: objects are in the baseline they were created in");
    assert!(r.baseline(kind(1 - w)).iter_objects().count() == 0, "R01: creating objects in one baseline leaves the other alone");
    let t = s.i32();
    *r.time_mut().ticks_mut() = Ticks::new(t);
    assert!(r.time().ticks().as_millis() == t, "R01: a realm's time is what it was set to");
}

// ---- E01 ----

/// A realm with one object of every type in each baseline; the handles of the object's states are
/// the same in both. `vals[k][t]` is the value in baseline `k`.
struct World {
    realm: Realm,
    objects: [Vec<ObjectHandle>; 2],
    handles: [Vec<Vec<ga::Index>>; 2],
    vals: [Vec<Vec<Vec<u8>>>; 2],
}
fn value<S: Src>(s: &mut S, t: usize) -> Vec<u8> {
    on_type!(t, T => <T as Data>::make(s).enc())
}
fn dynamic(t: usize, e: &[u8]) -> DynTpProperty {
    on_type!(t, T => DynTpProperty::from(<T as Data>::dec(e)))
}
fn world<S: Src>(s: &mut S) -> World {
    let mut w = World {
        realm: Realm::new(RealmID::new("e".into())),
        objects: [vec![], vec![]], handles: [vec![], vec![]], vals: [vec![], vec![]],
    };
    let n = 1 + s.below(2) as usize;
    for k in 0..2 {
        let b = w.realm.baseline_mut(kind(k));
        let c = b.register_contract::<K4>().unwrap();
        for j in 0..n {
            // now and then the same value in both baselines
            let vals: Vec<_> = (0..28)
                .map(|t| if k == 1 && s.below(4) == 0 { w.vals[0][j][t].clone() } else { value(s, t) })
                .collect();
            let states: Vec<_> = (0..28).map(|t| dynamic(t, &vals[t])).collect();
            let channels: Vec<_> = (0..28).map(|t| dyn_channel(t, &vec![])).collect();
            let o = b.object_create(&c, states.into_iter(), channels.into_iter()).unwrap();
            w.handles[k].push((0..28).map(|t| on_type!(t, T => b.bind_state(StateId::<T>::new(t, c.handle()), o).unwrap().into())).collect());
            w.objects[k].push(o);
            w.vals[k].push(vals);
        }
    }
    // an object removed from the fork only: its handles still name states of main
    if s.below(3) == 0 {
        w.realm.baseline_mut(BaselineKind::Fork).object_remove::<K4>(w.objects[1][n - 1]).unwrap();
        w.vals[1].pop();
        w.handles[1].pop();
    }
    // and one in the fork only
    if s.below(3) == 0 {
        w.realm.baseline_mut(BaselineKind::Main).object_remove::<K4>(w.objects[0][0]).unwrap();
        w.vals[0].remove(0);
        w.handles[0].remove(0);
    }
    w
}
fn state_handle(t: usize, h: ga::Index) -> DynStateHandle {
    on_type!(t, T => DynStateHandle::from(StateHandle::<T>::new(h)))
}
/// What the fork holds under this handle.
fn in_fork(w: &World, t: usize, h: ga::Index) -> Option<&Vec<u8>> {
    w.handles[1].iter().zip(&w.vals[1]).find(|(hs, _)| hs[t] == h).map(|(_, v)| &v[t])
}
/// What was asked: an assertion or a write, the handle's type and index, the data's type and value.
#[derive(Clone, PartialEq, Debug)]
enum Ask {
    Assert(usize, ga::Index, usize, Vec<u8>),
    Write(usize, ga::Index, usize, Vec<u8>),
    ChannelAssert(usize, ga::Index, usize, Vec<u8>),
    ChannelWrite(usize, ga::Index, usize, Vec<u8>),
}
fn action(a: &Ask) -> Action {
    match a {
        Ask::Assert(t, h, u, e) => Action::Property(PropertyAction::State(StateAction::Assert { handle: state_handle(*t, *h), data: dynamic(*u, e) })),
        Ask::Write(t, h, u, e) => Action::Property(PropertyAction::State(StateAction::Write { handle: state_handle(*t, *h), data: dynamic(*u, e) })),
        Ask::ChannelAssert(t, h, u, e) => Action::Property(PropertyAction::Channel(ChannelAction::Assert { handle: dyn_channel_handle(*t, *h), data: dynamic(*u, e) })),
        Ask::ChannelWrite(t, h, u, e) => Action::Property(PropertyAction::Channel(ChannelAction::Write { handle: dyn_channel_handle(*t, *h), data: dynamic(*u, e) })),
    }
}
/// The type number and index of a dynamic handle.
fn parts(h: DynStateHandle) -> (usize, ga::Index) {
    use tp_client::contract::properties::states::dyn_handle::{DynStateHandlePrimitive as A, DynStateHandleVec as V};
    match h {
        DynStateHandle::Primitive(p) => match p {
            A::U8(x) => (0, x.into()), A::U16(x) => (1, x.into()), A::U32(x) => (2, x.into()), A::U64(x) => (3, x.into()), A::I8(x) => (4, x.into()), A::I16(x) => (5, x.into()), A::I32(x) => (6, x.into()), A::I64(x) => (7, x.into()), A::Bool(x) => (8, x.into()), A::F32(x) => (9, x.into()), A::F64(x) => (10, x.into()), A::String(x) => (11, x.into()), A::ObjectHandle(x) => (12, x.into()), A::ContractDataHandle(x) => (13, x.into()),
        },
        DynStateHandle::Vec(p) => match p {
            V::U8(x) => (14, x.into()), V::U16(x) => (15, x.into()), V::U32(x) => (16, x.into()), V::U64(x) => (17, x.into()), V::I8(x) => (18, x.into()), V::I16(x) => (19, x.into()), V::I32(x) => (20, x.into()), V::I64(x) => (21, x.into()), V::Bool(x) => (22, x.into()), V::F32(x) => (23, x.into()), V::F64(x) => (24, x.into()), V::String(x) => (25, x.into()), V::ObjectHandle(x) => (26, x.into()), V::ContractDataHandle(x) => (27, x.into()),
        },
    }
}
/// What an action that comes back asks.
fn asked(a: &Action) -> Option<Ask> {
    let val = |d: &DynTpProperty| enc_ref(&d.into());
    match a {
        Action::Property(PropertyAction::State(StateAction::Assert { handle, data })) => {
            let (u, e) = val(data);
            let (t, h) = parts(*handle);
            Some(Ask::Assert(t, h, u, e))
        }
        Action::Property(PropertyAction::State(StateAction::Write { handle, data })) => {
            let (u, e) = val(data);
            let (t, h) = parts(*handle);
            Some(Ask::Write(t, h, u, e))
        }
        _ => None,
    }
}
/// Whether the action is accepted by the fork as it is.
fn accepted(w: &World, a: &Ask) -> bool {
    match a {
        Ask::Assert(t, h, u, e) => match in_fork(w, *t, *h) {
            Some(v) => t == u && on_type!(*t, T => <T as Data>::dec(v) == <T as Data>::dec(e)),
            None => false,
        },
        Ask::Write(t, h, _, _) => in_fork(w, *t, *h).is_some(),
        _ => true,
    }
}
/// Mostly assertions that hold, or fail in one way: another value, another type, main's value, no such state.
fn ask<S: Src>(s: &mut S, w: &World) -> Ask {
    let t = s.below(28) as usize;
    let fork = &w.vals[1];
    let route = s.below(24);
    if route >= 22 || (route < 12 && fork.is_empty()) {
        let h = ga::Index::from_raw_parts(s.below(6) as usize, s.below(6) as u64);
        let u = if s.bool() { t } else { s.below(28) as usize };
        let e = value(s, u);
        return match s.below(3) {
            0 => Ask::ChannelAssert(t, h, u, e),
            1 => Ask::ChannelWrite(t, h, u, e),
            // writing a state that is there is not implemented
            _ if in_fork(w, t, h).is_none() => Ask::Write(t, h, t, value(s, t)),
            _ => Ask::Assert(t, h, u, e),
        };
    }
    let pick = |s: &mut S, n: usize| s.below(n as u32) as usize;
    if route < 14 && !fork.is_empty() {
        let j = pick(s, fork.len());
        return Ask::Assert(t, w.handles[1][j][t], t, fork[j][t].clone());
    }
    match route {
        14 | 15 if !fork.is_empty() => {
            let j = pick(s, fork.len());
            Ask::Assert(t, w.handles[1][j][t], t, value(s, t))
        }
        16 if !fork.is_empty() => {
            let (j, u) = (pick(s, fork.len()), s.below(28) as usize);
            Ask::Assert(t, w.handles[1][j][t], u, fork[j][u].clone())
        }
        17 | 18 if !w.vals[0].is_empty() => {
            let j = pick(s, w.vals[0].len());
            Ask::Assert(t, w.handles[0][j][t], t, w.vals[0][j][t].clone())
        }
        _ => Ask::Assert(t, ga::Index::from_raw_parts(s.below(6) as usize, s.below(6) as u64), t, value(s, t)),
    }
}
/// Both baselines hold what they held.
fn unchanged(w: &World, r: &Realm) {
    for k in 0..2 {
        for (hs, vs) in w.handles[k].iter().zip(&w.vals[k]) {
            for t in 0..28 {
                let got = on_type!(t, T => r.baseline(kind(k)).state(StateHandle::<T>::new(hs[t])).ok().map(|x| x.value.enc()));
                assert!(got.as_ref() == Some(&vs[t]), "E01: deciding on a collaction of assertions changes no state");
            }
        }
    }
}

/// Collactions are decided in the order they were sent, each by all its actions against the fork.
pub fn e01_verdicts<S: Src>(s: &mut S) {
    let mut w = world(s);
    let realm = std::mem::replace(&mut w.realm, Realm::new(RealmID::new("x".into())));
    let (mut engine, sender) = Engine::new(realm, if s.bool() { None } else { Some(8) });
    let asks: Vec<Vec<Ask>> = (0..1 + s.below(3)).map(|_| (0..s.below(6)).map(|_| ask(s, &w)).collect()).collect();
    for a in &asks {
        assert!(sender.try_send(Collaction::from_actions(a.iter().map(action).collect())).is_ok(), "E01: a queue that is not full accepts a collaction");
    }
    if s.bool() {
        // closing the queue loses nothing that is in it
        drop(sender);
    }
    let t = s.i32();
    engine.tick(Ticks::new(t));
    for a in &asks {
        let r = if s.bool() { engine.try_apply().ok() } else { engine.apply_timeout(Duration::from_secs(5)).ok() };
        let r = r.expect("E01: a pending collaction is decided");
        let want = a.iter().all(|x| accepted(&w, x));
        assert!(r.is_ok() == want, "E01: a collaction is accepted exactly when each of its actions is: {:?} should be {}", a, want);
        let c = r.unwrap_or_else(|c| c);
        assert!(c.actions().len() == a.len(), "E01: a decided collaction comes back whole");
        for (x, y) in c.actions().iter().zip(a) {
            if let Some(x) = asked(x) {
                assert!(x == *y, "E01: a decided collaction comes back as it was sent");
            } else {
                assert!(matches!(y, Ask::ChannelAssert(..) | Ask::ChannelWrite(..)), "E01: a decided collaction comes back as it was sent");
            }
        }
        unchanged(&w, engine.realm());
    }
    assert!(engine.try_apply().is_err(), "E01: no collaction is decided twice");
    assert!(engine.apply_timeout(Duration::ZERO).is_err(), "E01: no collaction is decided twice");
    unchanged(&w, engine.realm());
    assert!(engine.realm().time().ticks().as_millis() == t, "E01: deciding collactions leaves the realm's time alone");
}
/// A bounded queue takes as many collactions as it has places.
pub fn e01_capacity<S: Src>(s: &mut S) {
    let cap = if s.below(4) == 0 { None } else { Some(s.below(6) as usize) };
    let (mut engine, sender) = Engine::new(Realm::new(RealmID::new("c".into())), cap);
    let n = s.below(12) as usize;
    let mut inside = 0;
    for _ in 0..n {
        if s.below(4) == 0 {
            assert!(engine.try_apply().is_ok() == (inside > 0), "E01: a collaction is decided exactly when one is pending");
            inside = usize::saturating_sub(inside, 1);
        } else {
            let room = cap.map_or(true, |c| inside < c);
            assert!(sender.try_send(Collaction::from_actions(vec![])).is_ok() == room, "E01: a queue accepts collactions until it is full");
            inside += room as usize;
        }
    }
}
/// The realm's clock advances by what it is told.
pub fn e01_tick<S: Src>(s: &mut S) {
    let (mut engine, _sender) = Engine::new(Realm::new(RealmID::new("t".into())), Some(1));
    let mut now = 0i64;
    for _ in 0..1 + s.below(4) {
        let d = s.i32();
        engine.tick(Ticks::new(d));
        now = (now + d as i64).clamp(i32::MIN as i64, i32::MAX as i64);
        assert!(engine.realm().time().ticks().as_millis() as i64 == now, "E01: a tick advances the realm's time by as much");
    }
    for k in 0..2 {
        assert!(engine.realm().baseline(kind(k)).iter_objects().count() == 0 && engine.realm_mut().baseline_mut(kind(k)).kind() == kind(k), "E01: the engine gives its realm");
    }
}
