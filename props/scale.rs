//! The same promises as in model.rs, with many objects and many contracts at once.
use crate::model::*;
use crate::src::Src;
use arena::generational_arena as ga;
use std::any::TypeId;
use std::collections::{BTreeMap, BTreeSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{ChannelId, IChannels};
use tp_client::contract::properties::dynamic::{DynTpProperty, TpPropertyType};
use tp_client::contract::properties::states::{IStates, StateHandle, StateId};
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

fn raw<T>(h: arena::Index<T>) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}
fn count<S: Src>(s: &mut S) -> u32 {
    match s.below(8) {
        0 => 250 + s.below(12),
        1 => s.below(3000),
        2 => 1 << s.below(13),
        3 => (1 << s.below(12)) + 1,
        _ => s.below(80),
    }
}
struct O { handle: ObjectHandle, a: u8, b: String, sh: (StateHandle<u8>, StateHandle<String>), ch: ga::Index }

fn make<S: Src>(s: &mut S, bl: &mut Baseline, c: &K0, n: u32, fresh: &mut u32) -> Vec<O> {
    let mut out = vec![];
    let alike = s.below(4) == 0;
    for _ in 0..n {
        *fresh += 1;
        let (a, b) = if alike { (7, "the same for all of them".to_string()) } else { (*fresh as u8, format!("text number {}", fresh)) };
        let st: Vec<DynTpProperty> = vec![a.into(), b.clone().into()];
        let frames = vec![((*fresh as f32).enc(), 1.0f64.to_bits())];
        let h = bl.object_create(c, st.into_iter(), vec![dyn_channel(9, &frames)].into_iter());
        let Ok(h) = h else { panic!("O01: creating object number {} failed", out.len()) };
        let ch = c.handle();
        let sh = (bl.bind_state(StateId::<u8>::new(0, ch), h).unwrap(), bl.bind_state(StateId::<String>::new(1, ch), h).unwrap());
        let chh = bl.bind_channel(ChannelId::<f32>::new(0, ch), h).unwrap();
        out.push(O { handle: h, a, b, sh, ch: chh.into() });
    }
    out
}
/// everything about the objects: the properties are named by the caller
fn look(bl: &Baseline, c: ContractDataHandle, os: &[O], gone: &[O], what: &str) {
    let want: BTreeSet<_> = os.iter().map(|o| raw(o.handle)).collect();
    assert!(want.len() == os.len(), "{}: two objects share a handle", what);
    let d = bl.contract_data(c).unwrap().objects();
    assert!(d.len() == os.len() && d.iter().map(|o| raw(*o)).collect::<BTreeSet<_>>() == want, "{}: the contract lists {} objects, there are {}", what, d.len(), os.len());
    let it: Vec<_> = bl.iter_objects().map(|(h, _)| raw(h)).collect();
    assert!(it.len() == os.len() && it.into_iter().collect::<BTreeSet<_>>() == want, "{}: the objects are not the ones created", what);
    let (mut s0, mut s1, mut cs) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for o in os {
        assert!(bl.object(o.handle).is_ok(), "{}: an object is gone", what);
        assert!(bl.state(o.sh.0).map(|x| x.value) == Ok2(o.a) && bl.state(o.sh.1).map(|x| x.value.clone()) == Ok2(o.b.clone()), "{}: a state of an object is not what it was given", what);
        assert!(s0.insert(raw(o.sh.0)) && s1.insert(raw(o.sh.1)) && cs.insert(o.ch.into_raw_parts()), "{}: two objects share a field", what);
        assert!(channel_there(bl, o.ch), "{}: a channel is gone", what);
    }
    for o in gone {
        assert!(bl.object(o.handle).is_err(), "{}: a removed object is still there", what);
        assert!(bl.state(o.sh.0).is_err() && bl.state(o.sh.1).is_err(), "{}: a state of a removed object is still there", what);
        assert!(!channel_there(bl, o.ch), "{}: a channel of a removed object is still there", what);
    }
}
fn channel_there(bl: &Baseline, h: ga::Index) -> bool {
    let h: tp_client::contract::properties::channels::ChannelHandle<f32> = arena::Index::new(h);
    bl.channel(h).is_ok()
}
#[allow(non_snake_case)]
struct Ok2<T>(T);
impl<T: PartialEq, E> PartialEq<Ok2<T>> for Result<T, E> {
    fn eq(&self, o: &Ok2<T>) -> bool {
        matches!(self, Ok(x) if *x == o.0)
    }
}

fn many<S: Src>(s: &mut S, p: &str) {
    let mut bl = Baseline::new(BaselineKind::Main);
    let c = bl.register_contract::<K0>().unwrap();
    let mut fresh = 0;
    let n = count(s);
    let mut os = make(s, &mut bl, &c, n, &mut fresh);
    let mut gone: Vec<O> = vec![];
    look(&bl, c.handle(), &os, &gone, p);
    for _ in 0..s.below(3) {
        // remove some, in some order
        let k = if os.is_empty() { 0 } else { s.below(os.len() as u32 + 1) };
        let way = s.below(4);
        for _ in 0..k {
            let i = match way { 0 => 0, 1 => os.len() - 1, 2 => os.len() / 2, _ => (fresh as usize * 7919) % os.len() };
            let o = os.remove(i);
            assert!(bl.object_remove::<K0>(o.handle).is_ok(), "{}: removing an object failed", p);
            gone.push(o);
        }
        look(&bl, c.handle(), &os, &gone, p);
        let n = s.below(n + 2);
        os.extend(make(s, &mut bl, &c, n, &mut fresh));
        look(&bl, c.handle(), &os, &gone, p);
    }
    // write one
    if !os.is_empty() {
        let i = s.below(os.len() as u32) as usize;
        if let Ok(x) = bl.state_mut(os[i].sh.1) { x.value = "written".into(); }
        if let Ok(x) = bl.state_mut(os[i].sh.0) { x.value = 99; }
        os[i].a = 99;
        os[i].b = "written".into();
        look(&bl, c.handle(), &os, &gone, p);
    }
    if s.bool() {
        assert!(bl.unregister_contract::<K0>(c.handle()).is_ok(), "{}: unregistering failed", p);
        gone.extend(os);
        assert!(bl.contract_data(c.handle()).is_err(), "{}: an unregistered contract is still there", p);
        let again = bl.register_contract::<K0>();
        assert!(again.is_ok(), "{}: an unregistered contract cannot be registered again", p);
        look(&bl, again.unwrap().handle(), &[], &gone, p);
    }
}
macro_rules! manys { ($($name:ident $p:literal;)*) => { $(pub fn $name<S: Src>(s: &mut S) { many(s, $p) })* } }
manys! { c02_many "C02"; o02_many "O02"; o03_many "O03"; s01_many "S01"; a01_many "A01"; }

// ---- many contracts ----

pub struct Kn<const N: usize>(ContractDataHandle);
pub struct NoFields;
impl IStates for NoFields {
    fn type_ids() -> &'static [TypeId] { &[] }
    fn enumerate_types() -> &'static [TpPropertyType] { &[] }
    fn field_names() -> &'static [&'static str] { &[] }
}
impl IChannels for NoFields {
    fn type_ids() -> &'static [TypeId] { &[] }
    fn enumerate_types() -> &'static [TpPropertyType] { &[] }
    fn field_names() -> &'static [&'static str] { &[] }
}
const NAMES: [&str; 32] = ["", "a", "A", "ab", "alpha", "com.example.a", "com.example", "\u{e9}", "a ", " a", "a\0", "e\u{301}", "a1", "a10", "com_example", "COM.EXAMPLE", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac", "baaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "example.com", "com.example.", "ball", "Ball", "ba\u{a0}ll", "com/example", "com.example.A", "com.example.b", "a.b", "b.a", "\u{c9}", "1"];
const VERSIONS: [(u16, u16, u16); 8] = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 256), (256, 0, 0), (u16::MAX, 0, 0), (10, 1, 0)];
impl<const N: usize> Contract for Kn<N> {
    type States = NoFields;
    type Channels = NoFields;
    const ID: ContractId = ContractId {
        // 32 names in one version, then 4 names in 8 versions
        name: NAMES[if N < 32 { N } else { (N - 32) / 8 * 4 }],
        version: if N < 32 { (1, 2, 3) } else { VERSIONS[N % 8] },
    };
    fn new(handle: ContractDataHandle) -> Self { Kn(handle) }
    fn states(&self) -> &Self::States { &NoFields }
    fn channels(&self) -> &Self::Channels { &NoFields }
    fn handle(&self) -> ContractDataHandle { self.0 }
}
type Reg = fn(&mut Baseline) -> Option<ContractDataHandle>;
type Unreg = fn(&mut Baseline, ContractDataHandle) -> bool;
type Obj = fn(&mut Baseline, ContractDataHandle) -> Option<ObjectHandle>;
fn reg<const N: usize>(b: &mut Baseline) -> Option<ContractDataHandle> { b.register_contract::<Kn<N>>().ok().map(|c| c.handle()) }
fn unreg<const N: usize>(b: &mut Baseline, h: ContractDataHandle) -> bool { b.unregister_contract::<Kn<N>>(h).is_ok() }
fn obj<const N: usize>(b: &mut Baseline, h: ContractDataHandle) -> Option<ObjectHandle> { b.object_create(&Kn::<N>(h), std::iter::empty(), std::iter::empty()).ok() }
type Rem = fn(&mut Baseline, ObjectHandle) -> bool;
fn rem<const N: usize>(b: &mut Baseline, h: ObjectHandle) -> bool { b.object_remove::<Kn<N>>(h).is_ok() }
type Row = (Reg, Unreg, Obj, ContractId, Rem);
macro_rules! table { ($($n:literal)*) => { [$(eight!($n)),*] } }
macro_rules! eight {
    ($n:literal) => { [Kn::<{ $n * 8 }>::ROW, Kn::<{ $n * 8 + 1 }>::ROW, Kn::<{ $n * 8 + 2 }>::ROW, Kn::<{ $n * 8 + 3 }>::ROW, Kn::<{ $n * 8 + 4 }>::ROW, Kn::<{ $n * 8 + 5 }>::ROW, Kn::<{ $n * 8 + 6 }>::ROW, Kn::<{ $n * 8 + 7 }>::ROW] };
}
impl<const N: usize> Kn<N> { const ROW: Row = (reg::<N> as Reg, unreg::<N> as Unreg, obj::<N> as Obj, Self::ID, rem::<N> as Rem); }
static KN: [[Row; 8]; 8] = table!(0 1 2 3 4 5 6 7);
fn kn(k: usize) -> &'static Row {
    &KN[k / 8][k % 8]
}

/// What breaks a promise of another property ends the run.
macro_rules! must { ($own:literal, $c:expr, $msg:literal, $p:ident $(, $x:expr)*) => { if !$c { if $own.contains($p) { panic!($msg, $p $(, $x)*) } return; } } }
fn contracts<S: Src>(s: &mut S, p: &str) {
    let mut b = Baseline::new(BaselineKind::Fork);
    let mut live: BTreeMap<usize, (ContractDataHandle, BTreeSet<(usize, u64)>)> = BTreeMap::new();
    let mut dead = vec![];
    // which contracts: any, those of one version, or those of four names
    let only = s.below(3);
    let few = if s.bool() { 1 + s.below(12) as usize } else { 64 };
    let pool: Vec<usize> = (0..few).map(|_| s.below(64) as usize).map(|k| match only { 0 => k, 1 => k % 32, _ => 32 + k % 32 }).collect();
    let steps = if s.below(8) == 0 { 500 } else { 90 };
    for _ in 0..4 + s.below(steps) {
        let k = pool[s.below(few as u32) as usize];
        let r = kn(k).0(&mut b);
        must!("C01", r.is_some() == !live.contains_key(&k), "{}: registering {:?} gave {}", p, kn(k).3, r.is_some());
        if let Some(h) = r {
            must!("C01", live.values().all(|l| raw(l.0) != raw(h)) && dead.iter().all(|d| *d != raw(h)), "{}: a contract handle was issued twice", p);
            live.insert(k, (h, BTreeSet::new()));
        }
        for _ in 0..s.below(3) {
            // through its own type, or through another's
            let t = if s.below(4) == 0 { pool[s.below(few as u32) as usize] } else { k };
            let o = kn(t).2(&mut b, live[&k].0);
            must!("O01", o.is_some() == (t == k), "{}: creating an object of {:?} as {:?} gave {}", p, kn(k).3, kn(t).3, o.is_some());
            if let Some(o) = o {
                must!("O01", live.get_mut(&k).unwrap().1.insert(raw(o)), "{}: an object handle was issued twice", p);
            }
        }
        if s.below(3) == 0 && !live[&k].1.is_empty() {
            let t = if s.bool() { pool[s.below(few as u32) as usize] } else { k };
            let os: Vec<_> = live[&k].1.iter().copied().collect();
            let o = os[s.below(os.len() as u32) as usize];
            let r = kn(t).4(&mut b, arena::Index::new(ga::Index::from_raw_parts(o.0, o.1)));
            must!("O03", r == (t == k), "{}: removing an object of {:?} as {:?} gave {}", p, kn(k).3, kn(t).3, r);
            if r { live.get_mut(&k).unwrap().1.remove(&o); }
        }
        if s.below(3) == 0 {
            // unregister one through its own type, or through another's
            let ks: Vec<_> = live.keys().copied().collect();
            let (j, t) = (ks[s.below(ks.len() as u32) as usize], if s.bool() { None } else { Some(pool[s.below(few as u32) as usize]) });
            let t = t.unwrap_or(j);
            let h = live[&j].0;
            let r = kn(t).1(&mut b, h);
            must!("C02", r == (t == j), "{}: unregistering {:?} as {:?} gave {}", p, kn(j).3, kn(t).3, r);
            if r { live.remove(&j); dead.push(raw(h)); }
        }
    }
    let all: BTreeSet<_> = b.iter_objects().map(|(h, _)| raw(h)).collect();
    let mut want = BTreeSet::new();
    for (k, (h, os)) in &live {
        let d = b.contract_data(*h);
        must!("C01 C02", d.is_ok(), "{}: a registered contract is gone", p);
        let d = d.unwrap();
        must!("C01 C02", d.id() == kn(*k).3, "{}: contract {:?} reads as {:?}", p, kn(*k).3, d.id());
        must!("C02 O03", &d.objects().iter().map(|o| raw(*o)).collect::<BTreeSet<_>>() == os, "{}: a contract does not list its objects", p);
        want.extend(os.iter().copied());
    }
    must!("C02 O03", all == want, "{}: the objects are not those of the registered contracts", p);
    for d in &dead {
        let h: ContractDataHandle = arena::Index::new(ga::Index::from_raw_parts(d.0, d.1));
        must!("C01 C02", b.contract_data(h).is_err(), "{}: the handle of an unregistered contract resolves", p);
    }
}
pub fn c01_contracts<S: Src>(s: &mut S) { contracts(s, "C01") }
pub fn c02_contracts<S: Src>(s: &mut S) { contracts(s, "C02") }
pub fn o01_contracts<S: Src>(s: &mut S) { contracts(s, "O01") }
pub fn o03_contracts<S: Src>(s: &mut S) { contracts(s, "O03") }
