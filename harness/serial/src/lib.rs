//! C24: a store, serialised and read back.
#![allow(clippy::all, dead_code)]
use flatbuffers::FlatBufferBuilder;
use symapi::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty};
use tp_client::contract::{states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_serialize::{Deserializer, DeserializerBuilder, Serializer};

macro_rules! contract {
    ($k:ident, $s:ident, $id:literal, $v:expr, { $($f:ident: $t:ty),* $(,)? }) => {
        #[states]
        pub struct $s { $($f: $t),* }
        contract!(@rest $k, $s, $id, $v, |h| $s::new(h));
    };
    (@rest $k:ident, $s:ty, $id:literal, $v:expr, |$h:ident| $new:expr) => {
        pub struct $k { h: ContractDataHandle, s: $s }
        impl Contract for $k {
            type States = $s;
            type Channels = ();
            const ID: ContractId = ContractId { name: $id, version: $v };
            fn new($h: ContractDataHandle) -> Self { $k { h: $h, s: $new } }
            fn states(&self) -> &$s { &self.s }
            fn channels(&self) -> &() { &() }
            fn handle(&self) -> ContractDataHandle { self.h }
        }
    };
}
contract!(Wide, WideStates, "test.wide", (1, 2, 3), {
    tag: u32, a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: bool, j: f32, k: f64, l: String, m: ObjectHandle, n: ContractDataHandle,
});
contract!(Link, LinkStates, "test.link", (0, 0, 1), {
    tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ObjectHandle,
});
contract!(@rest Empty, (), "test.empty", (0, 0, 0), |_h| ());
// Nearly Link
contract!(LinkMajor, LinkMajorStates, "test.link", (1, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ObjectHandle });
contract!(LinkMinor, LinkMinorStates, "test.link", (0, 1, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ObjectHandle });
contract!(LinkPatch, LinkPatchStates, "test.link", (0, 0, 0), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ObjectHandle });
contract!(LinkName, LinkNameStates, "test.linK", (0, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ObjectHandle });
contract!(LinkField, LinkFieldStates, "test.link", (0, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, othes: ObjectHandle });
contract!(LinkType, LinkTypeStates, "test.link", (0, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: i16, other: ObjectHandle });
contract!(LinkLast, LinkLastStates, "test.link", (0, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ContractDataHandle });
contract!(LinkLess, LinkLessStates, "test.link", (0, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16 });
contract!(LinkMore, LinkMoreStates, "test.link", (0, 0, 1), { tag: u32, next: ObjectHandle, of: ContractDataHandle, v: u16, other: ObjectHandle, w: u8 });
contract!(LinkOrder, LinkOrderStates, "test.link", (0, 0, 1), { tag: u32, other: ObjectHandle, of: ContractDataHandle, v: u16, next: ObjectHandle });
contract!(@rest LinkNone, (), "test.link", (0, 0, 1), |_h| ());
contract!(Lone, LoneStates, "test.lone", (0, 0, 1), { tag: u32 });

const WIDE: usize = 0;
const LINK: usize = 1;
const EMPTY: usize = 2;
struct Ks {
    wide: Option<Wide>,
    link: Option<Link>,
    empty: Option<Empty>,
}
impl Ks {
    fn handle(&self, kind: usize) -> Option<ContractDataHandle> {
        match kind {
            WIDE => self.wide.as_ref().map(|k| k.handle()),
            LINK => self.link.as_ref().map(|k| k.handle()),
            _ => self.empty.as_ref().map(|k| k.handle()),
        }
    }
    fn kind(&self, h: ContractDataHandle) -> usize {
        (0..3).find(|k| self.handle(*k) == Some(h)).unwrap_or(9)
    }
}
fn register(b: &mut Baseline) -> Ks {
    Ks { wide: Some(b.register_contract().unwrap()), link: Some(b.register_contract().unwrap()), empty: Some(b.register_contract().unwrap()) }
}
#[derive(Clone)]
enum F {
    Bits(u64),
    Str(Vec<u8>),
    Obj(ObjectHandle),
    Con(ContractDataHandle),
}
struct Rec {
    h: ObjectHandle,
    kind: usize,
    f: Vec<F>,
}
/// Everything in a store.
fn snapshot(b: &Baseline, ks: &Ks) -> Vec<Rec> {
    let mut out = vec![];
    for (h, o) in b.iter_objects() {
        let kind = ks.kind(o.contract());
        let mut f = vec![];
        macro_rules! get {
            ($k:ident $f:ident) => { b.state(b.bind_state(ks.$k.as_ref().unwrap().states().$f(), h).unwrap()).unwrap().value };
            (ref $k:ident $f:ident) => { &b.state(b.bind_state(ks.$k.as_ref().unwrap().states().$f(), h).unwrap()).unwrap().value };
        }
        match kind {
            WIDE => {
                f.push(F::Bits(get!(wide tag) as u64));
                f.push(F::Bits(get!(wide a) as u64));
                f.push(F::Bits(get!(wide b) as u64));
                f.push(F::Bits(get!(wide c) as u64));
                f.push(F::Bits(get!(wide d)));
                f.push(F::Bits(get!(wide e) as u64));
                f.push(F::Bits(get!(wide f) as u64));
                f.push(F::Bits(get!(wide g) as u64));
                f.push(F::Bits(get!(wide h) as u64));
                f.push(F::Bits(get!(wide i) as u64));
                f.push(F::Bits(get!(wide j).to_bits() as u64));
                f.push(F::Bits(get!(wide k).to_bits()));
                f.push(F::Str(get!(ref wide l).as_bytes().to_vec()));
                f.push(F::Obj(get!(wide m)));
                f.push(F::Con(get!(wide n)));
            }
            LINK => {
                f.push(F::Bits(get!(link tag) as u64));
                f.push(F::Obj(get!(link next)));
                f.push(F::Con(get!(link of)));
                f.push(F::Bits(get!(link v) as u64));
                f.push(F::Obj(get!(link other)));
            }
            EMPTY => {}
            _ => check(false, "every object belongs to one of the contracts"),
        }
        let listed = b.contract_data(o.contract()).map_or(false, |d| d.objects().contains(&h));
        check(listed, "every object is listed by its contract");
        out.push(Rec { h, kind, f });
    }
    for k in 0..3 {
        if let Some(h) = ks.handle(k) {
            let n = out.iter().filter(|r| r.kind == k).count();
            check(b.contract_data(h).map_or(false, |d| d.objects().len() == n), "a contract lists just its objects");
        }
    }
    out
}
/// The second store has the same content as the first.
fn same(a: &[Rec], ka: &Ks, b: &[Rec], kb: &Ks) {
    for k in 0..3 {
        let n = |x: &[Rec]| x.iter().filter(|r| r.kind == k).count();
        check(n(a) == n(b), "as many objects of each contract");
    }
    check(a.len() == b.len(), "as many objects");
    // objects of the same tag correspond; untagged ones as the references say, one to one
    let mut pairs: Vec<(ObjectHandle, ObjectHandle)> = vec![];
    for x in a {
        if let Some(F::Bits(t)) = x.f.first() {
            let mut hits = 0;
            for y in b {
                if y.kind == x.kind && matches!(y.f.first(), Some(F::Bits(u)) if u == t) {
                    hits += 1;
                    pairs.push((x.h, y.h));
                }
            }
            check(hits == 1, "every object is there once");
        }
    }
    let tagged = pairs.len();
    for i in 0..tagged {
        let x = a.iter().find(|r| r.h == pairs[i].0).unwrap();
        let y = b.iter().find(|r| r.h == pairs[i].1).unwrap();
        check(x.f.len() == y.f.len(), "as many fields");
        let mut equal = true;
        for (p, q) in x.f.iter().zip(&y.f) {
            match (p, q) {
                (F::Bits(p), F::Bits(q)) => equal &= p == q,
                (F::Str(p), F::Str(q)) => {
                    check(p.len() == q.len(), "a text is as long as it was");
                    for (p, q) in p.iter().zip(q) {
                        equal &= p == q;
                    }
                }
                (F::Con(p), F::Con(q)) => {
                    check(ka.kind(*p) == kb.kind(*q), "a field refers to the same contract");
                }
                (F::Obj(p), F::Obj(q)) => match pairs.iter().find(|r| r.0 == *p || r.1 == *q) {
                    Some(r) => check(r.0 == *p && r.1 == *q, "a field refers to the same object"),
                    None => {
                        let kind = b.iter().find(|r| r.h == *q).map_or(9, |r| r.kind);
                        check(a.iter().find(|r| r.h == *p).map_or(8, |r| r.kind) == kind, "a field refers to the same object");
                        pairs.push((*p, *q));
                    }
                },
                _ => check(false, "a field keeps its type"),
            }
        }
        check(equal, "a field has the same value");
    }
}
fn prop<T>(v: T) -> DynTpProperty
where
    DynTpPrimitive: From<T>,
{
    DynTpProperty::Primitive(v.into())
}
/// A text of up to two bytes.
fn text() -> String {
    let mut v = vec![];
    match choose(4) {
        3 => {
            let (x, y): (u8, u8) = (any(), any());
            assume(x >= 0xc2 && x < 0xe0 && y & 0xc0 == 0x80);
            v.extend([x, y]);
        }
        n => {
            for _ in 0..n {
                let x: u8 = any();
                assume(x < 0x80);
                v.push(x);
            }
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn wide(b: &mut Baseline, ks: &Ks, tag: u32, m: ObjectHandle, n: ContractDataHandle, l: String) -> ObjectHandle {
    let f = [
        prop(tag),
        prop(any::<u8>()),
        prop(any::<u16>()),
        prop(any::<u32>()),
        prop(any::<u64>()),
        prop(any::<i8>()),
        prop(any::<i16>()),
        prop(any::<i32>()),
        prop(any::<i64>()),
        prop(any::<bool>()),
        prop(any::<f32>()),
        prop(any::<f64>()),
        prop(l),
        prop(m),
        prop(n),
    ];
    b.object_create(ks.wide.as_ref().unwrap(), f.into_iter(), [].into_iter()).unwrap()
}
fn link(b: &mut Baseline, ks: &Ks, tag: u32, next: ObjectHandle, of: ContractDataHandle, other: ObjectHandle) -> ObjectHandle {
    let f = [prop(tag), prop(next), prop(of), prop(any::<u16>()), prop(other)];
    b.object_create(ks.link.as_ref().unwrap(), f.into_iter(), [].into_iter()).unwrap()
}
fn empty(b: &mut Baseline, ks: &Ks) -> ObjectHandle {
    b.object_create(ks.empty.as_ref().unwrap(), [].into_iter(), [].into_iter()).unwrap()
}
fn point(b: &mut Baseline, ks: &Ks, from: ObjectHandle, next: ObjectHandle, other: ObjectHandle) {
    let k = ks.link.as_ref().unwrap();
    let h = b.bind_state(k.states().next(), from).unwrap();
    b.state_mut(h).unwrap().value = next;
    let h = b.bind_state(k.states().other(), from).unwrap();
    b.state_mut(h).unwrap().value = other;
}
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [2, 1, 0], [1, 0, 2], [0, 2, 1], [1, 2, 0], [2, 0, 1]];
fn write(b: &Baseline, ks: &Ks, order: &[usize]) -> Vec<u8> {
    let mut s = Serializer::new(FlatBufferBuilder::new(), b);
    for k in order {
        let r = match *k {
            WIDE => s.serialize(ks.wide.as_ref().unwrap()),
            LINK => s.serialize(ks.link.as_ref().unwrap()),
            _ => s.serialize(ks.empty.as_ref().unwrap()),
        };
        check(r.is_ok(), "a contract and its objects are serialised");
    }
    s.finish().finished_data().to_vec()
}
fn open<'a>(d: &'a [u8], kind: BaselineKind, order: &[usize]) -> (Deserializer<'a>, Ks) {
    let mut b = match DeserializerBuilder::new(d, kind) {
        Ok(b) => b,
        Err(_) => panic!("what was serialised is accepted"),
    };
    let mut ks = Ks { wide: None, link: None, empty: None };
    for k in order {
        match *k {
            WIDE => ks.wide = b.register_contract().ok(),
            LINK => ks.link = b.register_contract().ok(),
            _ => ks.empty = b.register_contract().ok(),
        }
        check(ks.handle(*k).is_some(), "a serialised contract is found");
    }
    (b.finish(), ks)
}
fn fill(d: &mut Deserializer, ks: &Ks, order: &[usize]) -> bool {
    order.iter().all(|k| match *k {
        WIDE => d.deserialize_objects(ks.wide.as_ref().unwrap()).is_ok(),
        LINK => d.deserialize_objects(ks.link.as_ref().unwrap()).is_ok(),
        _ => d.deserialize_objects(ks.empty.as_ref().unwrap()).is_ok(),
    })
}
fn read(d: &[u8], kind: BaselineKind, reg: &[usize], fl: &[usize]) -> (Baseline, Ks) {
    let (mut d, ks) = open(d, kind, reg);
    check(fill(&mut d, &ks, fl), "serialised objects are restored");
    match d.finish() {
        Ok(b) => {
            check(b.kind() == kind, "a store of the kind asked for");
            (b, ks)
        }
        Err(_) => panic!("what was serialised can be restored"),
    }
}
fn round(b: &Baseline, ks: &Ks, order: &[usize], kind: BaselineKind, reg: &[usize], fl: &[usize]) -> (Baseline, Ks) {
    let before = snapshot(b, ks);
    let bytes = write(b, ks, order);
    let (b2, k2) = read(&bytes, kind, reg, fl);
    same(&before, ks, &snapshot(&b2, &k2), &k2);
    for k in order {
        let id = |b: &Baseline, ks: &Ks| b.contract_data(ks.handle(*k).unwrap()).unwrap().id();
        let (x, y) = (id(b, ks), id(&b2, &k2));
        check(x.name == y.name && x.version == y.version, "a contract keeps its identity");
    }
    same(&before, ks, &snapshot(b, ks), ks);
    reach("round trip");
    (b2, k2)
}
const ALL: [usize; 3] = ORDERS[0];

/// Any values of every type.
#[no_mangle]
pub extern "C" fn h_c24_values() {
    let mut b = Baseline::new(BaselineKind::Fork);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    let (s, t) = (text(), text());
    let x = wide(&mut b, &ks, 1, e, ks.handle(EMPTY).unwrap(), s);
    wide(&mut b, &ks, 2, x, ks.handle(WIDE).unwrap(), t);
    round(&b, &ks, &ALL, BaselineKind::Main, &ALL, &ALL);
}
/// References to any objects, in cycles and to themselves.
#[no_mangle]
pub extern "C" fn h_c24_links() {
    // Wide is not serialised: no field may refer to it
    links_of(2);
}
#[no_mangle]
pub extern "C" fn h_c24_links3() {
    links_of(3);
}
fn links_of(n: usize) {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    let e2 = empty(&mut b, &ks);
    let mut os = vec![];
    for i in 0..n {
        let k = ks.handle(if i == 0 { choose(3) } else { i }).unwrap();
        os.push(link(&mut b, &ks, i as u32, e, k, e));
    }
    os.push(e);
    os.push(e2);
    for i in 0..n {
        let next = os[choose(os.len())];
        let other = if i == 0 { os[choose(os.len())] } else { os[n - 1] };
        point(&mut b, &ks, os[i], next, other);
    }
    round(&b, &ks, &ALL, BaselineKind::Main, &ALL, &ALL);
}
/// Many objects, and more fields than fit a byte.
#[no_mangle]
pub extern "C" fn h_c24_many() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    const N: usize = 53;
    let mut os = vec![e];
    for i in 0..N {
        let x = link(&mut b, &ks, i as u32, os[i / 2], ks.handle(i % 3).unwrap(), os[i]);
        os.push(x);
    }
    let far = [0, N, N / 2][choose(3)];
    point(&mut b, &ks, os[3], os[far], os[N]);
    point(&mut b, &ks, os[N], os[N - 1], os[far]);
    round(&b, &ks, &ALL, BaselineKind::Main, &ALL, &ALL);
}
/// Contracts in any order at every stage.
#[no_mangle]
pub extern "C" fn h_c24_orders() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    let x = link(&mut b, &ks, 7, e, ks.handle(WIDE).unwrap(), e);
    let w = wide(&mut b, &ks, 7, x, ks.handle(LINK).unwrap(), "s".to_string());
    point(&mut b, &ks, x, w, e);
    let (o, r, f) = (choose(6), choose(6), choose(6));
    let kind = if flag() { BaselineKind::Main } else { BaselineKind::Fork };
    round(&b, &ks, &ORDERS[o], kind, &ORDERS[r], &ORDERS[f]);
}
/// Stores with a history: objects gone, slots used again, values written, a contract taken away.
#[no_mangle]
pub extern "C" fn h_c24_history3() {
    history(3)
}
#[no_mangle]
pub extern "C" fn h_c24_history5() {
    history(5)
}
fn history(steps: u32) {
    let mut b = Baseline::new(BaselineKind::Main);
    let gone: Option<Lone> = if flag() { b.register_contract().ok() } else { None };
    let mut ks = register(&mut b);
    if let Some(g) = gone {
        b.unregister_contract::<Lone>(g.handle()).unwrap();
    }
    let mut live = vec![empty(&mut b, &ks)];
    let kh = ks.handle(LINK).unwrap();
    for i in 0..3 {
        let x = link(&mut b, &ks, i, live[0], kh, live[0]);
        live.push(x);
    }
    for i in 0..steps {
        match choose(4) {
            0 => {
                if live.len() < 2 {
                    continue;
                }
                let x = live.remove(1 + choose(live.len() - 1));
                for y in &live[1..] {
                    point(&mut b, &ks, *y, live[0], *y);
                }
                b.object_remove::<Link>(x).unwrap();
            }
            1 => {
                let x = link(&mut b, &ks, 10 + i, live[live.len() / 2], kh, live[live.len() - 1]);
                live.push(x);
            }
            2 => {
                if live.len() < 2 {
                    continue;
                }
                let h = b.bind_state(ks.link.as_ref().unwrap().states().v(), live[1]).unwrap();
                b.state_mut(h).unwrap().value = any();
                let (x, y) = (live[1], live[live.len() - 1]);
                point(&mut b, &ks, x, y, x);
            }
            _ => {
                // another handle for the same contract
                if ks.wide.is_some() {
                    let h = ks.handle(WIDE).unwrap();
                    b.unregister_contract::<Wide>(h).unwrap();
                    ks.wide = Some(b.register_contract().unwrap());
                }
            }
        }
    }
    round(&b, &ks, &ALL, BaselineKind::Main, &ALL, &ALL);
}
/// What came back goes round again, on its own and with changes.
#[no_mangle]
pub extern "C" fn h_c24_again() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    let x = link(&mut b, &ks, 7, e, ks.handle(LINK).unwrap(), e);
    let y = link(&mut b, &ks, 8, x, ks.handle(LINK).unwrap(), e);
    point(&mut b, &ks, x, [x, y, e][choose(3)], y);
    let (mut b2, k2) = round(&b, &ks, &ALL, BaselineKind::Fork, &ALL, &ALL);
    let e2 = empty(&mut b2, &k2);
    let all: Vec<ObjectHandle> = b2.iter_objects().filter(|o| k2.kind(o.1.contract()) == LINK).map(|o| o.0).collect();
    check(all.len() == 2, "as many objects");
    let z = link(&mut b2, &k2, 9, all[choose(2)], k2.handle(WIDE).unwrap(), e2);
    point(&mut b2, &k2, all[0], z, e2);
    if flag() {
        point(&mut b2, &k2, z, z, e2);
        point(&mut b2, &k2, all[0], z, z);
        b2.object_remove::<Link>(all[1]).unwrap();
    }
    round(&b2, &k2, &ORDERS[1], BaselineKind::Main, &ALL, &ORDERS[2]);
}
/// Only some of the contracts, at either stage.
#[no_mangle]
pub extern "C" fn h_c24_part() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    wide(&mut b, &ks, 1, e, ks.handle(EMPTY).unwrap(), "x".to_string());
    let x = link(&mut b, &ks, 7, e, ks.handle(LINK).unwrap(), e);
    let y = link(&mut b, &ks, 8, x, ks.handle(LINK).unwrap(), e);
    point(&mut b, &ks, x, y, x);
    point(&mut b, &ks, y, x, x);
    let mut before = snapshot(&b, &ks);
    let kind = choose(3);
    let order: &[usize] = [&[LINK] as &[usize], &[WIDE, LINK, EMPTY], &[EMPTY]][kind];
    let bytes = write(&b, &ks, order);
    let back: &[usize] = [&[LINK] as &[usize], &[LINK], &[EMPTY]][kind];
    let (b2, k2) = read(&bytes, BaselineKind::Main, back, back);
    before.retain(|r| back.contains(&r.kind));
    same(&before, &ks, &snapshot(&b2, &k2), &k2);
    reach("part of a store");
}
/// A store is not returned with references that could not be restored.
#[no_mangle]
pub extern "C" fn h_c24_missing() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    let x = link(&mut b, &ks, 7, e, ks.handle(LINK).unwrap(), e);
    let y = link(&mut b, &ks, 8, x, ks.handle([LINK, EMPTY][choose(2)]).unwrap(), x);
    let t = [x, y, e];
    point(&mut b, &ks, x, t[choose(3)], t[choose(3)]);
    let before = snapshot(&b, &ks);
    let out = before.iter().filter(|r| r.kind == LINK).any(|r| {
        r.f.iter().any(|f| match f {
            F::Obj(o) => *o == e,
            F::Con(k) => ks.kind(*k) == EMPTY,
            _ => false,
        })
    });
    let out_contract = before.iter().any(|r| r.f.iter().any(|f| matches!(f, F::Con(k) if ks.kind(*k) == EMPTY)));
    let bytes = write(&b, &ks, &[EMPTY, LINK]);
    let registered = flag();
    let (mut d, k2) = open(&bytes, BaselineKind::Main, if registered { &[LINK, EMPTY] } else { &[LINK] });
    let ok = fill(&mut d, &k2, &[LINK]);
    let only_contract = !before.iter().filter(|r| r.kind == LINK).any(|r| r.f.iter().any(|f| matches!(f, F::Obj(o) if *o == e)));
    if !ok {
        reach("refused");
        check(out_contract && !registered, "what can be restored is");
        return;
    }
    match d.finish() {
        Ok(b2) => {
            check(!out || (only_contract && registered), "every reference is restored or the whole refused");
            let mut a = before;
            a.retain(|r| r.kind == LINK);
            same(&a, &ks, &snapshot(&b2, &k2), &k2);
            reach("restored");
        }
        Err(_) => {
            reach("refused");
            check(!only_contract, "what can be restored is");
        }
    }
}
/// A contract that was serialised under another shape, version or name is not taken for it.
#[no_mangle]
pub extern "C" fn h_c24_other() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    link(&mut b, &ks, 7, e, ks.handle(LINK).unwrap(), e);
    let bytes = write(&b, &ks, &[WIDE, LINK, EMPTY]);
    let mut d = match DeserializerBuilder::new(&bytes, BaselineKind::Main) {
        Ok(d) => d,
        Err(_) => return,
    };
    let refused = match choose(12) {
        0 => d.register_contract::<LinkMajor>().is_err(),
        1 => d.register_contract::<LinkMinor>().is_err(),
        2 => d.register_contract::<LinkPatch>().is_err(),
        3 => d.register_contract::<LinkName>().is_err(),
        4 => d.register_contract::<LinkField>().is_err(),
        5 => d.register_contract::<LinkType>().is_err(),
        6 => d.register_contract::<LinkLast>().is_err(),
        7 => d.register_contract::<LinkLess>().is_err(),
        8 => d.register_contract::<LinkMore>().is_err(),
        9 => d.register_contract::<LinkOrder>().is_err(),
        10 => d.register_contract::<LinkNone>().is_err(),
        _ => d.register_contract::<Lone>().is_err(),
    };
    check(refused, "a contract of another shape is refused");
    let link: Option<Link> = d.register_contract().ok();
    check(link.is_some(), "the right one is found afterwards");
    check(d.register_contract::<Link>().is_err(), "a contract is registered once");
    let empty: Option<Empty> = d.register_contract().ok();
    let k2 = Ks { wide: None, link, empty };
    let mut d = d.finish();
    check(fill(&mut d, &k2, &[LINK, EMPTY]), "serialised objects are restored");
    match d.finish() {
        Ok(b2) => same(&snapshot(&b, &ks), &ks, &snapshot(&b2, &k2), &k2),
        Err(_) => check(false, "what was serialised can be restored"),
    }
    reach("others refused");
}
/// A builder used before is reused.
#[no_mangle]
pub extern "C" fn h_c24_reused() {
    let mut b = Baseline::new(BaselineKind::Main);
    let ks = register(&mut b);
    let e = empty(&mut b, &ks);
    link(&mut b, &ks, any::<u8>() as u32, e, ks.handle(LINK).unwrap(), e);
    let mut fbb = FlatBufferBuilder::new();
    let x = fbb.create_string("left over");
    if flag() {
        fbb.finish(x, None);
    }
    let mut s = Serializer::new(fbb, &b);
    check(s.serialize(ks.link.as_ref().unwrap()).is_ok() && s.serialize(ks.empty.as_ref().unwrap()).is_ok(), "serialised");
    let bytes = s.finish().finished_data().to_vec();
    let (b2, k2) = read(&bytes, BaselineKind::Main, &[EMPTY, LINK], &[LINK, EMPTY]);
    same(&snapshot(&b, &ks), &ks, &snapshot(&b2, &k2), &k2);
    reach("round trip");
}
