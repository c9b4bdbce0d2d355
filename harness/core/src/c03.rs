//! C03–C08: stores against the model.
use crate::model::*;
use crate::types::*;
use symapi::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{ChannelId, IChannelHandle};
use tp_client::contract::properties::states::{IStateHandle, StateId};
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

pub fn store() -> Baseline {
    Baseline::new(if flag() { BaselineKind::Main } else { BaselineKind::Fork })
}
pub fn fork() -> Baseline {
    Baseline::new(BaselineKind::Fork)
}

// ---- C03 ----

/// Every type, in every position among neighbours of its own and another type.
#[no_mangle]
pub extern "C" fn h_c03_types() {
    let n = choose(NT);
    let nb = FEW[choose(FEW.len())];
    let shape: Vec<usize> = match choose(4) {
        0 => vec![n],
        1 => vec![n, n],
        2 => vec![nb, n],
        _ => vec![n, nb, n],
    };
    let other: Vec<usize> = if flag() { vec![] } else { vec![nb, n] };
    let shape = if flag() { (shape, other) } else { (other, shape) };
    let mut m = Model::new(&[(&shape.0, &shape.1), (&shape.0, &shape.1)]);
    let mut b = store();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    m.verify(&b);
    reach("verified");
}
/// Every type with values of every length up to 2.
#[no_mangle]
pub extern "C" fn h_c03_values() {
    let n = choose(NT);
    let mut m = Model::new(&[(&[n], &[n])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.full = true;
    m.create(&mut b, 0, 0);
    m.create(&mut b, 0, 0);
    m.verify(&b);
    reach("verified");
}
/// Several objects of several contracts, any mix of field types.
fn shapes(fields: usize, objects: usize) {
    let pick = |max: usize| -> Vec<usize> { (0..choose(max + 1)).map(|_| FEW[choose(FEW.len())]).collect() };
    let s0 = (pick(fields), pick(1));
    let s1 = (vec![0, 11], vec![14]);
    let mut m = Model::new(&[(&s0.0, &s0.1), (&s1.0, &s1.1)]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    for _ in 0..objects {
        let k = choose(2);
        m.create(&mut b, k, k);
    }
    m.verify(&b);
    reach("verified");
}
#[no_mangle]
pub extern "C" fn h_c03_shapes2() {
    shapes(2, 2)
}
#[no_mangle]
pub extern "C" fn h_c03_shapes3() {
    shapes(3, 3)
}
#[no_mangle]
pub extern "C" fn h_c03_shapes4() {
    shapes(4, 4)
}
/// Every type twice over in one contract: 28 states and 28 channels.
fn many() -> (Baseline, Model) {
    let s: Vec<usize> = (0..NT).map(|i| (i * 9) % NT).collect();
    let c: Vec<usize> = (0..NT).map(|i| (i * 5 + 3) % NT).collect();
    let mut m = Model::new(&[(&s, &c), (&c[..9], &s[..17])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    (b, m)
}
#[no_mangle]
pub extern "C" fn h_c03_many() {
    let (mut b, mut m) = many();
    if flag() {
        m.create(&mut b, 0, 0);
    }
    m.verify(&b);
    reach("verified");
}
/// Twelve objects of two contracts, in any of a few orders.
fn crowd() -> (Baseline, Model) {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[11, 14], &[])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    let every = 1 + choose(4);
    for i in 0..12 {
        let k = (i % (every + 1) == every) as usize;
        m.create(&mut b, k, k);
    }
    (b, m)
}
#[no_mangle]
pub extern "C" fn h_c03_crowd() {
    let (b, m) = crowd();
    m.verify(&b);
    reach("verified");
}
/// Direct lookups on an object (`Object::state`, `Object::channel`): same handle, foreign ids refused.
#[no_mangle]
pub extern "C" fn h_c03_lookup() {
    let n = choose(NT);
    let mut m = Model::new(&[(&[n, n], &[n, n]), (&[n, n], &[n, n])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    let (f, con) = (choose(2), m.cons[0].h);
    let o = &m.objs[0];
    struct L<'a>(&'a Baseline, ContractDataHandle, usize, ObjectHandle, u32);
    impl Visit<()> for L<'_> {
        fn on<T: Ty>(self, v: &T) {
            let L(b, c, f, o, what) = self;
            let _ = v;
            match what {
                0 => {
                    let sid = StateId::<T>::new(f, c);
                    check(raw(sid.contract()) == raw(c), "a state id carries its contract");
                    let h = b.bind_state(sid, o).ok().unwrap();
                    check(h.prop_type() == tp(T::N), "a bound state handle has the field's type");
                    check(b[h].value.same(&b.state(h).ok().unwrap().value), "indexing reads the same state");
                }
                _ => {
                    let cid = ChannelId::<T>::new(f, c);
                    check(raw(cid.contract()) == raw(c), "a channel id carries its contract");
                    let h = b.bind_channel(cid, o).ok().unwrap();
                    check(h.prop_type() == tp(T::N), "a bound channel handle has the field's type");
                    check(std::ptr::eq(&b[h], b.channel(h).ok().unwrap()), "indexing reads the same channel");
                }
            }
        }
    }
    o.st[f].0.visit(L(&b, con, f, o.h, choose(2) as u32));
    reach("looked up");
}
/// The unfallible lookups need Copy ids, so single types only; u64 and i8 stand for them.
#[no_mangle]
pub extern "C" fn h_c03_object_lookup() {
    let mut m = Model::new(&[(&[3, 4], &[3, 4]), (&[3, 4], &[3, 4])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    let i = choose(2);
    let c = choose(2);
    let (o, con) = (&m.objs[i], m.cons[c].h);
    let obj = b.object(o.h).ok().unwrap();
    check(std::ptr::eq(obj, &b[o.h]), "indexing reads the same object");
    match choose(4) {
        0 if c == i => check(raw(obj.state(StateId::<u64>::new(0, con))) == o.st[0].1, "the state handle of that field"),
        1 if c == i => check(raw(obj.state(StateId::<i8>::new(1, con))) == o.st[1].1, "the state handle of that field"),
        2 if c == i => check(raw(obj.channel(ChannelId::<u64>::new(0, con))) == o.ch[0].1, "the channel handle of that field"),
        3 if c == i => check(raw(obj.channel(ChannelId::<i8>::new(1, con))) == o.ch[1].1, "the channel handle of that field"),
        x => {
            reach("foreign id");
            if x < 2 {
                must_panic("a foreign state id is refused", || obj.state(StateId::<u64>::new(0, con)))
            } else {
                must_panic("a foreign channel id is refused", || obj.channel(ChannelId::<u64>::new(0, con)))
            }
        }
    }
}

/// Ids made from any index and any contract handle: bound exactly when they name a field of the object's own contract.
/// (That an id has its field's type is up to whoever makes it; ids come from the contracts.)
#[no_mangle]
pub extern "C" fn h_c03_forged_ids() {
    let mut m = Model::new(&[(&[3, 3, 3], &[3, 3]), (&[3], &[3])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    let o = &m.objs[choose(2)];
    let mine = raw(m.cons[o.c].h);
    let (i, c): (usize, (usize, u64)) = (any(), (any(), any()));
    let own = (c.0 == mine.0) & (c.1 == mine.1);
    if flag() {
        let hit = (0..o.st.len()).find(|f| (*f == i) && own);
        match b.bind_state(StateId::<u64>::new(i, raw_handle(c.0, c.1)), o.h) {
            Ok(h) => {
                check(hit.is_some(), "a state id binds only to a field of the object's contract");
                check(raw(h) == o.st[hit.unwrap()].1, "a state id binds to the field it names");
                reach("bound");
            }
            Err(_) => {
                check(hit.is_none(), "a state id of the object's contract binds");
                reach("refused");
            }
        }
    } else {
        let hit = (0..o.ch.len()).find(|f| (*f == i) && own);
        match b.bind_channel(ChannelId::<u64>::new(i, raw_handle(c.0, c.1)), o.h) {
            Ok(h) => {
                check(hit.is_some(), "a channel id binds only to a field of the object's contract");
                check(raw(h) == o.ch[hit.unwrap()].1, "a channel id binds to the field it names");
                reach("bound");
            }
            Err(_) => {
                check(hit.is_none(), "a channel id of the object's contract binds");
                reach("refused");
            }
        }
    }
}
/// Ids outlive their contract: in its reused slot they name nothing.
#[no_mangle]
pub extern "C" fn h_c03_reused_contract() {
    let mut m = Model::new(&[(&[3, 4], &[3, 4]), (&[3, 4], &[3, 4])]);
    let mut b = fork();
    let (k0, k1) = (choose(2), choose(2));
    m.register(&mut b, k0);
    if flag() {
        m.create(&mut b, k0, 0);
    }
    m.unregister(&mut b, k0, 0);
    m.register(&mut b, k1);
    m.create(&mut b, k1, 1);
    m.verify(&b);
    let (old, new) = (m.cons[0].h, m.cons[1].h);
    if raw(old).0 == raw(new).0 {
        reach("contract slot reused");
    }
    let o = m.objs.last().unwrap();
    let obj = b.object(o.h).ok().unwrap();
    match choose(6) {
        0 => check(b.bind_state(StateId::<u64>::new(0, old), o.h).is_err(), "an unregistered contract's state id is refused"),
        1 => check(b.bind_channel(ChannelId::<u64>::new(0, old), o.h).is_err(), "an unregistered contract's channel id is refused"),
        2 => must_panic("an unregistered contract's state id is refused", || obj.state(StateId::<u64>::new(0, old))),
        3 => must_panic("an unregistered contract's channel id is refused", || obj.channel(ChannelId::<u64>::new(0, old))),
        4 => check(raw(obj.state(StateId::<u64>::new(0, new))) == o.st[0].1, "the state handle of that field"),
        _ => check(raw(obj.channel(ChannelId::<u64>::new(0, new))) == o.ch[0].1, "the channel handle of that field"),
    }
}
/// Ids of the object's contract asked of `Object` directly: those beyond the last field panic.
#[no_mangle]
pub extern "C" fn h_c03_object_any() {
    let mut m = Model::new(&[(&[3, 3], &[3, 3, 3])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.create(&mut b, 0, 0);
    let (o, con) = (&m.objs[0], m.cons[0].h);
    let obj = b.object(o.h).ok().unwrap();
    let i: usize = any();
    if flag() {
        if i < 2 {
            reach("asked");
            let i = if i == 0 { 0 } else { 1 };
            check(raw(obj.state(StateId::<u64>::new(i, con))) == o.st[i].1, "the state handle of that field")
        } else {
            must_panic("a state id beyond the fields is refused", || obj.state(StateId::<u64>::new(i, con)))
        }
    } else if i < 3 {
        let i = if i == 0 { 0 } else { i };
        check(raw(obj.channel(ChannelId::<u64>::new(i, con))) == o.ch[i].1, "the channel handle of that field")
    } else {
        must_panic("a channel id beyond the fields is refused", || obj.channel(ChannelId::<u64>::new(i, con)))
    }
}

// ---- C04 ----

/// Writes `v` through every way there is; answers whether it was accepted.
fn write_via(b: &mut Baseline, chan: bool, way: usize, slot: Slot, v: &Val) -> bool {
    struct W<'a>(&'a mut Baseline, bool, usize, Slot);
    impl Visit<bool> for W<'_> {
        fn on<T: Ty>(self, v: &T) -> bool {
            let W(b, chan, way, s) = self;
            if !chan {
                let h: tp_client::contract::properties::states::StateHandle<T> = raw_handle(s.0, s.1);
                match way {
                    0 => b.state_mut(h).map(|x| x.value = v.clone()).is_ok(),
                    1 => {
                        b[h].value = v.clone();
                        true
                    }
                    2 => h.get_mut(b).map(|x| x.value = v.clone()).is_ok(),
                    3 => {
                        let d = T::dyn_state_handle(h);
                        d.get_mut(b).map_or(false, |x| T::overwrite(x.0, v.clone()))
                    }
                    _ => {
                        let d = T::dyn_state_handle(h);
                        b.state_mut(d).map_or(false, |x| T::overwrite(x.0, v.clone()))
                    }
                }
            } else {
                let h: tp_client::contract::properties::channels::ChannelHandle<T> = raw_handle(s.0, s.1);
                match way {
                    0 => b.channel_mut(h).map(|x| *x = chan_of(v)).is_ok(),
                    1 => {
                        b[h] = chan_of(v);
                        true
                    }
                    2 => h.get_mut(b).map(|x| *x = chan_of(v)).is_ok(),
                    3 => {
                        let d = T::dyn_chan_handle(h);
                        d.get_mut(b).map_or(false, |x| T::chan_mut(x).map(|c| *c = chan_of(v)).is_some())
                    }
                    _ => b
                        .channel_mut(h)
                        .map(|x| x.keyframes_mut()[0] = tp_client::contract::properties::channels::Keyframe::new(v.clone(), 1.5))
                        .is_ok(),
                }
            }
        }
    }
    v.visit(W(b, chan, way, slot))
}
#[no_mangle]
pub extern "C" fn h_c04_types() {
    let n = choose(NT);
    let mut m = Model::new(&[(&[n, n], &[n, n])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 0, 0);
    let (i, f, chan, way) = (choose(2), choose(2), choose(2) == 1, choose(5));
    let v = Val::plain(n);
    let slot = if chan { m.objs[i].ch[f].1 } else { m.objs[i].st[f].1 };
    check(write_via(&mut b, chan, way, slot, &v), "a live field can be written");
    if chan {
        m.objs[i].ch[f].0 = v;
    } else {
        m.objs[i].st[f].0 = v;
    }
    m.verify(&b);
    reach("written");
}
/// Histories of writes over objects of two contracts whose fields occupy the same slots of different types.
fn writes(steps: usize) {
    let mut m = Model::new(&[(&[0, 4, 11], &[0, 14]), (&[4, 0], &[14, 11])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    m.create(&mut b, 0, 0);
    for _ in 0..steps {
        let i = choose(3);
        let (ns, nc) = (m.objs[i].st.len(), m.objs[i].ch.len());
        let f = choose(ns + nc + 1);
        if f < ns {
            let v = Val::plain(m.objs[i].st[f].0.n());
            check(write_via(&mut b, false, 0, m.objs[i].st[f].1, &v), "a live field can be written");
            m.objs[i].st[f].0 = v;
        } else if f < ns + nc {
            let v = Val::plain(m.objs[i].ch[f - ns].0.n());
            check(write_via(&mut b, true, 0, m.objs[i].ch[f - ns].1, &v), "a live field can be written");
            m.objs[i].ch[f - ns].0 = v;
        } else {
            m.warp(&mut b, i);
            reach("warped");
        }
        m.verify(&b);
    }
}
#[no_mangle]
pub extern "C" fn h_c04_writes2() {
    writes(2)
}
#[no_mangle]
pub extern "C" fn h_c04_writes3() {
    writes(3)
}
#[no_mangle]
pub extern "C" fn h_c04_writes4() {
    writes(4)
}
/// Any field of an object with many.
#[no_mangle]
pub extern "C" fn h_c04_many() {
    let (mut b, mut m) = many();
    let (i, chan) = (choose(2), flag());
    if chan {
        let f = choose(m.objs[i].ch.len());
        m.write_chan(&mut b, i, f);
    } else {
        let f = choose(m.objs[i].st.len());
        m.write_state(&mut b, i, f);
    }
    m.verify(&b);
    reach("written");
}
/// Any of many objects.
#[no_mangle]
pub extern "C" fn h_c04_crowd() {
    let (mut b, mut m) = crowd();
    let i = choose(12);
    match choose(3) {
        0 => m.write_state(&mut b, i, 0),
        1 => m.write_state(&mut b, i, 1),
        _ => m.warp(&mut b, i),
    }
    m.verify(&b);
    reach("written");
}
/// A write after slots were freed and reused.
#[no_mangle]
pub extern "C" fn h_c04_reused() {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[11, 0], &[0, 0])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    for _ in 0..2 {
        let k = choose(2);
        m.create(&mut b, k, k);
    }
    let i = choose(2);
    let k = m.objs[i].c;
    m.remove(&mut b, k, i);
    let k = choose(2);
    m.create(&mut b, k, k);
    let i = choose(3);
    if flag() {
        let f = choose(2);
        m.write_state(&mut b, i, f);
    } else {
        m.write_chan(&mut b, i, 0);
    }
    if !m.objs[i].live {
        reach("stale write");
    }
    m.verify(&b);
}

// ---- C05 ----

/// Both stores hold the same and give out the same slots from here on.
fn like_twin(b: &mut Baseline, m: &mut Model, t: &mut Baseline, mt: &mut Model, k: usize, c: usize) {
    m.create(b, k, c);
    mt.create(t, k, c);
    let (o, p) = (m.objs.last().unwrap(), mt.objs.last().unwrap());
    check(raw(o.h) == raw(p.h), "a refused creation takes no object handle");
    for (x, y) in o.st.iter().zip(p.st.iter()) {
        check(x.1 == y.1, "a refused creation takes no state slot");
    }
    for (x, y) in o.ch.iter().zip(p.ch.iter()) {
        check(x.1 == y.1, "a refused creation takes no channel slot");
    }
}
/// One declared field of any type, one supplied value of any type, among fields that match.
#[no_mangle]
pub extern "C" fn h_c05_pairs() {
    let (n, x) = (choose(NT), choose(NT));
    let chan = flag();
    // others of the list or element type of what is declared, so that neighbours cannot stand in
    let (l, p) = (n % 14, if n < 14 { n + 14 } else { n - 14 });
    let (pre, post): (Vec<usize>, Vec<usize>) = match choose(4) {
        0 => (vec![], vec![]),
        1 => (vec![l], vec![]),
        2 => (vec![p, n], vec![l]),
        _ => (vec![], vec![n]),
    };
    let with = |y: usize| -> Vec<usize> { pre.iter().copied().chain([y]).chain(post.iter().copied()).collect() };
    let (dec, sup) = if chan { ((vec![], with(n)), (vec![], with(x))) } else { ((with(n), vec![]), (with(x), vec![])) };
    // kind 1 declares both types as states and channels, so that later use of either is seen
    let mk = || {
        let mut m = Model::new(&[(&dec.0, &dec.1), (&[n, x], &[n, x])]);
        let mut b = fork();
        m.register(&mut b, 0);
        m.register(&mut b, 1);
        (b, m)
    };
    let (mut b, mut m) = mk();
    let st: Vec<Val> = sup.0.iter().map(|n| Val::plain(*n)).collect();
    let ch: Vec<Val> = sup.1.iter().map(|n| Val::plain(*n)).collect();
    let r = create(&mut b, 0, m.cons[0].h, &st, &ch);
    check(r.is_some() == (n == x), "created exactly when the type matches");
    if r.is_some() {
        return;
    }
    reach("refused");
    m.verify(&b);
    let (mut t, mut mt) = mk();
    like_twin(&mut b, &mut m, &mut t, &mut mt, 1, 1);
    m.verify(&b);
}
/// Any number of declared and supplied fields; mismatches in every place.
fn counts(max: usize, types: usize) {
    let pick = |max: usize| -> Vec<usize> { (0..choose(max + 1)).map(|_| FEW[choose(types)]).collect() };
    let dec = (pick(max), pick(1));
    let sup = (pick(max + 1), pick(2));
    let mk = || {
        let mut m = Model::new(&[(&dec.0, &dec.1), (&[0, 4], &[0, 4])]);
        let mut b = fork();
        m.register(&mut b, 0);
        m.register(&mut b, 1);
        (b, m)
    };
    let (mut b, mut m) = mk();
    let st: Vec<Val> = sup.0.iter().map(|n| Val::plain(*n)).collect();
    let ch: Vec<Val> = sup.1.iter().map(|n| Val::plain(*n)).collect();
    let want = dec == sup;
    let r = create(&mut b, 0, m.cons[0].h, &st, &ch);
    check(r.is_some() == want, "created exactly when number, order and types match");
    if want {
        reach("accepted");
        return;
    }
    if sup.0.len() > dec.0.len() {
        reach("too many states");
    }
    if sup.1.len() < dec.1.len() {
        reach("too few channels");
    }
    m.verify(&b);
    let (mut t, mut mt) = mk();
    like_twin(&mut b, &mut m, &mut t, &mut mt, 1, 1);
    m.verify(&b);
}
#[no_mangle]
pub extern "C" fn h_c05_counts1() {
    counts(1, 3)
}
#[no_mangle]
pub extern "C" fn h_c05_counts2() {
    counts(2, 2)
}
/// One mismatch anywhere among many fields.
#[no_mangle]
pub extern "C" fn h_c05_many() {
    let (mut b, m) = many();
    let (mut st, mut ch) = (m.shapes[0].0.clone(), m.shapes[0].1.clone());
    let chan = flag();
    let v = if chan { &mut ch } else { &mut st };
    let at = choose(v.len());
    match choose(4) {
        0 => {
            // another type, in particular the list of the same one
            v[at] = (v[at] + [14, 1, 13][choose(3)]) % NT;
        }
        1 => {
            v.remove(at);
        }
        2 => {
            let x = v[at];
            v.insert(at, x);
        }
        _ => {
            assume(at > 0);
            v.swap(at - 1, at);
        }
    }
    let st: Vec<Val> = st.iter().map(|n| Val::empty(*n)).collect();
    let ch: Vec<Val> = ch.iter().map(|n| Val::empty(*n)).collect();
    check(create(&mut b, 0, m.cons[0].h, &st, &ch).is_none(), "mismatching fields are refused");
    reach("refused");
    m.verify(&b);
}
/// Refused creations in a store with contents leave the contents and leak nothing.
#[no_mangle]
pub extern "C" fn h_c05_leak() {
    let mut m = Model::new(&[(&[11, 0], &[14]), (&[11], &[])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    let case = choose(4);
    let attempt = |b: &mut Baseline| {
        let s = Val::plain(11);
        let (st, ch) = match case {
            0 => (vec![s.clone(), s], vec![Val::plain(14)]),
            1 => (vec![s, Val::plain(0)], vec![Val::plain(11)]),
            2 => (vec![s, Val::plain(0)], vec![]),
            _ => (vec![s], vec![Val::plain(14)]),
        };
        check(create(b, 0, m.cons[0].h, &st, &ch).is_none(), "mismatching fields are refused");
    };
    attempt(&mut b);
    let before = live_heap();
    attempt(&mut b);
    check(live_heap() == before, "a refused creation leaves nothing allocated");
    m.verify(&b);
    reach("refused");
}
/// Contract instances that denote no registered contract of their kind.
#[no_mangle]
pub extern "C" fn h_c05_instances() {
    let mk = || {
        let mut m = Model::new(&[(&[0, 11], &[0]), (&[0, 11], &[0]), (&[0, 11], &[0])]);
        let mut b = fork();
        m.register(&mut b, 0);
        m.register(&mut b, 1);
        m.create(&mut b, 0, 0);
        m.create(&mut b, 1, 1);
        m.unregister(&mut b, 1, 1);
        m.register(&mut b, 2);
        (b, m)
    };
    let (mut b, mut m) = mk();
    let k = choose(3);
    let h: ContractDataHandle = if flag() { m.cons[choose(3)].h } else { raw_handle(any(), any()) };
    let want = m.cons.iter().any(|c| c.live && c.k == k && raw(c.h) == raw(h));
    let r = create(&mut b, k, h, &[Val::plain(0), Val::plain(11)], &[Val::plain(0)]);
    check(r.is_some() == want, "created exactly for a registered contract of its kind");
    if want {
        reach("accepted");
        return;
    }
    reach("refused");
    m.verify(&b);
    let (mut t, mut mt) = mk();
    let c = if k == 2 { 2 } else { 0 };
    let k = m.cons[c].k;
    like_twin(&mut b, &mut m, &mut t, &mut mt, k, c);
    m.verify(&b);
}

// ---- C06 ----

/// Every type: the removed object's fields are gone, its twin's are not, and the slots are reused.
#[no_mangle]
pub extern "C" fn h_c06_types() {
    let n = choose(NT);
    let mut m = Model::new(&[(&[n, n], &[n, n]), (&[n, n], &[n, n])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 0, 0);
    let (i, k) = (choose(2), choose(2));
    m.remove(&mut b, k, i);
    m.verify(&b);
    m.create(&mut b, 0, 0);
    m.verify(&b);
    reach("removed");
}
fn removals(steps: usize, start: usize) {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[11], &[0, 14])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    for i in 0..start {
        m.create(&mut b, i % 2, i % 2);
    }
    for _ in 0..steps {
        match choose(2) {
            0 => {
                let k = choose(2);
                m.create(&mut b, k, k);
            }
            _ => {
                assume(m.objs.len() > 0);
                let (k, i) = (choose(2), choose(m.objs.len()));
                m.remove(&mut b, k, i);
            }
        }
        m.verify(&b);
    }
}
#[no_mangle]
pub extern "C" fn h_c06_history3() {
    removals(3, 2)
}
#[no_mangle]
pub extern "C" fn h_c06_history4() {
    removals(4, 2)
}
#[no_mangle]
pub extern "C" fn h_c06_history5() {
    removals(5, 0)
}
#[no_mangle]
pub extern "C" fn h_c06_history6() {
    removals(6, 0)
}
#[no_mangle]
pub extern "C" fn h_c06_history7() {
    removals(7, 0)
}
/// Removals among many objects, and creation again.
#[no_mangle]
pub extern "C" fn h_c06_crowd() {
    let (mut b, mut m) = crowd();
    for _ in 0..2 {
        let i = choose(12);
        let k = m.objs[i].c;
        m.remove(&mut b, k, i);
    }
    m.verify(&b);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    m.verify(&b);
    reach("removed");
}
/// An object with many fields goes; then one takes its slots again.
#[no_mangle]
pub extern "C" fn h_c06_many() {
    let (mut b, mut m) = many();
    let i = choose(2);
    m.remove(&mut b, i, i);
    m.verify(&b);
    let k = choose(2);
    m.create(&mut b, k, k);
    m.verify(&b);
    reach("removed");
}
/// Handles no object ever had.
#[no_mangle]
pub extern "C" fn h_c06_forged() {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[11], &[0])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    m.create(&mut b, 0, 0);
    m.remove(&mut b, 0, 0);
    let h: ObjectHandle = raw_handle(any(), any());
    let k = choose(2);
    let hit = m.objs.iter().position(|o| raw(o.h) == raw(h));
    let want = hit.map_or(false, |i| m.objs[i].live && m.objs[i].c == k);
    check(remove(&mut b, k, h) == want, "removal of any handle succeeds exactly for a live object of the named contract");
    if want {
        reach("removed");
        m.objs[hit.unwrap()].live = false;
    } else {
        reach("refused");
    }
    m.verify(&b);
}
/// Storage is reclaimed: repeating create and remove needs no more memory.
#[no_mangle]
pub extern "C" fn h_c06_reclaimed() {
    let n = choose(NT);
    let mut m = Model::new(&[(&[n, 11], &[n, 11])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.create(&mut b, 0, 0);
    let c = m.cons[0].h;
    let cycle = |b: &mut Baseline| {
        let o = create(b, 0, c, &[Val::plain(n), Val::plain(11)], &[Val::plain(n), Val::plain(11)]);
        check(o.is_some(), "created");
        check(remove(b, 0, o.unwrap()), "removed");
    };
    cycle(&mut b);
    cycle(&mut b);
    let before = live_heap();
    cycle(&mut b);
    check(live_heap() == before, "creating and removing again keeps no memory");
    m.verify(&b);
    reach("cycled");
}

// ---- C07 ----

fn registrations(steps: usize) {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[0], &[14]), (&[11], &[]), (&[0, 11], &[0])]);
    let mut b = fork();
    for _ in 0..steps {
        match choose(3) {
            0 => m.register(&mut b, [0, 1, 3][choose(3)]),
            1 => {
                assume(m.cons.len() > 0);
                let k = [0, 1, 3][choose(3)];
                let c = choose(m.cons.len());
                m.unregister(&mut b, k, c);
            }
            _ => {
                assume(m.cons.len() > 0);
                let c = choose(m.cons.len());
                let k = m.cons[c].k;
                m.create(&mut b, k, c);
            }
        }
        m.verify(&b);
    }
}
#[no_mangle]
pub extern "C" fn h_c07_history4() {
    registrations(4)
}
#[no_mangle]
pub extern "C" fn h_c07_history5() {
    registrations(5)
}
#[no_mangle]
pub extern "C" fn h_c07_history6() {
    registrations(6)
}
#[no_mangle]
pub extern "C" fn h_c07_history7() {
    registrations(7)
}
/// Several objects per contract, some removed before; then one contract goes.
#[no_mangle]
pub extern "C" fn h_c07_sweep() {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[11, 0], &[0, 14])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    for _ in 0..3 {
        let k = choose(2);
        m.create(&mut b, k, k);
    }
    if flag() {
        let i = choose(3);
        let k = m.objs[i].c;
        m.remove(&mut b, k, i);
    }
    let (k, c) = (choose(2), choose(2));
    m.unregister(&mut b, k, c);
    m.verify(&b);
    m.register(&mut b, k);
    m.verify(&b);
    let c = m.cons.len() - 1;
    let k = m.cons[c].k;
    m.create(&mut b, k, c);
    m.verify(&b);
}
/// One contract of two with twelve objects goes.
#[no_mangle]
pub extern "C" fn h_c07_crowd() {
    let (mut b, mut m) = crowd();
    let k = choose(2);
    m.unregister(&mut b, k, k);
    m.verify(&b);
    m.register(&mut b, k);
    let c = m.cons.len() - 1;
    m.create(&mut b, k, c);
    m.verify(&b);
    reach("swept");
}
/// Eight contracts side by side with objects; any one goes and comes again.
#[no_mangle]
pub extern "C" fn h_c07_many() {
    let mut b = fork();
    let go = |b: &mut Baseline, what, n, con, obj| {
        let mut o = Op { b, what, con, obj, new: None, ok: false };
        with_id(n, &mut o);
        (o.ok, o.new, o.obj)
    };
    let none = raw_handle(9, 9);
    let h: Vec<ContractDataHandle> = (0..8).map(|n| go(&mut b, 0, n, none, None).1.unwrap()).collect();
    let o: Vec<Vec<ObjectHandle>> = (0..8).map(|n| (0..n % 3).map(|_| go(&mut b, 2, n, h[n], None).2.unwrap()).collect()).collect();
    let k = choose(8);
    check(go(&mut b, 1, k, h[k], None).0, "a registered contract can be unregistered");
    let again = flag();
    if again {
        let (ok, new, _) = go(&mut b, 0, k, none, None);
        check(ok, "exactly an unregistered identity is free again");
        check(!h.iter().any(|x| raw(*x) == raw(new.unwrap())), "a registration has a fresh handle");
        check(b.contract_data(new.unwrap()).ok().unwrap().objects().is_empty(), "a contract registered anew has no objects");
        reach("registered again");
    }
    let mut n = 0;
    for i in 0..8 {
        match b.contract_data(h[i]) {
            Ok(d) => {
                check(i != k, "an unregistered contract does not resolve");
                check(d.id().name == IDENT[i].name && d.id().version == IDENT[i].version, "a contract keeps its identity");
                check(d.objects().len() == o[i].len(), "a contract lists exactly its live objects");
            }
            Err(_) => check(i == k, "the other contracts stay"),
        }
        for x in &o[i] {
            check(b.object(*x).is_ok() == (i != k), "exactly the contract's own objects go");
        }
        check(go(&mut b, 1, i, h[k], None).0 == false, "the stale handle unregisters nothing");
        check(go(&mut b, 0, i, none, None).0 == (i == k && !again), "exactly an unregistered identity is free again");
        n += if i == k { 0 } else { o[i].len() };
    }
    check(b.iter_objects().count() == n, "exactly the contract's own objects go");
}
/// Contract handles nobody issued.
#[no_mangle]
pub extern "C" fn h_c07_forged() {
    let mut m = Model::new(&[(&[0, 11], &[0]), (&[11], &[0])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.unregister(&mut b, 0, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 1, 1);
    m.register(&mut b, 0);
    m.create(&mut b, 0, 2);
    let h: ContractDataHandle = raw_handle(any(), any());
    let k = choose(2);
    let hit = m.cons.iter().position(|c| raw(c.h) == raw(h));
    let want = hit.map_or(false, |i| m.cons[i].live && m.cons[i].k == k);
    check(b.contract_data(h).is_ok() == hit.map_or(false, |i| m.cons[i].live), "contract data resolves exactly for live handles");
    check(unregister(&mut b, k, h) == want, "unregistering any handle succeeds exactly for the right live one");
    if want {
        reach("unregistered");
        let i = hit.unwrap();
        m.cons[i].live = false;
        for o in m.objs.iter_mut() {
            o.live &= o.c != i;
        }
    } else {
        reach("refused");
    }
    m.verify(&b);
}
/// Every type is swept.
#[no_mangle]
pub extern "C" fn h_c07_types() {
    let n = choose(NT);
    let mut m = Model::new(&[(&[n, n], &[n, n]), (&[n], &[n])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.register(&mut b, 1);
    m.create(&mut b, 0, 0);
    m.create(&mut b, 1, 1);
    m.create(&mut b, 0, 0);
    m.unregister(&mut b, 0, 0);
    m.verify(&b);
    m.register(&mut b, 0);
    m.create(&mut b, 0, 2);
    m.verify(&b);
    reach("swept");
}

/// A contract without fields, told apart by its identity only.
struct Id<const N: usize>(ContractDataHandle);
const IDENT: [ContractId; 9] = [
    ContractId { name: "ab", version: (1, 2, 3) },
    ContractId { name: "ac", version: (1, 2, 3) },
    ContractId { name: "a", version: (1, 2, 3) },
    ContractId { name: "ab", version: (2, 2, 3) },
    ContractId { name: "ab", version: (1, 3, 3) },
    ContractId { name: "ab", version: (1, 2, 4) },
    ContractId { name: "ab", version: (2, 1, 3) },
    ContractId { name: "ab", version: (1, 258, 3) },
    ContractId { name: "ab", version: (1, 2, 3) },
];
impl<const N: usize> Contract for Id<N> {
    type States = ();
    type Channels = ();
    const ID: ContractId = IDENT[N];
    fn new(h: ContractDataHandle) -> Self {
        Id(h)
    }
    fn states(&self) -> &() {
        &()
    }
    fn channels(&self) -> &() {
        &()
    }
    fn handle(&self) -> ContractDataHandle {
        self.0
    }
}
trait OnId {
    fn on<const N: usize>(&mut self);
}
fn with_id(n: usize, f: &mut impl OnId) {
    match n {
        0 => f.on::<0>(),
        1 => f.on::<1>(),
        2 => f.on::<2>(),
        3 => f.on::<3>(),
        4 => f.on::<4>(),
        5 => f.on::<5>(),
        6 => f.on::<6>(),
        7 => f.on::<7>(),
        _ => f.on::<8>(),
    }
}
struct Op<'a> {
    b: &'a mut Baseline,
    what: u8,
    con: ContractDataHandle,
    obj: Option<ObjectHandle>,
    new: Option<ContractDataHandle>,
    ok: bool,
}
impl OnId for Op<'_> {
    fn on<const N: usize>(&mut self) {
        match self.what {
            0 => {
                self.new = self.b.register_contract::<Id<N>>().ok().map(|c| c.0);
                self.ok = self.new.is_some()
            }
            1 => self.ok = self.b.unregister_contract::<Id<N>>(self.con).is_ok(),
            2 => {
                self.obj = self.b.object_create(&Id::<N>(self.con), [].into_iter(), [].into_iter()).ok();
                self.ok = self.obj.is_some()
            }
            _ => self.ok = self.b.object_remove::<Id<N>>(self.obj.unwrap()).is_ok(),
        }
    }
}
/// Every two identities: contracts are the same exactly when name and all three version numbers are.
#[no_mangle]
pub extern "C" fn h_c07_identities() {
    let mut b = fork();
    let (x, y) = (choose(9), choose(9));
    let same = IDENT[x].name == IDENT[y].name && IDENT[x].version == IDENT[y].version;
    let go = |b: &mut Baseline, what, n, con, obj| {
        let mut o = Op { b, what, con, obj, new: None, ok: false };
        with_id(n, &mut o);
        (o.ok, o.new, o.obj)
    };
    let none = raw_handle(9, 9);
    let (ok, hx, _) = go(&mut b, 0, x, none, None);
    check(ok, "a contract can be registered");
    let hx = hx.unwrap();
    let d = b.contract_data(hx).ok().unwrap();
    check(d.id().name == IDENT[x].name && d.id().version == IDENT[x].version, "a contract keeps its identity");
    check((IDENT[x] == IDENT[y]) == same, "identities are equal exactly when name and version are");
    let (ok, hy, _) = go(&mut b, 0, y, none, None);
    check(ok == !same, "an identity is registered once, different ones side by side");
    if same {
        reach("same identity");
    } else {
        reach("different identity");
        check(raw(hy.unwrap()) != raw(hx), "different contracts have different handles");
    }
    match choose(3) {
        0 => {
            check(go(&mut b, 1, y, hx, None).0 == same, "unregistering takes the handle of that very contract");
            check(b.contract_data(hx).is_ok() == !same, "a refused unregistration leaves the contract");
            check(go(&mut b, 0, x, none, None).0 == same, "exactly an unregistered identity is free again");
            if !same {
                check(go(&mut b, 1, x, hx, None).0, "the contract itself can be unregistered");
                check(b.contract_data(hx).is_err(), "it is gone then");
                check(b.contract_data(hy.unwrap()).is_ok(), "the other contract stays");
                check(!go(&mut b, 0, y, none, None).0, "the other identity stays taken");
                check(go(&mut b, 0, x, none, None).0, "exactly an unregistered identity is free again");
            }
        }
        1 => {
            check(go(&mut b, 2, y, hx, None).0 == same, "an object is created only through a contract's own handle");
            check(b.iter_objects().count() == same as usize, "a refused creation leaves no object");
        }
        _ => {
            let (ok, _, o) = go(&mut b, 2, x, hx, None);
            check(ok, "an object is created through the contract's handle");
            check(go(&mut b, 3, y, hx, o).0 == same, "an object is removed only as its own contract's");
            check(b.object(o.unwrap()).is_ok() == !same, "a refused removal leaves the object");
        }
    }
}

/// Identities with any versions and short names: equal exactly when all parts are, and hashed alike then.
#[no_mangle]
pub extern "C" fn h_c07_identity_eq() {
    let id = || {
        let mut name = String::new();
        for _ in 0..choose(4) {
            unsafe { name.as_mut_vec().push(bits(7) as u8) }
        }
        let name: &'static str = Box::leak(name.into_boxed_str());
        ContractId { name, version: (any(), any(), any()) }
    };
    let (a, b) = (id(), id());
    let same = bytes_same(a.name.as_bytes(), b.name.as_bytes())
        & (a.version.0 == b.version.0)
        & (a.version.1 == b.version.1)
        & (a.version.2 == b.version.2);
    check((a == b) == same, "identities are equal exactly when name and version are");
    check((a != b) == !same, "ne is the negation of eq");
    if same {
        reach("same identity");
        check(hash_of(&a) == hash_of(&b), "equal identities hash alike");
    } else {
        reach("different identity");
    }
}
fn hash_of(x: &impl std::hash::Hash) -> u64 {
    let mut s = crate::c02::Sum(0);
    x.hash(&mut s);
    std::hash::Hasher::finish(&s)
}

// ---- C08 ----

fn realm(steps: usize) {
    use tp_client::realm::{Realm, RealmID};
    let mut r = Realm::new(RealmID::new(String::from("r")));
    check(r.time().ticks().as_millis() == 0, "a realm starts at time zero");
    let now: i32 = any();
    *r.time_mut().ticks_mut() = tp_client::time::Ticks::new(now);
    let shapes: [(&[usize], &[usize]); 2] = [(&[0, 11], &[0]), (&[11], &[0])];
    let mut ms = [Model::new(&shapes), Model::new(&shapes)];
    let kinds = [BaselineKind::Main, BaselineKind::Fork];
    let compare = |r: &mut Realm, ms: &[Model; 2]| {
        for i in 0..2 {
            check(r.baseline(kinds[i]).kind() == kinds[i], "the accessor gives the store of that kind");
            check(r.baseline_mut(kinds[i]).kind() == kinds[i], "the mutable accessor gives the store of that kind");
            ms[i].verify(r.baseline(kinds[i]));
            ms[i].verify(r.baseline_mut(kinds[i]));
        }
        check(r.time().ticks().as_millis() == now, "store operations do not move time");
    };
    compare(&mut r, &ms);
    let mut used = [false; 2];
    for _ in 0..steps {
        let i = choose(2);
        let m = &mut ms[i];
        let b = r.baseline_mut(kinds[i]);
        let op = choose(7);
        match op {
            0 => m.register(b, choose(2)),
            1 | 2 => {
                assume(m.cons.len() > 0);
                let c = choose(m.cons.len());
                let k = m.cons[c].k;
                if op == 1 {
                    m.unregister(b, k, c)
                } else {
                    m.create(b, k, c)
                }
            }
            _ => {
                assume(m.objs.len() > 0);
                let o = choose(m.objs.len());
                let k = m.cons[m.objs[o].c].k;
                match op {
                    3 => m.remove(b, k, o),
                    4 => m.write_state(b, o, 0),
                    5 => m.write_chan(b, o, 0),
                    _ => m.warp(b, o),
                }
            }
        }
        used[i] = true;
        compare(&mut r, &ms);
    }
    if used[0] && used[1] {
        reach("both stores used");
    }
}
#[no_mangle]
pub extern "C" fn h_c08_history4() {
    realm(4)
}
#[no_mangle]
pub extern "C" fn h_c08_history5() {
    realm(5)
}
#[no_mangle]
pub extern "C" fn h_c08_history6() {
    realm(6)
}
/// Handles from one store mean nothing special in the other: whatever is done through them, the first store stays.
#[no_mangle]
pub extern "C" fn h_c08_crossed() {
    use tp_client::realm::{Realm, RealmID};
    let mut r = Realm::new(RealmID::new(String::new()));
    let now: i32 = any();
    *r.time_mut().ticks_mut() = tp_client::time::Ticks::new(now);
    let kinds = [BaselineKind::Main, BaselineKind::Fork];
    let n = FEW[choose(FEW.len())];
    let shapes: [(&[usize], &[usize]); 1] = [(&[n, n], &[n])];
    let mut ms = [Model::new(&shapes), Model::new(&shapes)];
    for i in 0..2 {
        ms[i].register(r.baseline_mut(kinds[i]), 0);
        ms[i].create(r.baseline_mut(kinds[i]), 0, 0);
        ms[i].create(r.baseline_mut(kinds[i]), 0, 0);
    }
    let i = choose(2);
    let (x, y) = (choose(2), choose(5));
    let b = r.baseline_mut(kinds[i]);
    match y {
        0 => ms[i].write_state(b, x, 0),
        1 => ms[i].write_chan(b, x, 0),
        2 => ms[i].remove(b, 0, x),
        3 => ms[i].unregister(b, 0, 0),
        _ => ms[i].warp(b, x),
    }
    for j in 0..2 {
        ms[j].verify(r.baseline(kinds[j]));
    }
    check(r.time().ticks().as_millis() == now, "store operations do not move time");
    reach("crossed");
}
