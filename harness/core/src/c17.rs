//! C17, C18: the engine.
use crate::model::Model;
use crate::types::*;
use crossbeam_channel::{RecvTimeoutError, TryRecvError, TrySendError};
use std::collections::VecDeque;
use std::time::Duration;
use symapi::*;
use tp_client::action::property::{ChannelAction, PropertyAction, StateAction};
use tp_client::action::{Action, Collaction, CollactionResult};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::{DynStateHandle, StateHandle};
use tp_client::engine::{ActionSender, Engine};
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;

fn clamp(v: i64) -> i32 {
    if v > i32::MAX as i64 {
        i32::MAX
    } else if v < i32::MIN as i64 {
        i32::MIN
    } else {
        v as i32
    }
}
fn realm() -> Realm {
    Realm::new(RealmID::new(String::new()))
}
fn now(e: &Engine) -> i32 {
    e.realm().time().ticks().as_millis()
}
fn write(h: DynStateHandle, data: DynTpProperty) -> Action {
    Action::Property(PropertyAction::State(StateAction::Write { handle: h, data }))
}
fn assert(h: DynStateHandle, data: DynTpProperty) -> Action {
    Action::Property(PropertyAction::State(StateAction::Assert { handle: h, data }))
}
fn data_of(c: &Collaction, i: usize) -> &DynTpProperty {
    match &c.actions()[i] {
        Action::Property(PropertyAction::State(StateAction::Write { data, .. })) => data,
        Action::Property(PropertyAction::State(StateAction::Assert { data, .. })) => data,
        Action::Property(PropertyAction::Channel(ChannelAction::Write { data, .. })) => data,
        Action::Property(PropertyAction::Channel(ChannelAction::Assert { data, .. })) => data,
    }
}
fn is_u8(p: &DynTpProperty, v: u8) -> bool {
    match u8::unwrap_dyn(p.clone()) {
        Some(x) => x == v,
        None => false,
    }
}

// ---- C17 ----

fn ticking(n: usize) {
    let mut r = realm();
    set_shape(0, vec![tp(0)], vec![]);
    check(r.time().ticks().as_millis() == 0, "a realm starts at time zero");
    let mut fork = Model::new(&[(&[0], &[])]);
    let b = r.baseline_mut(BaselineKind::Fork);
    fork.register(b, 0);
    fork.create(b, 0, 0);
    let (mut e, tx) = Engine::new(r, if flag() { Some(1) } else { None });
    let mut t: i32 = any();
    *e.realm_mut().time_mut().ticks_mut() = Ticks::new(t);
    check(now(&e) == t, "the time set is the time read");
    for _ in 0..n {
        let d: i32 = any();
        e.tick(Ticks::new(d));
        let sum = t as i64 + d as i64;
        t = clamp(sum);
        check(now(&e) == t, "a tick advances the realm by exactly its amount");
        if sum > i32::MAX as i64 {
            reach("above the range");
        }
    }
    fork.verify(e.realm().baseline(BaselineKind::Fork));
    check(e.realm().baseline(BaselineKind::Main).iter_objects().next().is_none(), "ticking creates nothing");
    drop(tx);
}
#[no_mangle]
pub extern "C" fn h_c17_tick() {
    ticking(2)
}
#[no_mangle]
pub extern "C" fn h_c17_tick4() {
    ticking(4)
}

struct Rig {
    e: Engine,
    tx: Option<ActionSender>,
    h: StateHandle<u8>,
    cur: u8,
    queue: VecDeque<(bool, u8)>,
    t: i32,
}
fn rig(cap: Option<usize>) -> Rig {
    let mut r = realm();
    set_shape(0, vec![tp(0)], vec![]);
    let b = r.baseline_mut(BaselineKind::Fork);
    let c = register(b, 0).unwrap();
    let v = Val::plain(0);
    let o = create(b, 0, c, &[v.clone()], &[]).unwrap();
    let s = v.state_slot(b, c, 0, o).unwrap();
    let (e, tx) = Engine::new(r, cap);
    Rig { e, tx: Some(tx), h: raw_handle(s.0, s.1), cur: v.get::<u8>(), queue: VecDeque::new(), t: 0 }
}
impl Rig {
    fn collaction(&self, bad: bool, v: u8) -> Collaction {
        let h = if bad { raw_handle(7, 7) } else { self.h };
        Collaction::verif_new(vec![write(u8::dyn_state_handle(h), DynTpProperty::from(v))])
    }
    fn send(&mut self, cap: Option<usize>) {
        let (bad, v): (bool, u8) = (flag(), any());
        let c = self.collaction(bad, v);
        match &self.tx {
            Some(tx) => match tx.try_send(c) {
                Ok(()) => {
                    check(cap.map_or(true, |n| self.queue.len() < n), "a full queue accepts nothing");
                    self.queue.push_back((bad, v));
                }
                Err(TrySendError::Full(c)) => {
                    reach("full");
                    check(cap.map_or(false, |n| self.queue.len() == n), "a queue accepts its whole capacity");
                    check(c.actions().len() == 1 && is_u8(data_of(&c, 0), v), "a refused collaction is handed back as it was");
                }
                Err(TrySendError::Disconnected(_)) => check(false, "a queue is open as long as its engine lives"),
            },
            None => {}
        }
    }
    fn took(&mut self, r: CollactionResult) {
        let front = self.queue.pop_front();
        check(front.is_some(), "nothing is applied that was not submitted");
        let (bad, v) = front.unwrap();
        match r {
            Ok(c) => {
                check(!bad, "a collaction through a dead handle is rejected");
                check(c.actions().len() == 1, "an applied collaction keeps its actions");
                self.cur = v;
                reach("applied");
            }
            Err(c) => {
                check(bad, "a collaction through a live handle is applied");
                check(c.actions().len() == 1 && is_u8(data_of(&c, 0), v), "a rejected collaction is handed back as it was");
                reach("rejected");
            }
        }
    }
    fn step(&mut self, cap: Option<usize>, op: usize) {
        match op {
            0 => self.send(cap),
            1 => match self.e.try_apply() {
                Ok(r) => self.took(r),
                Err(TryRecvError::Empty) => {
                    check(self.queue.is_empty() && self.tx.is_some(), "a pending collaction is applied");
                    reach("nothing pending");
                }
                Err(TryRecvError::Disconnected) => {
                    check(self.queue.is_empty() && self.tx.is_none(), "every collaction is applied before the queue closes");
                    reach("closed");
                }
            },
            2 => match self.e.apply_timeout(Duration::from_nanos(0)) {
                Ok(r) => self.took(r),
                Err(RecvTimeoutError::Timeout) => {
                    check(self.queue.is_empty() && self.tx.is_some(), "a pending collaction is applied");
                    reach("timed out");
                }
                Err(RecvTimeoutError::Disconnected) => {
                    check(self.queue.is_empty() && self.tx.is_none(), "every collaction is applied before the queue closes");
                }
            },
            3 => {
                let d: i32 = any();
                self.e.tick(Ticks::new(d));
                self.t = clamp(self.t as i64 + d as i64);
            }
            _ => self.tx = None,
        }
        let s = self.e.realm().baseline(BaselineKind::Fork).state(self.h);
        check(s.map_or(false, |s| s.value == self.cur), "the store holds what was applied last");
        check(now(&self.e) == self.t, "only ticks move time");
    }
}
fn queue(n: usize) {
    let cap = match choose(4) {
        0 => None,
        1 => Some(1),
        2 => Some(2),
        _ => Some(0),
    };
    let mut r = rig(cap);
    for _ in 0..n {
        r.step(cap, choose(5));
    }
    // whatever is left comes out in order
    while !r.queue.is_empty() {
        r.step(cap, 1);
    }
    r.step(cap, 1);
}
#[no_mangle]
pub extern "C" fn h_c17_queue3() {
    queue(3)
}
#[no_mangle]
pub extern "C" fn h_c17_queue4() {
    queue(4)
}
#[no_mangle]
pub extern "C" fn h_c17_queue5() {
    queue(5)
}
#[no_mangle]
pub extern "C" fn h_c17_queue6() {
    queue(6)
}
#[no_mangle]
pub extern "C" fn h_c17_queue7() {
    queue(7)
}
/// More collactions than fit in one block of the queue, submitted in up to three runs.
#[no_mangle]
pub extern "C" fn h_c17_long() {
    let cap = if flag() { None } else { Some(33) };
    let mut r = rig(cap);
    let (a, b) = ([1, 30, 33][choose(3)], [0, 1, 29][choose(3)]);
    for _ in 0..a {
        r.send_plain();
    }
    for _ in 0..b {
        r.step(cap, 1);
    }
    for _ in 0..(33 - r.queue.len()) {
        r.send_plain();
    }
    if cap.is_some() {
        let c = r.collaction(false, 0);
        check(r.tx.as_ref().unwrap().try_send(c).is_err(), "a full queue accepts nothing");
        reach("full");
    }
    while !r.queue.is_empty() {
        r.step(cap, 1);
    }
    r.step(cap, 1);
}
/// Bounded queues hold their capacity, neither more nor less, however full they were before.
#[no_mangle]
pub extern "C" fn h_c17_capacity() {
    let n = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 64, 100][choose(16)];
    let mut r = rig(Some(n));
    let full = |r: &Rig| {
        let v: u8 = any();
        match r.tx.as_ref().unwrap().try_send(r.collaction(false, v)) {
            Err(TrySendError::Full(c)) => check(is_u8(data_of(&c, 0), v), "a refused collaction is handed back as it was"),
            _ => check(false, "a full queue accepts nothing"),
        }
        reach("full");
    };
    for _ in 0..n {
        r.send_plain();
    }
    full(&r);
    for _ in 0..n.min(3) {
        r.step(Some(n), 1);
    }
    for _ in 0..n.min(3) {
        r.send_plain();
    }
    full(&r);
    while !r.queue.is_empty() {
        r.step(Some(n), 1);
        reach("applied");
    }
    r.step(Some(n), 1);
}
impl Rig {
    fn send_plain(&mut self) {
        let v: u8 = any();
        let c = self.collaction(false, v);
        check(self.tx.as_ref().unwrap().try_send(c).is_ok(), "a queue accepts its whole capacity");
        self.queue.push_back((false, v));
    }
}

// ---- C18 ----

const SHAPE: [usize; 3] = [0, 0, 11]; // u8, u8, String
#[derive(Clone)]
enum Act {
    /// kind, field of the live object, data
    Live(bool, usize, Val),
    /// kind, through a handle that no longer resolves
    Stale(bool, Val),
    /// kind, through the live object's field, with data of another type
    Mismatch(bool, usize, Val),
    Channel(bool, Val),
}
struct World {
    e: Engine,
    tx: ActionSender,
    main: Model,
    fork: Model,
    chan: (usize, u64),
}
fn world() -> World {
    let mut r = realm();
    let chans = [4];
    let mut fork = Model::new(&[(&SHAPE, &chans)]);
    let mut main = Model::new(&[(&SHAPE, &chans)]);
    for (m, k) in [(&mut main, BaselineKind::Main), (&mut fork, BaselineKind::Fork)] {
        let b = r.baseline_mut(k);
        m.register(b, 0);
        m.create(b, 0, 0);
        m.create(b, 0, 0);
    }
    // a removed object leaves handles behind that no longer resolve
    fork.remove(r.baseline_mut(BaselineKind::Fork), 0, 1);
    let chan = fork.objs[0].ch[0].1;
    let (e, tx) = Engine::new(r, None);
    World { e, tx, main, fork, chan }
}
struct DynH((usize, u64));
impl Visit<DynStateHandle> for DynH {
    fn on<T: Ty>(self, _: &T) -> DynStateHandle {
        T::dyn_state_handle(raw_handle(self.0 .0, self.0 .1))
    }
}
fn handle(v: &Val, slot: (usize, u64)) -> DynStateHandle {
    v.visit(DynH(slot))
}
impl World {
    fn pick(&self) -> Act {
        let w = flag();
        match choose(6) {
            f @ 0..=2 => Act::Live(w, f, Val::plain(SHAPE[f])),
            3 => Act::Stale(w, Val::plain(0)),
            4 => Act::Mismatch(w, 0, Val::plain(11)),
            _ => Act::Channel(w, Val::plain(4)),
        }
    }
    fn action(&self, a: &Act) -> Action {
        let f = &self.fork;
        let (w, h, v) = match a {
            Act::Live(w, i, v) => (*w, handle(v, f.objs[0].st[*i].1), v),
            Act::Stale(w, v) => (*w, handle(v, f.objs[1].st[0].1), v),
            Act::Mismatch(w, i, v) => (*w, handle(&f.objs[0].st[*i].0, f.objs[0].st[*i].1), v),
            Act::Channel(w, v) => {
                let handle = i8::dyn_chan_handle(raw_handle(self.chan.0, self.chan.1));
                let data = v.dyn_prop();
                return Action::Property(PropertyAction::Channel(if *w {
                    ChannelAction::Write { handle, data }
                } else {
                    ChannelAction::Assert { handle, data }
                }));
            }
        };
        if w {
            write(h, v.dyn_prop())
        } else {
            assert(h, v.dyn_prop())
        }
    }
    /// Applies `acts` to the engine and to the model.
    fn apply(&mut self, acts: &[Act]) {
        let c = Collaction::verif_new(acts.iter().map(|a| self.action(a)).collect());
        check(self.tx.try_send(c).is_ok(), "an unbounded queue accepts");
        let mut new: Vec<Val> = self.fork.objs[0].st.iter().map(|(v, _)| v.clone()).collect();
        let mut ok = true;
        let mut wrote = false;
        for a in acts {
            match a {
                Act::Live(true, i, v) => {
                    new[*i] = v.clone();
                    wrote = true;
                }
                Act::Live(false, i, v) => ok = new[*i].equal(v),
                Act::Channel(..) => {}
                _ => ok = false,
            }
            if !ok {
                break;
            }
        }
        match self.e.try_apply() {
            Ok(Ok(c)) => {
                check(ok, "a collaction with a failing action is rejected");
                check(c.actions().len() == acts.len(), "an applied collaction keeps its actions");
                for (i, v) in new.into_iter().enumerate() {
                    self.fork.objs[0].st[i].0 = v;
                }
                if wrote {
                    reach("applied");
                }
            }
            Ok(Err(c)) => {
                check(!ok, "a collaction whose assertions hold and whose handles live is applied");
                check(c.actions().len() == acts.len(), "a rejected collaction keeps its actions");
                for (i, a) in acts.iter().enumerate() {
                    let v = match a {
                        Act::Live(_, _, v) | Act::Stale(_, v) | Act::Mismatch(_, _, v) | Act::Channel(_, v) => v,
                    };
                    check(value(data_of(&c, i)).map_or(false, |x| x.same(v)), "a rejected collaction is handed back as it was");
                }
                if wrote {
                    reach("rolled back");
                }
            }
            Err(_) => check(false, "a submitted collaction is taken"),
        }
        self.main.verify(self.e.realm().baseline(BaselineKind::Main));
        self.fork.verify(self.e.realm().baseline(BaselineKind::Fork));
        check(now(&self.e) == 0, "applying does not move time");
    }
}
/// A dynamic value as plain data.
fn value(p: &DynTpProperty) -> Option<Val> {
    match p {
        DynTpProperty::Primitive(_) => {
            if let Some(x) = u8::unwrap_dyn(p.clone()) {
                Some(Val::U8(x))
            } else if let Some(x) = i8::unwrap_dyn(p.clone()) {
                Some(Val::I8(x))
            } else {
                String::unwrap_dyn(p.clone()).map(Val::String)
            }
        }
        DynTpProperty::Vec(_) => None,
    }
}
fn collaction(n: usize) {
    let mut w = world();
    let acts: Vec<Act> = (0..n).map(|_| w.pick()).collect();
    w.apply(&acts);
}
#[no_mangle]
pub extern "C" fn h_c18_collaction2() {
    collaction(2)
}
#[no_mangle]
pub extern "C" fn h_c18_collaction3() {
    collaction(3)
}
#[no_mangle]
pub extern "C" fn h_c18_collaction4() {
    collaction(4)
}
#[no_mangle]
pub extern "C" fn h_c18_collaction5() {
    collaction(5)
}
/// Writes to few fields and one assertion anywhere: longer sequences, rolled back from the end.
fn rollback(n: usize) {
    let mut w = world();
    let acts: Vec<Act> = (0..n)
        .map(|_| {
            let f = choose(2);
            Act::Live(true, f, Val::plain(0))
        })
        .collect();
    let at = choose(n + 1);
    let last = match choose(3) {
        0 => Act::Live(false, choose(2), Val::plain(0)),
        1 => Act::Stale(flag(), Val::plain(0)),
        _ => Act::Mismatch(flag(), 1, Val::plain(11)),
    };
    let mut acts = acts;
    acts.insert(at, last);
    w.apply(&acts);
}
#[no_mangle]
pub extern "C" fn h_c18_rollback4() {
    rollback(4)
}
#[no_mangle]
pub extern "C" fn h_c18_rollback6() {
    rollback(6)
}
/// Writes and assertions that hold, in any order, then one action that fails: all of it is undone.
fn undo(n: usize, tails: usize) {
    let mut w = world();
    let mut cur: Vec<Val> = w.fork.objs[0].st[..2].iter().map(|x| x.0.clone()).collect();
    let mut acts: Vec<Act> = (0..n)
        .map(|_| {
            let f = choose(2);
            if flag() {
                let v = Val::plain(0);
                cur[f] = v.clone();
                Act::Live(true, f, v)
            } else {
                Act::Live(false, f, cur[f].clone())
            }
        })
        .collect();
    acts.push(match choose(tails) {
        0 => Act::Stale(true, Val::plain(0)),
        1 => Act::Mismatch(false, 1, Val::plain(11)),
        2 => Act::Live(false, 0, Val::U8(!cur[0].get::<u8>())),
        _ => Act::Live(false, 0, cur[0].clone()),
    });
    w.apply(&acts);
}
#[no_mangle]
pub extern "C" fn h_c18_undo5() {
    undo(5, 1)
}
#[no_mangle]
pub extern "C" fn h_c18_undo4() {
    undo(4, 4)
}
#[no_mangle]
pub extern "C" fn h_c18_undo7() {
    undo(7, 2)
}
/// Many actions: rejected at the end, in the middle, or not at all.
#[no_mangle]
pub extern "C" fn h_c18_long() {
    let mut w = world();
    let n = [9, 16, 17, 33][choose(4)];
    let every = 1 + choose(3);
    let mut cur: Vec<Val> = w.fork.objs[0].st.iter().map(|x| x.0.clone()).collect();
    let mut acts: Vec<Act> = (0..n)
        .map(|i| {
            let f = (i / every) % 3;
            if i % 4 == 2 {
                Act::Live(false, f, cur[f].clone())
            } else {
                let v = Val::plain(SHAPE[f]);
                cur[f] = v.clone();
                Act::Live(true, f, v)
            }
        })
        .collect();
    match choose(3) {
        0 => acts.push(Act::Stale(true, Val::plain(0))),
        1 => acts.insert(n / 2, Act::Stale(false, Val::plain(0))),
        _ => {}
    }
    w.apply(&acts);
}
/// Two collactions one after the other: the second starts from what the first left.
#[no_mangle]
pub extern "C" fn h_c18_two() {
    let mut w = world();
    let a: Vec<Act> = (0..2).map(|_| w.pick()).collect();
    w.apply(&a);
    let b = vec![w.pick()];
    w.apply(&b);
    reach("two applied");
}
/// No actions: applied, nothing changes.
#[no_mangle]
pub extern "C" fn h_c18_empty() {
    let mut w = world();
    w.apply(&[]);
    reach("empty");
}
/// Every type: write, assert, and possibly a last action that fails.
#[no_mangle]
pub extern "C" fn h_c18_types() {
    let n = choose(NT);
    let mut r = realm();
    let mut m = Model::new(&[(&[n], &[])]);
    {
        let b = r.baseline_mut(BaselineKind::Fork);
        m.full = true;
        m.register(b, 0);
        m.create(b, 0, 0);
    }
    let old = m.objs[0].st[0].0.clone();
    let h = handle(&old, m.objs[0].st[0].1);
    let (v, x) = (Val::any(n), Val::plain(n));
    let fails = choose(3);
    let mut acts = vec![];
    let mut ok = true;
    if fails == 1 {
        // an assertion before the write sees the old value
        acts.push(assert(h, x.dyn_prop()));
        ok = old.equal(&x);
    }
    acts.push(write(h, v.dyn_prop()));
    if fails != 1 {
        // one after it sees the new value
        acts.push(assert(h, x.dyn_prop()));
        ok = v.equal(&x);
    }
    if fails == 2 {
        acts.push(write(handle(&old, (9, 9)), v.dyn_prop()));
        ok = false;
    }
    let (mut e, tx) = Engine::new(r, None);
    check(tx.try_send(Collaction::verif_new(acts)).is_ok(), "an unbounded queue accepts");
    match e.try_apply() {
        Ok(Ok(_)) => {
            check(ok, "a collaction with a failing action is rejected");
            m.objs[0].st[0].0 = v;
            reach("applied");
        }
        Ok(Err(_)) => {
            check(!ok, "a collaction whose assertions hold and whose handles live is applied");
            reach("rejected");
        }
        Err(_) => check(false, "a submitted collaction is taken"),
    }
    m.verify(e.realm().baseline(BaselineKind::Fork));
}
/// A handle of one type with data of another, for every pair of types: rejected.
#[no_mangle]
pub extern "C" fn h_c18_pairs() {
    let (n, k) = (choose(NT), choose(NT));
    assume(n != k);
    let mut r = realm();
    let mut m = Model::new(&[(&[n, k], &[])]);
    {
        let b = r.baseline_mut(BaselineKind::Fork);
        m.register(b, 0);
        m.create(b, 0, 0);
    }
    let h = handle(&m.objs[0].st[0].0, m.objs[0].st[0].1);
    let v = Val::plain(k);
    let a = if flag() { write(h, v.dyn_prop()) } else { assert(h, v.dyn_prop()) };
    let (mut e, tx) = Engine::new(r, None);
    check(tx.try_send(Collaction::verif_new(vec![a])).is_ok(), "an unbounded queue accepts");
    check(matches!(e.try_apply(), Ok(Err(_))), "data of another type is rejected");
    m.verify(e.realm().baseline(BaselineKind::Fork));
    reach("rejected");
}
/// Any handle at all: takes effect exactly when it is the one of the live field.
#[no_mangle]
pub extern "C" fn h_c18_forged() {
    let mut w = world();
    let (i, g): (usize, u64) = (any(), any());
    let v = Val::plain(0);
    let n = w.fork.objs[0].st.len();
    let hit: Vec<bool> = (0..n).map(|f| (w.fork.objs[0].st[f].1 == (i, g)) & (SHAPE[f] == 0)).collect();
    let a = write(u8::dyn_state_handle(raw_handle(i, g)), v.dyn_prop());
    check(w.tx.try_send(Collaction::verif_new(vec![a])).is_ok(), "an unbounded queue accepts");
    match w.e.try_apply() {
        Ok(Ok(_)) => {
            check(hit[0] | hit[1], "a write takes effect through a live handle only");
            let f = if hit[0] { 0 } else { 1 };
            w.fork.objs[0].st[f].0 = v;
            reach("applied");
        }
        Ok(Err(_)) => {
            check(!(hit[0] | hit[1]), "a write through a live handle takes effect");
            reach("rejected");
        }
        Err(_) => check(false, "a submitted collaction is taken"),
    }
    w.main.verify(w.e.realm().baseline(BaselineKind::Main));
    w.fork.verify(w.e.realm().baseline(BaselineKind::Fork));
}
