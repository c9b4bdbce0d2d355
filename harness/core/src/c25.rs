//! C25: several producers and the engine, in any interleaving of a bounded number of preemptions.
use crate::types::*;
use crossbeam_channel::{RecvTimeoutError, TryRecvError, TrySendError};
use std::time::Duration;
use symapi::*;
use tp_client::action::property::{PropertyAction, StateAction};
use tp_client::action::{Action, Collaction, CollactionResult};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::StateHandle;
use tp_client::engine::{ActionSender, Engine};
use tp_client::realm::{Realm, RealmID};

const P: usize = 3;
/// What the threads tell each other outside the code under test (volatile: only one thread runs at a time).
struct Board {
    started: [usize; P],
    sent: [usize; P],
    refused: [usize; P],
    applied: usize,
}
static mut BOARD: Board = Board { started: [0; P], sent: [0; P], refused: [0; P], applied: 0 };
fn board() -> &'static mut Board {
    unsafe { &mut *std::hint::black_box(std::ptr::addr_of_mut!(BOARD)) }
}
fn sum(a: &[usize; P]) -> usize {
    a[0] + a[1] + a[2]
}
/// Value of the i-th collaction of producer p: tagged, else arbitrary.
fn value(p: usize, i: usize, x: u16) -> u32 {
    (x as u32) << 8 | (p as u32) << 4 | i as u32
}
#[derive(Clone, Copy)]
enum How {
    Send,
    TrySend,
}
fn collaction(h: StateHandle<u32>, v: u32) -> Collaction {
    Collaction::verif_new(vec![Action::Property(PropertyAction::State(StateAction::Write {
        handle: u32::dyn_state_handle(h),
        data: DynTpProperty::from(v),
    }))])
}
fn data(c: &Collaction) -> u32 {
    check(c.actions().len() == 1, "a collaction keeps its actions");
    match &c.actions()[0] {
        Action::Property(PropertyAction::State(StateAction::Write { data, .. })) => u32::unwrap_dyn(data.clone()).unwrap(),
        _ => 0,
    }
}
fn produce(tx: ActionSender, how: How, p: usize, h: StateHandle<u32>, vals: Vec<u32>, cap: Option<usize>) {
    for v in vals {
        board().started[p] += 1;
        let before = board().applied;
        match how {
            How::Send => match tx.send(collaction(h, v)) {
                Ok(()) => {}
                Err(_) => check(false, "a queue is open as long as its engine lives"),
            },
            How::TrySend => match tx.try_send(collaction(h, v)) {
                Ok(()) => {}
                Err(TrySendError::Full(c)) => {
                    reach("full");
                    check(data(&c) == v, "a refused collaction is handed back as it was");
                    let b = board();
                    let others = sum(&b.started) - sum(&b.refused) - 1;
                    check(cap.map_or(false, |n| others >= before + n), "a queue accepts its whole capacity");
                    b.refused[p] += 1;
                    continue;
                }
                Err(TrySendError::Disconnected(_)) => check(false, "a queue is open as long as its engine lives"),
            },
        }
        board().sent[p] += 1;
    }
}
struct Side {
    e: Engine,
    h: [StateHandle<u32>; P],
    cur: [u32; P],
    vals: Vec<Vec<u32>>,
    next: [usize; P],
    bad: usize,
}
impl Side {
    fn took(&mut self, r: CollactionResult, exact: bool) {
        let tag;
        match r {
            Ok(c) => {
                let old = data(&c);
                let mut changed = P;
                for p in 0..P {
                    let now = self.e.realm().baseline(BaselineKind::Fork).state(self.h[p]).unwrap().value;
                    if now != self.cur[p] {
                        check(changed == P, "one collaction changes one field");
                        check(old == self.cur[p], "an applied write hands back the value it replaced");
                        changed = p;
                        self.cur[p] = now;
                    }
                }
                check(changed < P, "an applied write is in effect");
                tag = self.cur[changed];
                check(changed != self.bad, "a collaction through a dead handle is rejected");
            }
            Err(c) => {
                reach("rejected");
                tag = data(&c);
                check((tag >> 4 & 15) as usize == self.bad, "a live collaction is applied");
            }
        }
        let p = (tag >> 4 & 15) as usize;
        check(p < self.vals.len(), "nothing is applied that was not sent");
        let i = (tag & 15) as usize;
        if exact {
            check(i == self.next[p], "those of one producer are applied in the order sent, once each");
        } else {
            check(i >= self.next[p], "those of one producer are applied in the order sent, at most once each");
        }
        check(tag == self.vals[p][i], "a collaction arrives as it was sent");
        self.next[p] = i + 1;
        board().applied += 1;
        if board().applied < sum(&board().sent) {
            reach("applied while others wait");
        }
    }
    /// One call of the engine; false if it found nothing.
    fn apply(&mut self, wait: bool, exact: bool) -> bool {
        let (sent, applied) = (sum(&board().sent), board().applied);
        if wait {
            match self.e.apply_timeout(Duration::from_secs(100000)) {
                Ok(r) => self.took(r, exact),
                Err(RecvTimeoutError::Timeout) => check(false, "a waiting apply gets what is sent meanwhile"),
                Err(RecvTimeoutError::Disconnected) => {
                    check(sum(&board().sent) <= board().applied, "nothing is left when the queue reports its end");
                    return false;
                }
            }
            return true;
        }
        match self.e.try_apply() {
            Ok(r) => {
                self.took(r, exact);
                true
            }
            Err(TryRecvError::Empty) => {
                check(sent <= applied, "what was sent before is found");
                reach("nothing pending");
                false
            }
            Err(TryRecvError::Disconnected) => {
                check(sum(&board().sent) <= board().applied, "nothing is left when the queue reports its end");
                false
            }
        }
    }
}
/// `n[p]` collactions from each producer; `before` calls of the engine while they run.
fn race(n: &[usize], before: usize, k: usize, cap: Option<usize>, how: How, wait: bool, bad: usize, fill: usize) {
    preemptions(k, n.len());
    let mut r = Realm::new(RealmID::new(String::new()));
    set_shape(0, vec![tp(2); P], vec![]);
    let b = r.baseline_mut(BaselineKind::Fork);
    let c = register(b, 0).unwrap();
    let v: Vec<Val> = (0..P).map(|p| Val::U32(255 << 4 | p as u32)).collect();
    let o = create(b, 0, c, &v, &[]).unwrap();
    let mut h = [raw_handle(0, 0); P];
    for p in 0..P {
        let s = v[p].state_slot(b, c, p, o).unwrap();
        h[p] = raw_handle(s.0, s.1);
    }
    let (e, tx) = Engine::new(r, cap);
    let mut s = Side { e, h, cur: [0xff0, 0xff1, 0xff2], vals: vec![], next: [0; P], bad };
    // bring the queue's position to where a block ends
    for i in 0..fill {
        let v = value(0, 0, 0) | 0x8000_0000 | (i as u32) << 8;
        tx.send(collaction(h[0], v)).ok();
        match s.e.try_apply() {
            Ok(Ok(_)) => {}
            _ => check(false, "one at a time"),
        }
        s.cur[0] = v;
    }
    let mut threads = vec![];
    for p in 0..n.len() {
        s.vals.push((0..n[p]).map(|i| value(p, i, any())).collect());
    }
    for p in 0..n.len() {
        let (tx, vals) = (tx.clone(), s.vals[p].clone());
        let h = if p == bad { raw_handle(7, 7) } else { h[p] };
        threads.push(spawn(move || produce(tx, how, p, h, vals, cap)));
    }
    drop(tx);
    let exact = matches!(how, How::Send);
    for _ in 0..before {
        if !s.apply(wait, exact) && !wait {
            std::thread::yield_now();
        }
    }
    if exact && cap.is_some() {
        let total: usize = n.iter().sum();
        while board().applied < total {
            if !s.apply(wait, exact) {
                std::thread::yield_now();
            }
        }
    }
    for t in threads {
        join(t);
    }
    while s.apply(wait, exact) {}
    let b = board();
    for p in 0..n.len() {
        check(b.sent[p] + b.refused[p] == n[p], "every send ends");
    }
    check(b.applied == sum(&b.sent), "as many are applied as were sent");
    match s.e.try_apply() {
        Err(TryRecvError::Disconnected) => {}
        _ => check(false, "the queue reports its end"),
    }
    reach("all applied");
}
const NONE: usize = P;

#[no_mangle]
pub extern "C" fn h_c25_one() {
    race(&[3], 3, 3, None, How::Send, false, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_two() {
    race(&[2, 2], 3, 2, None, How::Send, false, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_two3() {
    race(&[2, 2], 3, 3, None, How::Send, false, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_three() {
    race(&[1, 2, 1], 3, 2, None, How::Send, false, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_three3() {
    race(&[1, 2, 1], 3, 3, None, How::Send, false, NONE, 0)
}
/// One producer's collactions are all rejected.
#[no_mangle]
pub extern "C" fn h_c25_bad() {
    race(&[2, 2], 3, 2, None, How::Send, false, 0, 0)
}
/// Over the end of the queue's first block.
#[no_mangle]
pub extern "C" fn h_c25_block() {
    race(&[2, 2], 3, 2, None, How::Send, false, NONE, 29)
}
#[no_mangle]
pub extern "C" fn h_c25_block3() {
    race(&[2, 2], 3, 3, None, How::Send, false, NONE, 29)
}
#[no_mangle]
pub extern "C" fn h_c25_full1() {
    race(&[2, 2], 3, 2, Some(1), How::TrySend, false, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_full2() {
    race(&[2, 2], 3, 2, Some(2), How::TrySend, false, 1, 1)
}
#[no_mangle]
pub extern "C" fn h_c25_full3() {
    race(&[2, 2], 3, 3, Some(1), How::TrySend, false, NONE, 0)
}
/// Producers that wait for room.
#[no_mangle]
pub extern "C" fn h_c25_room() {
    race(&[2, 2], 0, 2, Some(1), How::Send, false, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_handover() {
    race(&[1, 1], 0, 2, Some(0), How::Send, false, NONE, 0)
}
/// An engine that waits for work.
#[no_mangle]
pub extern "C" fn h_c25_wait() {
    race(&[2, 1], 3, 2, None, How::Send, true, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_wait_room() {
    race(&[2, 1], 0, 2, Some(1), How::Send, true, NONE, 0)
}
#[no_mangle]
pub extern "C" fn h_c25_wait_handover() {
    race(&[1, 1], 0, 2, Some(0), How::Send, true, NONE, 0)
}
