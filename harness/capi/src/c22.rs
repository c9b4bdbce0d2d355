//! C22: the exported functions of stores against the Rust calls on the same store.
use crate::c::*;
use crate::types::*;
use symapi::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::*;
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::{Object, ObjectHandle};

unsafe fn store<'a>(p: P) -> &'a mut Baseline {
    &mut *(p as *mut Baseline)
}
unsafe fn new_store() -> P {
    let k = choose(2);
    let b = tp_client__baseline__Baseline__new(k as u8);
    check(tp_client__baseline__Baseline__kind(b) == k as u8, "a store is of the kind asked for");
    let same = match store(b).kind() {
        BaselineKind::Main => k == 0,
        BaselineKind::Fork => k == 1,
    };
    check(same, "both interfaces report the same kind");
    b
}
/// Two objects of a contract with fields [other, T, T] and channels [T, other, T].
struct World<T: CFns> {
    bp: P,
    c: ContractDataHandle,
    o: [ObjectHandle; 2],
    s: [[T; 2]; 2],
    k: [[T; 2]; 2],
    other: usize,
}
impl<T: CFns> World<T> {
    unsafe fn new(any_values: bool) -> Self {
        let bp = new_store();
        let b = store(bp);
        let v = || if any_values { T::plain() } else { T::zero() };
        let other = (T::N + 1) % 14;
        set_shape(0, vec![tp(other), tp(T::N), tp(T::N)], vec![tp(T::N), tp(other), tp(T::N)]);
        let c = register(b, 0).unwrap();
        let s = [[v(), v()], [v(), v()]];
        let k = [[v(), v()], [v(), v()]];
        let mut o = vec![];
        for i in 0..2 {
            let st = vec![Val::plain(other).dyn_prop(), s[i][0].clone().dyn_prop(), s[i][1].clone().dyn_prop()];
            let ch = vec![T::dyn_chan(chan_of(&k[i][0])), Val::plain(other).dyn_chan(), T::dyn_chan(chan_of(&k[i][1]))];
            o.push(b.object_create(&K::<0>(c), st.into_iter(), ch.into_iter()).unwrap());
        }
        World { bp, c, o: [o[0], o[1]], s, k, other }
    }
    fn sid(&self, f: usize) -> StateId<T> {
        StateId::new(1 + f, self.c)
    }
    fn cid(&self, f: usize) -> ChannelId<T> {
        ChannelId::new(2 * f, self.c)
    }
    /// Every field, through both interfaces.
    unsafe fn verify(&self) {
        for i in 0..2 {
            for f in 0..2 {
                let h = T::bind_state(self.bp, by_ref(&self.sid(f)), by_ref(&self.o[i]));
                let rh = store(self.bp).bind_state(self.sid(f), self.o[i]).unwrap();
                check((*(h as *const StateHandle<T>)).same(&rh), "state handles bind to the same field");
                let st = T::state(self.bp, h);
                check(st as usize == store(self.bp).state(rh).unwrap() as *const State<T> as usize, "both interfaces reach the same state");
                check(st == T::state_mut(self.bp, h), "shared and exclusive access reach the same state");
                check(self.s[i][f].is(T::state_value(st)), "the state reads as it should");
                T::state_handle_drop(h);

                let h = T::bind_channel(self.bp, by_ref(&self.cid(f)), by_ref(&self.o[i]));
                let rh = store(self.bp).bind_channel(self.cid(f), self.o[i]).unwrap();
                check((*(h as *const ChannelHandle<T>)).same(&rh), "channel handles bind to the same field");
                let ch = T::channel(self.bp, h);
                check(ch as usize == store(self.bp).channel(rh).unwrap() as *const Channel<T> as usize, "both interfaces reach the same channel");
                check(ch == T::channel_mut(self.bp, h), "shared and exclusive access reach the same channel");
                let kf = T::channel_keyframes(ch);
                check(kf.len == 1, "the channel has its keyframe");
                let k0 = *(kf.ptr as *const P);
                check(self.k[i][f].is(T::keyframe_value(k0)), "the channel reads as it should");
                check(T::keyframe_time(k0).to_bits() == 1.5f64.to_bits(), "the channel's times read as they should");
                drop(Vec::from_raw_parts(kf.ptr as *mut P, kf.len, kf.cap));
                drop(Box::from_raw(h as *mut ChannelHandle<T>));
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c22_fields() {
    struct F;
    impl ForC for F {
        fn run<T: CFns>(&mut self) {
            unsafe {
                let mut w = World::<T>::new(true);
                w.verify();
                // write one state through the C interface
                let (i, f) = (choose(2), choose(2));
                let v = T::any();
                let h = T::bind_state(w.bp, by_ref(&w.sid(f)), by_ref(&w.o[i]));
                T::state_value_set(T::state_mut(w.bp, h), v.give());
                check(store(w.bp).state(w.o_state(i, f)).unwrap().value.same(&v), "the value set is the value read");
                T::state_handle_drop(h);
                w.s[i][f] = v;
                w.verify();
                reach("written");
            }
        }
    }
    for_c(choose(14), &mut F)
}
impl<T: CFns> World<T> {
    unsafe fn o_state(&self, i: usize, f: usize) -> StateHandle<T> {
        store(self.bp).bind_state(self.sid(f), self.o[i]).unwrap()
    }
}
#[no_mangle]
pub extern "C" fn h_c22_channel_write() {
    struct F;
    impl ForC for F {
        fn run<T: CFns>(&mut self) {
            unsafe {
                let mut w = World::<T>::new(true);
                let (i, f) = (choose(2), choose(2));
                let v = T::plain();
                let h = T::bind_channel(w.bp, by_ref(&w.cid(f)), by_ref(&w.o[i]));
                let kf = T::channel_keyframes_mut(T::channel_mut(w.bp, h));
                check(kf.len == 1, "the channel has its keyframe");
                *(*(kf.ptr as *const P) as *mut Keyframe<T>) = Keyframe::new(v.clone(), 1.5);
                drop(Vec::from_raw_parts(kf.ptr as *mut P, kf.len, kf.cap));
                w.k[i][f] = v;
                w.verify();
                reach("written");
            }
        }
    }
    for_c(choose(14), &mut F)
}
#[no_mangle]
pub extern "C" fn h_c22_invalid() {
    struct F;
    impl ForC for F {
        fn run<T: CFns>(&mut self) {
            unsafe {
                let w = World::<T>::new(false);
                let (bp, b) = (w.bp, store(w.bp));
                let sh: StateHandle<T> = b.bind_state(w.sid(0), w.o[0]).unwrap();
                let ch: ChannelHandle<T> = b.bind_channel(w.cid(0), w.o[0]).unwrap();
                let what = choose(14);
                // ids of another contract, or beyond the fields
                set_shape(2, vec![tp(T::N)], vec![tp(T::N)]);
                let foreign = register(b, 2).unwrap();
                let far: usize = any();
                assume(far >= 3);
                if what < 10 {
                    b.object_remove::<K<0>>(w.o[0]).unwrap();
                }
                let o = by_ref(&w.o[0]);
                let live = by_ref(&w.o[1]);
                reach("refused");
                match what {
                    0 => must_panic("a dead state handle is refused", || T::state(bp, by_ref(&sh))),
                    1 => must_panic("a dead state handle is refused (mut)", || T::state_mut(bp, by_ref(&sh))),
                    2 => must_panic("a dead channel handle is refused", || T::channel(bp, by_ref(&ch))),
                    3 => must_panic("a dead channel handle is refused (mut)", || T::channel_mut(bp, by_ref(&ch))),
                    4 => must_panic("a dead object is refused", || tp_client__baseline__Baseline__object(bp, o)),
                    5 => must_panic("a dead object is refused (mut)", || tp_client__baseline__Baseline__object_mut(bp, o)),
                    6 => must_panic("binding to a dead object is refused", || T::bind_state(bp, by_ref(&w.sid(0)), o)),
                    7 => must_panic("binding a channel to a dead object is refused", || T::bind_channel(bp, by_ref(&w.cid(0)), o)),
                    8 => {
                        b.unregister_contract::<K<0>>(w.c).unwrap();
                        must_panic("a dead contract is refused", || tp_client__baseline__Baseline__contract_data(bp, by_ref(&w.c)))
                    }
                    9 => {
                        let g: u64 = any();
                        assume(far >= 64); // more than any arena here has slots
                        let h: StateHandle<T> = raw_handle(far, g);
                        must_panic("a forged state handle is refused", || T::state(bp, by_ref(&h)))
                    }
                    10 => must_panic("another contract's state id is refused", || T::bind_state(bp, by_ref(&StateId::<T>::new(0, foreign)), live)),
                    11 => must_panic("another contract's channel id is refused", || T::bind_channel(bp, by_ref(&ChannelId::<T>::new(0, foreign)), live)),
                    12 => must_panic("a state id beyond the fields is refused", || T::bind_state(bp, by_ref(&StateId::<T>::new(far, w.c)), live)),
                    _ => must_panic("a channel id beyond the fields is refused", || T::bind_channel(bp, by_ref(&ChannelId::<T>::new(far, w.c)), live)),
                }
            }
        }
    }
    for_c(choose(14), &mut F)
}
#[no_mangle]
pub extern "C" fn h_c22_values() {
    // states and keyframes on their own: construction, reading, writing, release
    struct F;
    impl ForC for F {
        fn run<T: CFns>(&mut self) {
            unsafe {
                let (a, b) = (T::any(), T::any());
                let t: f64 = any();
                let blocks = live_heap();
                let s = T::state_new(a.give());
                check(a.is(T::state_value(s)), "a new state has its value");
                check((*(s as *const State<T>)).value.same(&a), "and the Rust side agrees");
                T::state_value_set(s, b.give());
                check(b.is(T::state_value(s)), "the value set is the value read");
                T::state_drop(s);
                check(live_heap() == blocks, "dropping a state frees it");
                let k = T::keyframe_new(a.give(), t);
                check(a.is(T::keyframe_value(k)), "a keyframe has its value");
                check(T::keyframe_time(k).to_bits() == t.to_bits(), "a keyframe has its time");
                let rk = &*(k as *const Keyframe<T>);
                check(rk.value().same(&a) & (rk.time().to_bits() == t.to_bits()), "and the Rust side agrees on it");
                T::keyframe_drop(k);
                check(live_heap() == blocks, "dropping a keyframe frees it");
                let v = a.give();
                check(a.is(v), "a value crosses the interface unchanged");
                T::discard(v);
                check(live_heap() == blocks, "dropping a value frees it");
                // ids know their contract
                let c: ContractDataHandle = raw_handle(any(), any());
                let si = boxed(StateId::<T>::new(any(), c));
                let p = T::state_id_contract(si);
                check((*(p as *const ContractDataHandle)).same(&c), "a state id tells its contract");
                tp_client__contract__ContractDataHandle__drop(p);
                T::state_id_drop(si);
                let ci = ChannelId::<T>::new(any(), c);
                let p = T::channel_id_contract(by_ref(&ci));
                check((*(p as *const ContractDataHandle)).same(&c), "a channel id tells its contract");
                tp_client__contract__ContractDataHandle__drop(p);
                let h: StateHandle<T> = raw_handle(any(), any());
                T::state_handle_drop(boxed(h));
                check(live_heap() == blocks, "dropping ids and handles frees them");
                reach("made and released");
            }
        }
    }
    for_c(choose(14), &mut F)
}
fn channel<T: CFns>(n: usize) {
    unsafe {
        let vals: Vec<T> = (0..n).map(|_| T::plain()).collect();
        let times: Vec<f64> = (0..n).map(|_| any()).collect();
        for t in &times {
            assume(!t.is_nan());
        }
        let blocks = live_heap();
        let mut v = T::vec_new();
        for i in 0..n {
            T::vec_push(&mut v, T::keyframe_new(vals[i].give(), times[i]));
        }
        let c = T::channel_new(v);
        let rc = Channel::new((0..n).map(|i| Keyframe::new(vals[i].clone(), times[i])));
        let kf = T::channel_keyframes(c);
        check(kf.len == n, "the channel has every keyframe");
        let rust = (*(c as *const Channel<T>)).keyframes();
        check(rust.len() == n, "and the Rust side agrees");
        for i in 0..kf.len {
            let k = *(kf.ptr as *const P).add(i);
            check(T::keyframe_time(k) == rc.keyframes()[i].time(), "times in the order the Rust constructor gives");
            check(rc.keyframes()[i].value().is(T::keyframe_value(k)), "values in the order the Rust constructor gives");
            check(k as usize == &rust[i] as *const Keyframe<T> as usize, "the views are of the channel's own keyframes");
        }
        drop(Vec::from_raw_parts(kf.ptr as *mut P, kf.len, kf.cap));
        let kf = T::channel_keyframes_mut(c);
        check(kf.len == n, "the channel has every keyframe to edit");
        for i in 0..kf.len {
            let k = *(kf.ptr as *const P).add(i);
            check(k as usize == &rust[i] as *const Keyframe<T> as usize, "the exclusive views are of the channel's own keyframes");
        }
        drop(Vec::from_raw_parts(kf.ptr as *mut P, kf.len, kf.cap));
        T::channel_drop(c);
        drop(rc);
        check(live_heap() == blocks, "dropping a channel frees every keyframe once");
        reach("channel made");
    }
}
#[no_mangle]
pub extern "C" fn h_c22_channels() {
    struct F;
    impl ForC for F {
        fn run<T: CFns>(&mut self) {
            channel::<T>(2)
        }
    }
    for_c(choose(14), &mut F)
}
#[no_mangle]
pub extern "C" fn h_c22_channels_long() {
    channel::<u32>(choose(4))
}

struct Named(ContractDataHandle);
impl Contract for Named {
    type States = ();
    type Channels = ();
    const ID: ContractId = ContractId { name: "näme of a contract", version: (1, 300, 65535) };
    fn new(h: ContractDataHandle) -> Self {
        Named(h)
    }
    fn states(&self) -> &() {
        &()
    }
    fn channels(&self) -> &() {
        &()
    }
    fn handle(&self) -> ContractDataHandle {
        self.0
    }
}
unsafe fn contract_is(bp: P, c: ContractDataHandle, id: ContractId, objects: &[ObjectHandle]) {
    let d = tp_client__baseline__Baseline__contract_data(bp, by_ref(&c));
    let i = tp_client__contract__ContractData__id(d);
    check(bytes_same(tp_client__contract__ContractId__name(i).get(), id.name.as_bytes()), "a contract tells its name");
    let v = tp_client__contract__ContractId__version(i);
    check(v.major == id.version.0, "a contract tells its major version");
    check(v.minor == id.version.1, "a contract tells its minor version");
    check(v.patch == id.version.2, "a contract tells its patch version");
    let o = tp_client__contract__ContractData__objects(d);
    check(o.len == objects.len(), "a contract lists as many objects as it has");
    let l = std::slice::from_raw_parts(o.ptr as *const ObjectHandle, o.len);
    for x in objects {
        check(l.iter().any(|y| y.same(x)), "a contract lists each of its objects");
    }
    drop(Vec::from_raw_parts(o.ptr as *mut ObjectHandle, o.len, o.cap));
}
/// Any identity at all, as the exported functions tell it.
#[no_mangle]
pub extern "C" fn h_c22_id() {
    unsafe {
        let n = choose(4);
        let mut name = String::new();
        for _ in 0..n {
            name.as_mut_vec().push(bits(7) as u8);
        }
        let name: &'static str = Box::leak(name.into_boxed_str());
        let id = ContractId { name, version: (any(), any(), any()) };
        let p = by_ref(&id);
        check(bytes_same(tp_client__contract__ContractId__name(p).get(), name.as_bytes()), "an identity tells its name");
        let v = tp_client__contract__ContractId__version(p);
        check(v.major == id.version.0, "an identity tells its major version");
        check(v.minor == id.version.1, "an identity tells its minor version");
        check(v.patch == id.version.2, "an identity tells its patch version");
        reach("told");
    }
}
fn identity(steps: usize) {
    unsafe {
        let bp = new_store();
        let b = store(bp);
        let none = || Vec::<DynTpProperty>::new().into_iter();
        let nochan = || Vec::<DynChannel>::new().into_iter();
        let k0 = register(b, 0).unwrap();
        let named = b.register_contract::<Named>().unwrap();
        let mut obj: [Vec<ObjectHandle>; 2] = [vec![], vec![]];
        for _ in 0..steps {
            match choose(4) {
                0 => obj[0].push(b.object_create(&K::<0>(k0), none(), nochan()).unwrap()),
                1 => obj[1].push(b.object_create(&named, none(), nochan()).unwrap()),
                2 => {
                    if let Some(o) = obj[0].pop() {
                        b.object_remove::<K<0>>(o).unwrap();
                    }
                }
                _ => {
                    if obj[1].len() > 0 {
                        let o = obj[1].remove(0);
                        b.object_remove::<Named>(o).unwrap();
                    }
                }
            }
            contract_is(bp, k0, K::<0>::ID, &obj[0]);
            contract_is(bp, named.0, Named::ID, &obj[1]);
        }
        for (i, l) in obj.iter().enumerate() {
            for o in l {
                let p = tp_client__baseline__Baseline__object(bp, by_ref(o)) as *const Object;
                check(p == b.object(*o).unwrap() as *const Object, "both interfaces reach the same object");
                check(p == tp_client__baseline__Baseline__object_mut(bp, by_ref(o)) as *const Object, "exclusive access reaches it too");
                check((*p).contract().same(if i == 0 { &k0 } else { &named.0 }), "an object tells its contract");
                reach("object queried");
            }
        }
        if obj[0].len() + obj[1].len() == 0 {
            reach("none left");
        }
        tp_client__baseline__Baseline__drop(bp);
    }
}
#[no_mangle]
pub extern "C" fn h_c22_identity4() {
    identity(4)
}
#[no_mangle]
pub extern "C" fn h_c22_identity6() {
    identity(6)
}
