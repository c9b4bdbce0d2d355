//! C23: the exported functions of the shipped contracts.
use crate::c::*;
use crate::types::*;
use symapi::*;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::states::*;
use tp_client::contract::{Contract, ContractDataHandle};
use tp_client::object::ObjectHandle;
use tp_contract_example::ExampleContract;
use unity_states::BallContract;

extern "C" {
    fn BallContract__register(b: P) -> P;
    fn BallContract__unregister(b: P, c: P);
    fn BallContract__drop(c: P);
    fn BallContract__handle(c: P) -> P;
    fn BallContract__states(c: P) -> P;
    fn BallContract__object_create(b: P, c: P, px: f32, py: f32, pz: f32, ex: i16, ey: i16, ez: i16, sx: f32, sy: f32, sz: f32, color: u64) -> P;
    fn BallContract__object_remove(b: P, o: P);
    fn BallStates__pos_x(s: P) -> P;
    fn BallStates__pos_y(s: P) -> P;
    fn BallStates__pos_z(s: P) -> P;
    fn BallStates__euler_x(s: P) -> P;
    fn BallStates__euler_y(s: P) -> P;
    fn BallStates__euler_z(s: P) -> P;
    fn BallStates__scale_x(s: P) -> P;
    fn BallStates__scale_y(s: P) -> P;
    fn BallStates__scale_z(s: P) -> P;
    fn BallStates__color(s: P) -> P;

    fn tp_contract_example__ExampleContract__drop(c: P);
    fn tp_contract_example__ExampleContract__handle(c: P) -> P;
    fn tp_contract_example__ExampleContract__states(c: P) -> P;
    fn tp_contract_example__ExampleContract__register(b: P) -> P;
    fn tp_contract_example__ExampleContract__object_create(
        c: P, b: P, u8_0: u8, u8_1: u8, i8_0: i8, i8_1: i8, f32_0: f32, f32_1: f32, str_0: P, oh_0: P, ch_0: P,
    ) -> P;
    fn tp_contract_example__ExampleContract__object_remove(b: P, o: P);
    fn tp_contract_example__ExampleStates__u8_0(s: P) -> P;
    fn tp_contract_example__ExampleStates__u8_1(s: P) -> P;
    fn tp_contract_example__ExampleStates__i8_0(s: P) -> P;
    fn tp_contract_example__ExampleStates__i8_1(s: P) -> P;
    fn tp_contract_example__ExampleStates__f32_0(s: P) -> P;
    fn tp_contract_example__ExampleStates__f32_1(s: P) -> P;
    fn tp_contract_example__ExampleStates__str_0(s: P) -> P;
    fn tp_contract_example__ExampleStates__oh_0(s: P) -> P;
    fn tp_contract_example__ExampleStates__ch_0(s: P) -> P;
}
unsafe fn store<'a>(p: P) -> &'a mut Baseline {
    &mut *(p as *mut Baseline)
}
/// The field found by an accessor's id on object `o` holds `v`.
unsafe fn field<T: CFns>(bp: P, id: P, o: P, v: &T, msg: &'static str) {
    let c = T::state_id_contract(id);
    tp_client__contract__ContractDataHandle__drop(c);
    let h = T::bind_state(bp, id, o);
    check(v.is(T::state_value(T::state(bp, h))), msg);
    T::state_handle_drop(h);
    T::state_id_drop(id);
}

#[derive(Clone)]
struct Ball([f32; 6], [i16; 3], u64);
impl Ball {
    fn any() -> Ball {
        Ball([any(), any(), any(), any(), any(), any()], [any(), any(), any()], any())
    }
    unsafe fn create(&self, bp: P, c: P) -> P {
        let (f, e) = (&self.0, &self.1);
        BallContract__object_create(bp, c, f[0], f[1], f[2], e[0], e[1], e[2], f[3], f[4], f[5], self.2)
    }
    unsafe fn verify(&self, bp: P, c: P, o: P) {
        let s = BallContract__states(c);
        field(bp, BallStates__pos_x(s), o, &self.0[0], "pos_x reads as created");
        field(bp, BallStates__pos_y(s), o, &self.0[1], "pos_y reads as created");
        field(bp, BallStates__pos_z(s), o, &self.0[2], "pos_z reads as created");
        field(bp, BallStates__euler_x(s), o, &self.1[0], "euler_x reads as created");
        field(bp, BallStates__euler_y(s), o, &self.1[1], "euler_y reads as created");
        field(bp, BallStates__euler_z(s), o, &self.1[2], "euler_z reads as created");
        field(bp, BallStates__scale_x(s), o, &self.0[3], "scale_x reads as created");
        field(bp, BallStates__scale_y(s), o, &self.0[4], "scale_y reads as created");
        field(bp, BallStates__scale_z(s), o, &self.0[5], "scale_z reads as created");
        field(bp, BallStates__color(s), o, &self.2, "color reads as created");
    }
    /// Writes one field through its accessor.
    unsafe fn write(&mut self, n: usize, bp: P, c: P, o: P) {
        unsafe fn set<T: CFns>(bp: P, id: P, o: P, v: &mut T) {
            *v = T::plain();
            let h = T::bind_state(bp, id, o);
            T::state_value_set(T::state_mut(bp, h), v.give());
            T::state_handle_drop(h);
            T::state_id_drop(id);
        }
        let s = BallContract__states(c);
        match n {
            0 => set(bp, BallStates__pos_x(s), o, &mut self.0[0]),
            1 => set(bp, BallStates__pos_y(s), o, &mut self.0[1]),
            2 => set(bp, BallStates__pos_z(s), o, &mut self.0[2]),
            3 => set(bp, BallStates__euler_x(s), o, &mut self.1[0]),
            4 => set(bp, BallStates__euler_y(s), o, &mut self.1[1]),
            5 => set(bp, BallStates__euler_z(s), o, &mut self.1[2]),
            6 => set(bp, BallStates__scale_x(s), o, &mut self.0[3]),
            7 => set(bp, BallStates__scale_y(s), o, &mut self.0[4]),
            8 => set(bp, BallStates__scale_z(s), o, &mut self.0[5]),
            _ => set(bp, BallStates__color(s), o, &mut self.2),
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c23_ball() {
    unsafe {
        let bp = tp_client__baseline__Baseline__new(choose(2) as u8);
        let c = BallContract__register(bp);
        let (mut a, b) = (Ball::any(), Ball::any());
        let (oa, ob) = (a.create(bp, c), b.create(bp, c));
        a.verify(bp, c, oa);
        b.verify(bp, c, ob);
        a.write(choose(10), bp, c, oa);
        a.verify(bp, c, oa);
        b.verify(bp, c, ob);
        let h = BallContract__handle(c);
        check((*(h as *const ContractDataHandle)).same(&(*(c as *const BallContract)).handle()), "the contract tells its handle");
        check(store(bp).object(*(oa as *const ObjectHandle)).unwrap().contract().same(&*(h as *const ContractDataHandle)), "the object is of that contract");
        reach("created");
        // remove one: the other stays
        let dead = *(oa as *const ObjectHandle);
        BallContract__object_remove(bp, oa);
        b.verify(bp, c, ob);
        check(store(bp).object(dead).is_err(), "a removed object is gone");
        match choose(3) {
            0 => {
                reach("removed twice");
                must_panic("removing again is refused", || BallContract__object_remove(bp, boxed(dead)));
            }
            1 => {
                reach("registered twice");
                must_panic("registering again is refused", || BallContract__register(bp));
            }
            _ => {}
        }
        let live = *(ob as *const ObjectHandle);
        let handle = *(h as *const ContractDataHandle);
        BallContract__unregister(bp, h);
        check(store(bp).iter_objects().next().is_none(), "no object is left");
        check(store(bp).contract_data(handle).is_err(), "the contract is gone");
        check(store(bp).object(live).is_err(), "its objects are gone");
        check(store(bp).state(raw_handle::<State<f32>>(any(), any())).is_err(), "no field of any object is left (f32)");
        check(store(bp).state(raw_handle::<State<i16>>(any(), any())).is_err(), "no field of any object is left (i16)");
        check(store(bp).state(raw_handle::<State<u64>>(any(), any())).is_err(), "no field of any object is left (u64)");
        BallContract__drop(c);
        tp_client__object__ObjectHandle__drop(ob);
        tp_client__baseline__Baseline__drop(bp);
        reach("unregistered");
    }
}
#[no_mangle]
pub extern "C" fn h_c23_ball_cycles() {
    // create/remove and register/unregister cycles do not accumulate anything
    unsafe {
        let bp = tp_client__baseline__Baseline__new(0);
        let mut before = 0;
        let direct = flag();
        for i in 0..4 {
            let c = BallContract__register(bp);
            let n = 2;
            let os: Vec<P> = (0..n).map(|_| Ball::any().create(bp, c)).collect();
            for o in os {
                if direct {
                    BallContract__object_remove(bp, o);
                } else {
                    tp_client__object__ObjectHandle__drop(o);
                }
            }
            BallContract__unregister(bp, BallContract__handle(c));
            BallContract__drop(c);
            if i >= 2 {
                check(live_heap() == before, "a full cycle leaves nothing behind");
                reach("cycled");
            }
            before = live_heap();
        }
        tp_client__baseline__Baseline__drop(bp);
    }
}
#[derive(Clone)]
struct Ex(u8, u8, i8, i8, f32, f32, String, ObjectHandle, ContractDataHandle);
impl Ex {
    fn any() -> Ex {
        Ex(any(), any(), any(), any(), any(), any(), String::any(), V::any(), V::any())
    }
    unsafe fn create(&self, bp: P, c: P) -> P {
        tp_contract_example__ExampleContract__object_create(
            c, bp, self.0, self.1, self.2, self.3, self.4, self.5, self.6.give(), boxed(self.7), boxed(self.8),
        )
    }
    unsafe fn verify(&self, bp: P, c: P, o: P) {
        let s = tp_contract_example__ExampleContract__states(c);
        field(bp, tp_contract_example__ExampleStates__u8_0(s), o, &self.0, "u8_0 reads as created");
        field(bp, tp_contract_example__ExampleStates__u8_1(s), o, &self.1, "u8_1 reads as created");
        field(bp, tp_contract_example__ExampleStates__i8_0(s), o, &self.2, "i8_0 reads as created");
        field(bp, tp_contract_example__ExampleStates__i8_1(s), o, &self.3, "i8_1 reads as created");
        field(bp, tp_contract_example__ExampleStates__f32_0(s), o, &self.4, "f32_0 reads as created");
        field(bp, tp_contract_example__ExampleStates__f32_1(s), o, &self.5, "f32_1 reads as created");
        field(bp, tp_contract_example__ExampleStates__str_0(s), o, &self.6, "str_0 reads as created");
        field(bp, tp_contract_example__ExampleStates__oh_0(s), o, &self.7, "oh_0 reads as created");
        field(bp, tp_contract_example__ExampleStates__ch_0(s), o, &self.8, "ch_0 reads as created");
    }
}
#[no_mangle]
pub extern "C" fn h_c23_example() {
    unsafe {
        let bp = tp_client__baseline__Baseline__new(choose(2) as u8);
        let c = tp_contract_example__ExampleContract__register(bp);
        let (a, b) = (Ex::any(), Ex::any());
        let (oa, ob) = (a.create(bp, c), b.create(bp, c));
        a.verify(bp, c, oa);
        b.verify(bp, c, ob);
        let h = tp_contract_example__ExampleContract__handle(c);
        let handle = *(h as *const ContractDataHandle);
        check(handle.same(&(*(c as *const ExampleContract)).handle()), "the contract tells its handle");
        check(store(bp).object(*(oa as *const ObjectHandle)).unwrap().contract().same(&handle), "the object is of that contract");
        let i = tp_client__contract__ContractData__id(tp_client__baseline__Baseline__contract_data(bp, h));
        let v = tp_client__contract__ContractId__version(i);
        check((v.major == 1) & (v.minor == 2) & (v.patch == 3), "the contract's version");
        tp_client__contract__ContractDataHandle__drop(h);
        let dead = *(oa as *const ObjectHandle);
        tp_contract_example__ExampleContract__object_remove(bp, oa);
        b.verify(bp, c, ob);
        check(store(bp).object(dead).is_err(), "a removed object is gone");
        if flag() {
            if flag() {
                reach("removed twice");
                must_panic("removing again is refused", || tp_contract_example__ExampleContract__object_remove(bp, boxed(dead)));
            }
            reach("registered twice");
            must_panic("registering again is refused", || tp_contract_example__ExampleContract__register(bp));
        }
        store(bp).unregister_contract::<ExampleContract>(handle).unwrap();
        check(store(bp).iter_objects().next().is_none(), "no object is left");
        check(store(bp).state(raw_handle::<State<u8>>(any(), any())).is_err(), "no field of any object is left (u8)");
        check(store(bp).state(raw_handle::<State<String>>(any(), any())).is_err(), "no field of any object is left (string)");
        tp_contract_example__ExampleContract__drop(c);
        tp_client__object__ObjectHandle__drop(ob);
        tp_client__baseline__Baseline__drop(bp);
        reach("unregistered");
    }
}
#[no_mangle]
pub extern "C" fn h_c23_both() {
    // both contracts side by side: one's objects are refused by the other's functions
    unsafe {
        let bp = tp_client__baseline__Baseline__new(1);
        let (c, d) = if flag() {
            let c = BallContract__register(bp);
            (c, tp_contract_example__ExampleContract__register(bp))
        } else {
            let d = tp_contract_example__ExampleContract__register(bp);
            (BallContract__register(bp), d)
        };
        let (a, b) = (Ball::any(), Ex::any());
        let (oa, ob) = (a.create(bp, c), b.create(bp, d));
        a.verify(bp, c, oa);
        b.verify(bp, d, ob);
        match choose(4) {
            0 => {
                reach("other contract's object");
                must_panic("a ball is not an example object", || tp_contract_example__ExampleContract__object_remove(bp, oa));
            }
            1 => {
                reach("other contract's object");
                must_panic("an example object is not a ball", || BallContract__object_remove(bp, ob));
            }
            2 => {
                BallContract__unregister(bp, BallContract__handle(c));
                b.verify(bp, d, ob);
                reach("other contract unregistered");
            }
            _ => {
                store(bp).unregister_contract::<ExampleContract>((*(d as *const ExampleContract)).handle()).unwrap();
                a.verify(bp, c, oa);
                reach("other contract unregistered");
            }
        }
    }
}
