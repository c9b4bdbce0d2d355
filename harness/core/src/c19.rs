//! C19: what the contract macros generate.
#![allow(dead_code)]
use crate::c09::{for_type, ForType};
use crate::types::*;
use std::any::TypeId;
use symapi::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

struct SameS(Option<DynStateId>, DynStateId);
impl ForType<bool> for SameS {
    fn on<T: Ty>(self) -> bool {
        let d = T::state_id(self.1);
        d.is_some() && self.0.and_then(T::state_id) == d
    }
}
struct SameC(Option<DynChannelId>, DynChannelId);
impl ForType<bool> for SameC {
    fn on<T: Ty>(self) -> bool {
        let d = T::chan_id(self.1);
        d.is_some() && self.0.and_then(T::chan_id) == d
    }
}
/// A contract from field names and types, and checks of everything generated for it.
macro_rules! contract {
    ($m:ident; $($f:ident $t:ident $n:expr),*; $($g:ident $u:ident $k:expr),*) => {
        pub mod $m {
            use super::*;
            use super::decl::$m::*;
            pub struct K { h: ContractDataHandle, s: S, c: C }
            impl Contract for K {
                type States = S;
                type Channels = C;
                const ID: ContractId = ContractId { name: stringify!($m), version: (1, 2, 3) };
                fn new(h: ContractDataHandle) -> Self { K { h, s: S::new(h), c: C::new(h) } }
                fn states(&self) -> &S { &self.s }
                fn channels(&self) -> &C { &self.c }
                fn handle(&self) -> ContractDataHandle { self.h }
            }
            const SN: &[usize] = &[$($n),*];
            const CN: &[usize] = &[$($k),*];

            /// The static lists, each in declaration order.
            pub fn lists() {
                let names: &[&str] = &[$(stringify!($f)),*];
                check(S::field_names().len() == names.len(), "a state field is named once");
                for (a, b) in S::field_names().iter().zip(names) {
                    check(bytes_same(a.as_bytes(), b.as_bytes()), "state fields are named in order");
                }
                let names: &[&str] = &[$(stringify!($g)),*];
                check(C::field_names().len() == names.len(), "a channel field is named once");
                for (a, b) in C::field_names().iter().zip(names) {
                    check(bytes_same(a.as_bytes(), b.as_bytes()), "channel fields are named in order");
                }
                check(S::enumerate_types().len() == SN.len() && C::enumerate_types().len() == CN.len(), "a field has one type");
                for (a, n) in S::enumerate_types().iter().zip(SN) {
                    check(*a == tp(*n), "state types are listed in order");
                }
                for (a, n) in C::enumerate_types().iter().zip(CN) {
                    check(*a == tp(*n), "channel types are listed in order");
                }
                let ids: &[TypeId] = &[$(TypeId::of::<$t>()),*];
                check(S::type_ids().len() == ids.len(), "a state field has one type identity");
                for (a, b) in S::type_ids().iter().zip(ids) {
                    check(a == b, "state type identities are listed in order");
                }
                let ids: &[TypeId] = &[$(TypeId::of::<$u>()),*];
                check(C::type_ids().len() == ids.len(), "a channel field has one type identity");
                for (a, b) in C::type_ids().iter().zip(ids) {
                    check(a == b, "channel type identities are listed in order");
                }
                reach("lists compared");
            }
            /// The accessors of an instance made for any handle.
            pub fn accessors() {
                let h: ContractDataHandle = raw_handle(any(), any());
                let k = K::new(h);
                check(raw(k.handle()) == raw(h), "a contract keeps its handle");
                let mut _i = 0;
                $(
                    check(k.states().$f() == StateId::<$t>::new(_i, h), "a state accessor gives its own field of this instance");
                    check(raw(k.states().$f().contract()) == raw(h), "a state id is bound to its instance");
                    check(k.state_id(_i).and_then(<$t>::state_id) == Some(k.states().$f()), "positions and accessors agree");
                    _i += 1;
                )*
                check(k.state_id(_i).is_none(), "no state beyond the last");
                let mut _i = 0;
                $(
                    check(k.channels().$g() == ChannelId::<$u>::new(_i, h), "a channel accessor gives its own field of this instance");
                    check(raw(k.channels().$g().contract()) == raw(h), "a channel id is bound to its instance");
                    check(k.chan_id(_i).and_then(<$u>::chan_id) == Some(k.channels().$g()), "positions and accessors agree");
                    _i += 1;
                )*
                check(k.chan_id(_i).is_none(), "no channel beyond the last");
                check(k.state_iter().count() == SN.len() && k.chan_iter().count() == CN.len(), "iteration covers every field");
                for (i, d) in k.state_iter().enumerate() {
                    check(for_type(SN[i], SameS(k.state_id(i), d)), "iteration and positions agree");
                }
                for (i, d) in k.chan_iter().enumerate() {
                    check(for_type(CN[i], SameC(k.chan_id(i), d)), "iteration and positions agree");
                }
                reach("accessors compared");
            }
            /// The accessors read what an object was created with, and write their own field only.
            pub fn behaviour() {
                let mut b = Baseline::new(BaselineKind::Fork);
                let k: K = b.register_contract().ok().unwrap();
                check(b.contract_data(k.handle()).map_or(false, |d| d.id() == K::ID), "the contract is registered under its identity");
                let make = |b: &mut Baseline| -> (Vec<Val>, Vec<Val>, ObjectHandle) {
                    let s: Vec<Val> = SN.iter().map(|n| Val::plain(*n)).collect();
                    let c: Vec<Val> = CN.iter().map(|n| Val::plain(*n)).collect();
                    let ds: Vec<_> = s.iter().map(|v| v.dyn_prop()).collect();
                    let dc: Vec<_> = c.iter().map(|v| v.dyn_chan()).collect();
                    let o = b.object_create(&k, ds.into_iter(), dc.into_iter());
                    check(o.is_ok(), "an object with the declared fields is accepted");
                    (s, c, o.ok().unwrap())
                };
                let x = make(&mut b);
                let mut y = make(&mut b);
                // one field of the second object is rewritten through its accessor
                let (at, is_chan) = (choose(if SN.len() > CN.len() { SN.len() } else { CN.len() }), flag());
                let mut _i = 0;
                $(
                    if !is_chan && _i == at {
                        y.0[_i] = Val::plain($n);
                        let v: $t = y.0[_i].get();
                        let h = b.bind_state(k.states().$f(), y.2).ok().unwrap();
                        b.state_mut(h).ok().unwrap().value = v;
                        reach("state written");
                    }
                    _i += 1;
                )*
                let mut _i = 0;
                $(
                    if is_chan && _i == at {
                        y.1[_i] = Val::plain($k);
                        let v: $u = y.1[_i].get();
                        let h = b.bind_channel(k.channels().$g(), y.2).ok().unwrap();
                        *b.channel_mut(h).ok().unwrap() = chan_of(&v);
                        reach("channel written");
                    }
                    _i += 1;
                )*
                for (s, c, o) in [x, y] {
                    let mut _i = 0;
                    $(
                        let want: $t = s[_i].get();
                        let h = b.bind_state(k.states().$f(), o).ok().unwrap();
                        check(b.state(h).map_or(false, |s| s.value.same(&want)), "a state accessor reads its own field");
                        _i += 1;
                    )*
                    let mut _i = 0;
                    $(
                        let want: $u = c[_i].get();
                        let h = b.bind_channel(k.channels().$g(), o).ok().unwrap();
                        check(b.channel(h).map_or(false, |c| is_chan_of(c, &want)), "a channel accessor reads its own field");
                        _i += 1;
                    )*
                }
            }
        }
    };
}

// (declared apart: the attributes do not see through macro_rules)
mod decl {
    #[allow(unused_imports)]
    pub mod all {
        use tp_client::contract::{channels, states, ContractDataHandle};
        use tp_client::object::ObjectHandle;
        #[states]
        pub struct S {
            z: u8,
            y: u16,
            x: u32,
            w: u64,
            a: i8,
            b: i16,
            c: i32,
            d: i64,
            flag: bool,
            f: f32,
            e: f64,
            text: String,
            obj: ObjectHandle,
            con: ContractDataHandle,
        }
        #[channels]
        pub struct C {
            con: ContractDataHandle,
            obj: ObjectHandle,
            text: String,
            e: f64,
            f: f32,
            flag: bool,
            d: i64,
            c: i32,
            b: i16,
            a: i8,
            w: u64,
            x: u32,
            y: u16,
            z: u8,
        }
    }
    pub mod repeated {
        use tp_client::contract::{channels, states, ContractDataHandle};
        use tp_client::object::ObjectHandle;
        #[states]
        pub struct S {
            id: u8,
            handle: u8,
            s: String,
            new_: u8,
            idx: String,
            value: u32,
            r#type: u8,
            states: u32,
            channels: u8,
            a9: u8,
            a10: u8,
            a11: u8,
            a12: u32,
            a13: u8,
            a14: String,
            a15: u8,
            a16: u32,
            a17: u8,
        }
        #[channels]
        pub struct C {
            only: f64,
            other: f64,
        }
    }
    pub mod single {
        use tp_client::contract::{channels, states, ContractDataHandle};
        use tp_client::object::ObjectHandle;
        #[states]
        pub struct S {
            only: bool,
        }
        #[channels]
        pub struct C {
        }
    }
    pub mod none {
        use tp_client::contract::{channels, states, ContractDataHandle};
        use tp_client::object::ObjectHandle;
        #[states]
        pub struct S {
        }
        #[channels]
        pub struct C {
            c: i64,
        }
    }
}
// every type, names not in order
contract!(all;
    z u8 0, y u16 1, x u32 2, w u64 3, a i8 4, b i16 5, c i32 6, d i64 7, flag bool 8, f f32 9, e f64 10, text String 11,
    obj ObjectHandle 12, con ContractDataHandle 13;
    con ContractDataHandle 13, obj ObjectHandle 12, text String 11, e f64 10, f f32 9, flag bool 8, d i64 7, c i32 6, b i16 5, a i8 4,
    w u64 3, x u32 2, y u16 1, z u8 0);
// repeated types, names used by generated code, more fields than types
contract!(repeated;
    id u8 0, handle u8 0, s String 11, new_ u8 0, idx String 11, value u32 2, r#type u8 0, states u32 2, channels u8 0, a9 u8 0, a10 u8 0, a11 u8 0,
    a12 u32 2, a13 u8 0, a14 String 11, a15 u8 0, a16 u32 2, a17 u8 0;
    only f64 10, other f64 10);
contract!(single; only bool 8;);
contract!(none;; c i64 7);

#[no_mangle]
pub extern "C" fn h_c19_lists() {
    match choose(4) {
        0 => all::lists(),
        1 => repeated::lists(),
        2 => single::lists(),
        _ => none::lists(),
    }
}
#[no_mangle]
pub extern "C" fn h_c19_accessors() {
    match choose(4) {
        0 => all::accessors(),
        1 => repeated::accessors(),
        2 => single::accessors(),
        _ => none::accessors(),
    }
}
#[no_mangle]
pub extern "C" fn h_c19_behaviour() {
    match choose(4) {
        0 => all::behaviour(),
        1 => repeated::behaviour(),
        2 => single::behaviour(),
        _ => none::behaviour(),
    }
}
