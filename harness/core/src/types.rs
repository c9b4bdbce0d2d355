//! The 28 property types as plain data, and contracts whose shape is chosen per case.
use arena::generational_arena as ga;
use symapi::*;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::properties::traits::{ITpData, ITpPropertyStatic};
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

pub fn raw_handle<T>(i: usize, g: u64) -> arena::Index<T> {
    arena::Index::new(ga::Index::from_raw_parts(i, g))
}
pub fn raw<T>(h: arena::Index<T>) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}

/// Symbolic values and an equality that does not go through the repository's code.
pub trait V: Sized + Clone + 'static {
    fn any() -> Self;
    /// Same representation (floats bit by bit).
    fn same(&self, o: &Self) -> bool;
    /// What `==` has to answer.
    fn equal(&self, o: &Self) -> bool {
        self.same(o)
    }
    fn note(&self) {}
    /// Symbolic content of one fixed length.
    fn plain() -> Self {
        Self::any()
    }
    fn zero() -> Self;
    /// Symbolic content of the given length, where there is one (strings: with a two-byte character if they are long enough).
    fn sized(_len: usize) -> Self {
        Self::plain()
    }
}
macro_rules! v_int {
    ($($t:ty),*) => { $(impl V for $t {
        fn any() -> Self { symapi::any() }
        fn zero() -> Self { Default::default() }
        fn same(&self, o: &Self) -> bool { *self == *o }
        fn note(&self) { trace(*self as u64) }
    })* };
}
v_int!(u8, u16, u32, u64, i8, i16, i32, i64, bool);
macro_rules! v_float {
    ($($t:ty),*) => { $(impl V for $t {
        fn any() -> Self { symapi::any() }
        fn zero() -> Self { 0.0 }
        fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
        fn equal(&self, o: &Self) -> bool { *self == *o }
        fn note(&self) { trace(self.to_bits() as u64) }
    })* };
}
v_float!(f32, f64);
impl V for String {
    fn zero() -> Self {
        String::new()
    }
    fn any() -> Self {
        let n = choose(3);
        let mut s = String::new();
        for _ in 0..n {
            let b = bits(7) as u8;
            unsafe { s.as_mut_vec().push(b) }
        }
        s
    }
    fn plain() -> Self {
        let mut s = String::new();
        let b = bits(7) as u8;
        unsafe { s.as_mut_vec().push(b) }
        s
    }
    fn sized(len: usize) -> Self {
        let mut s = String::new();
        for i in 0..len {
            let b = match i {
                1 if len >= 3 => 0xC4 | bits(2) as u8,
                2 => 0x80 | bits(6) as u8,
                _ => bits(7) as u8,
            };
            unsafe { s.as_mut_vec().push(b) }
        }
        s
    }
    fn same(&self, o: &Self) -> bool {
        bytes_same(self.as_bytes(), o.as_bytes())
    }
    fn note(&self) {
        trace(self.len() as u64)
    }
}
pub fn bytes_same(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    if r {
        for i in 0..a.len() {
            r &= a[i] == b[i];
        }
    }
    r
}
impl<T: 'static> V for arena::Index<T> {
    fn zero() -> Self {
        raw_handle(0, 0)
    }
    fn any() -> Self {
        raw_handle(symapi::any(), symapi::any())
    }
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (raw(*self), raw(*o));
        (a.0 == b.0) & (a.1 == b.1)
    }
    fn note(&self) {
        trace(raw(*self).0 as u64)
    }
}
impl<T: V> V for Vec<T> {
    fn zero() -> Self {
        Vec::new()
    }
    fn any() -> Self {
        let n = choose(3);
        (0..n).map(|_| T::plain()).collect()
    }
    fn plain() -> Self {
        vec![T::plain()]
    }
    fn sized(len: usize) -> Self {
        (0..len).map(|_| T::plain()).collect()
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = self.len() == o.len();
        if r {
            for i in 0..self.len() {
                r &= self[i].same(&o[i]);
            }
        }
        r
    }
    fn equal(&self, o: &Self) -> bool {
        let mut r = self.len() == o.len();
        if r {
            for i in 0..self.len() {
                r &= self[i].equal(&o[i]);
            }
        }
        r
    }
    fn note(&self) {
        trace(self.len() as u64)
    }
}

/// `$m!(extra; U8 u8, ...)` over the 14 element types.
macro_rules! all_prims {
    ($m:ident $(, $x:tt)*) => {
        $m!{[$($x),*] U8 u8, U16 u16, U32 u32, U64 u64, I8 i8, I16 i16, I32 i32, I64 i64, Bool bool, F32 f32, F64 f64,
            String String, ObjectHandle ObjectHandle, ContractDataHandle ContractDataHandle}
    };
}
pub(crate) use all_prims;

pub const PRIMS: [TpPrimitiveType; 14] = {
    use TpPrimitiveType::*;
    [U8, U16, U32, U64, I8, I16, I32, I64, Bool, F32, F64, String, ObjectHandle, ContractDataHandle]
};
/// Type number 0..28: 14 single types, then their lists.
pub fn tp(n: usize) -> TpPropertyType {
    if n < 14 {
        TpPropertyType::Primitive(PRIMS[n])
    } else {
        TpPropertyType::Vec(PRIMS[n - 14])
    }
}
pub const NT: usize = 28;
/// A few types that differ in every way that matters, for harnesses that combine several fields.
pub const FEW: [usize; 4] = [0, 4, 11, 14]; // u8, i8, String, Vec<u8>

/// A property type tied to the dynamic enums, written out independently of the repository's macros.
pub trait Ty: V + ITpPropertyStatic {
    const N: usize;
    fn dyn_prop(self) -> DynTpProperty;
    fn dyn_chan(c: Channel<Self>) -> DynChannel;
    fn from_ref<'a>(r: &DynTpPropertyRef<'a>) -> Option<Self>;
    /// Replaces the value behind a mutable view (lists keep their length).
    fn overwrite(r: DynTpPropertyMut<'_>, v: Self) -> bool;
    fn state_id(d: DynStateId) -> Option<StateId<Self>>;
    fn chan_id(d: DynChannelId) -> Option<ChannelId<Self>>;
    fn dyn_state_handle(h: StateHandle<Self>) -> DynStateHandle;
    fn dyn_chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle;
    fn chan_ref<'a>(r: DynChannelRef<'a>) -> Option<&'a Channel<Self>>;
    fn chan_mut<'a>(r: DynChannelMut<'a>) -> Option<&'a mut Channel<Self>>;
    fn mut_value<'a>(r: &DynTpPropertyMut<'a>) -> Option<Self>;

    // the repository's own conversions
    fn element_type() -> TpPrimitiveType;
    fn into_dyn(self) -> DynTpProperty;
    fn ref_of(&self) -> DynTpPropertyRef<'_>;
    fn mut_of(&mut self) -> DynTpPropertyMut<'_>;
    /// The same through the intermediate types (slices for lists).
    fn refs_of(&self) -> Vec<DynTpPropertyRef<'_>>;
    fn mut_of2(&mut self) -> DynTpPropertyMut<'_>;
    fn unwrap_dyn(p: DynTpProperty) -> Option<Self>;
    fn make_dyn_chan(c: Channel<Self>) -> DynChannel;
    fn unwrap_dyn_chan(p: DynChannel) -> Option<Channel<Self>>;
    fn chan_ref_of(c: &Channel<Self>) -> DynChannelRef<'_>;
    fn chan_mut_of(c: &mut Channel<Self>) -> DynChannelMut<'_>;
    fn make_dyn_state(s: State<Self>) -> DynState;
    fn state_ref_of(s: &State<Self>) -> dyn_state::DynStateRef<'_>;
    fn state_mut_of(s: &mut State<Self>) -> dyn_state::DynStateMut<'_>;
    fn make_state_handle(h: StateHandle<Self>) -> DynStateHandle;
    fn unwrap_state_handle(d: DynStateHandle) -> Option<StateHandle<Self>>;
    fn make_chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle;
    fn unwrap_chan_handle(d: DynChannelHandle) -> Option<ChannelHandle<Self>>;
    fn make_state_id(h: StateId<Self>) -> DynStateId;
    fn unwrap_state_id(d: DynStateId) -> Option<StateId<Self>>;
    fn make_chan_id(h: ChannelId<Self>) -> DynChannelId;
    fn unwrap_chan_id(d: DynChannelId) -> Option<ChannelId<Self>>;
    /// Compares with `p` in every form this plain value can be compared in, on either side: (all true, any true).
    fn eqs(&self, p: &DynTpProperty) -> (bool, bool);
}
macro_rules! ty_impl {
    ([] $($i:ident $t:ty),*) => {
        pub mod nums { #[allow(non_camel_case_types)] #[derive(Copy, Clone)] #[repr(usize)] pub enum Num { $($i),* } }
        $(
        impl Ty for $t {
            const N: usize = nums::Num::$i as usize;
            fn dyn_prop(self) -> DynTpProperty { DynTpProperty::Primitive(DynTpPrimitive::$i(self)) }
            fn dyn_chan(c: Channel<Self>) -> DynChannel { DynChannel::Primitive(dyn_channel::DynChannelPrimitive::$i(c)) }
            fn from_ref<'a>(r: &DynTpPropertyRef<'a>) -> Option<Self> {
                match r { DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$i(x)) => Some((*x).clone()), _ => None }
            }
            fn overwrite(r: DynTpPropertyMut<'_>, v: Self) -> bool {
                match r { DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$i(x)) => { *x = v; true } _ => false }
            }
            fn state_id(d: DynStateId) -> Option<StateId<Self>> {
                match d { DynStateId::Primitive(id::DynStateIdPrimitive::$i(x)) => Some(x), _ => None }
            }
            fn chan_id(d: DynChannelId) -> Option<ChannelId<Self>> {
                match d { DynChannelId::Primitive(DynChannelIdPrimitive::$i(x)) => Some(x), _ => None }
            }
            fn dyn_state_handle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::Primitive(dyn_handle_s::DynStateHandlePrimitive::$i(h)) }
            fn dyn_chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle { DynChannelHandle::Primitive(dyn_handle_c::DynChannelHandlePrimitive::$i(h)) }
            fn chan_ref<'a>(r: DynChannelRef<'a>) -> Option<&'a Channel<Self>> {
                match r { DynChannelRef::Primitive(dyn_channel::DynChannelPrimitiveRef::$i(x)) => Some(x), _ => None }
            }
            fn chan_mut<'a>(r: DynChannelMut<'a>) -> Option<&'a mut Channel<Self>> {
                match r { DynChannelMut::Primitive(dyn_channel::DynChannelPrimitiveMut::$i(x)) => Some(x), _ => None }
            }

            fn into_dyn(self) -> DynTpProperty { DynTpProperty::from(self) }
            fn ref_of(&self) -> DynTpPropertyRef<'_> { DynTpPropertyRef::from(self) }
            fn mut_of(&mut self) -> DynTpPropertyMut<'_> { DynTpPropertyMut::from(self) }
            fn chan_ref_of(c: &Channel<Self>) -> DynChannelRef<'_> { DynChannelRef::from(c) }
            fn chan_mut_of(c: &mut Channel<Self>) -> DynChannelMut<'_> { DynChannelMut::from(c) }
            fn make_dyn_state(s: State<Self>) -> DynState { DynState::from(s) }
            fn state_ref_of(s: &State<Self>) -> dyn_state::DynStateRef<'_> { dyn_state::DynStateRef::from(s) }
            fn state_mut_of(s: &mut State<Self>) -> dyn_state::DynStateMut<'_> { dyn_state::DynStateMut::from(s) }
            fn make_state_handle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::from(h) }
            fn make_dyn_chan(c: Channel<Self>) -> DynChannel { DynChannel::from(dyn_channel::DynChannelPrimitive::from(c)) }
            fn unwrap_dyn_chan(d: DynChannel) -> Option<Channel<Self>> { dyn_channel::DynChannelPrimitive::try_from(d).ok().and_then(|x| <Channel<Self>>::try_from(x).ok()) }
            fn make_chan_handle(c: ChannelHandle<Self>) -> DynChannelHandle { DynChannelHandle::from(dyn_handle_c::DynChannelHandlePrimitive::from(c)) }
            fn unwrap_chan_handle(d: DynChannelHandle) -> Option<ChannelHandle<Self>> { dyn_handle_c::DynChannelHandlePrimitive::try_from(d).ok().and_then(|x| <ChannelHandle<Self>>::try_from(x).ok()) }
            fn make_state_id(c: StateId<Self>) -> DynStateId { DynStateId::from(id::DynStateIdPrimitive::from(c)) }
            fn unwrap_state_id(d: DynStateId) -> Option<StateId<Self>> { id::DynStateIdPrimitive::try_from(d).ok().and_then(|x| <StateId<Self>>::try_from(x).ok()) }
            fn make_chan_id(c: ChannelId<Self>) -> DynChannelId { DynChannelId::from(DynChannelIdPrimitive::from(c)) }
            fn unwrap_chan_id(d: DynChannelId) -> Option<ChannelId<Self>> { DynChannelIdPrimitive::try_from(d).ok().and_then(|x| <ChannelId<Self>>::try_from(x).ok()) }
            fn unwrap_state_handle(d: DynStateHandle) -> Option<StateHandle<Self>> { dyn_handle_s::DynStateHandlePrimitive::try_from(d).ok().and_then(|x| StateHandle::<Self>::try_from(x).ok()) }
            fn unwrap_dyn(d: DynTpProperty) -> Option<Self> { DynTpPrimitive::try_from(d).ok().and_then(|x| Self::try_from(x).ok()) }
            fn mut_value<'a>(r: &DynTpPropertyMut<'a>) -> Option<Self> {
                match r { DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$i(x)) => Some((**x).clone()), _ => None }
            }
            fn element_type() -> TpPrimitiveType { <Self as ITpData>::DATA_TYPE }
            fn refs_of(&self) -> Vec<DynTpPropertyRef<'_>> { vec![DynTpPropertyRef::from(DynTpPrimitiveRef::from(self))] }
            fn mut_of2(&mut self) -> DynTpPropertyMut<'_> { DynTpPropertyMut::from(DynTpPrimitiveMut::from(self)) }
            fn eqs(&self, p: &DynTpProperty) -> (bool, bool) {
                let r = [*p == *self, *self == *p, !(*p != *self), !(*self != *p)];
                let mut t = (r[0] & r[1] & r[2] & r[3], r[0] | r[1] | r[2] | r[3]);
                if let DynTpProperty::Primitive(q) = p {
                    let r = [*q == *self, *self == *q, !(*q != *self), !(*self != *q)];
                    t = (t.0 & r[0] & r[1] & r[2] & r[3], t.1 | r[0] | r[1] | r[2] | r[3]);
                }
                t
            }
        }
        impl Ty for Vec<$t> {
            const N: usize = 14 + nums::Num::$i as usize;
            fn dyn_prop(self) -> DynTpProperty { DynTpProperty::Vec(DynTpVec::$i(self)) }
            fn dyn_chan(c: Channel<Self>) -> DynChannel { DynChannel::Vec(dyn_channel::DynChannelVec::$i(c)) }
            fn from_ref<'a>(r: &DynTpPropertyRef<'a>) -> Option<Self> {
                match r { DynTpPropertyRef::Vec(DynTpVecRef::$i(x)) => Some(x.to_vec()), _ => None }
            }
            fn overwrite(r: DynTpPropertyMut<'_>, v: Self) -> bool {
                match r {
                    DynTpPropertyMut::Vec(DynTpVecMut::$i(x)) => {
                        if x.len() != v.len() { return false; }
                        for (a, b) in x.iter_mut().zip(v.into_iter()) { *a = b }
                        true
                    }
                    _ => false,
                }
            }
            fn state_id(d: DynStateId) -> Option<StateId<Self>> {
                match d { DynStateId::Vec(id::DynStateIdVec::$i(x)) => Some(x), _ => None }
            }
            fn chan_id(d: DynChannelId) -> Option<ChannelId<Self>> {
                match d { DynChannelId::Vec(DynChannelIdVec::$i(x)) => Some(x), _ => None }
            }
            fn dyn_state_handle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::Vec(dyn_handle_s::DynStateHandleVec::$i(h)) }
            fn dyn_chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle { DynChannelHandle::Vec(dyn_handle_c::DynChannelHandleVec::$i(h)) }
            fn chan_ref<'a>(r: DynChannelRef<'a>) -> Option<&'a Channel<Self>> {
                match r { DynChannelRef::Vec(dyn_channel::DynChannelVecRef::$i(x)) => Some(x), _ => None }
            }
            fn chan_mut<'a>(r: DynChannelMut<'a>) -> Option<&'a mut Channel<Self>> {
                match r { DynChannelMut::Vec(dyn_channel::DynChannelVecMut::$i(x)) => Some(x), _ => None }
            }

            fn into_dyn(self) -> DynTpProperty { DynTpProperty::from(self) }
            fn ref_of(&self) -> DynTpPropertyRef<'_> { DynTpPropertyRef::from(self) }
            fn mut_of(&mut self) -> DynTpPropertyMut<'_> { DynTpPropertyMut::from(self) }
            fn chan_ref_of(c: &Channel<Self>) -> DynChannelRef<'_> { DynChannelRef::from(c) }
            fn chan_mut_of(c: &mut Channel<Self>) -> DynChannelMut<'_> { DynChannelMut::from(c) }
            fn make_dyn_state(s: State<Self>) -> DynState { DynState::from(s) }
            fn state_ref_of(s: &State<Self>) -> dyn_state::DynStateRef<'_> { dyn_state::DynStateRef::from(s) }
            fn state_mut_of(s: &mut State<Self>) -> dyn_state::DynStateMut<'_> { dyn_state::DynStateMut::from(s) }
            fn make_state_handle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::from(h) }
            fn make_dyn_chan(c: Channel<Self>) -> DynChannel { DynChannel::from(dyn_channel::DynChannelVec::from(c)) }
            fn unwrap_dyn_chan(d: DynChannel) -> Option<Channel<Self>> { dyn_channel::DynChannelVec::try_from(d).ok().and_then(|x| <Channel<Self>>::try_from(x).ok()) }
            fn make_chan_handle(c: ChannelHandle<Self>) -> DynChannelHandle { DynChannelHandle::from(dyn_handle_c::DynChannelHandleVec::from(c)) }
            fn unwrap_chan_handle(d: DynChannelHandle) -> Option<ChannelHandle<Self>> { dyn_handle_c::DynChannelHandleVec::try_from(d).ok().and_then(|x| <ChannelHandle<Self>>::try_from(x).ok()) }
            fn make_state_id(c: StateId<Self>) -> DynStateId { DynStateId::from(id::DynStateIdVec::from(c)) }
            fn unwrap_state_id(d: DynStateId) -> Option<StateId<Self>> { id::DynStateIdVec::try_from(d).ok().and_then(|x| <StateId<Self>>::try_from(x).ok()) }
            fn make_chan_id(c: ChannelId<Self>) -> DynChannelId { DynChannelId::from(DynChannelIdVec::from(c)) }
            fn unwrap_chan_id(d: DynChannelId) -> Option<ChannelId<Self>> { DynChannelIdVec::try_from(d).ok().and_then(|x| <ChannelId<Self>>::try_from(x).ok()) }
            fn unwrap_state_handle(d: DynStateHandle) -> Option<StateHandle<Self>> { dyn_handle_s::DynStateHandleVec::try_from(d).ok().and_then(|x| StateHandle::<Self>::try_from(x).ok()) }
            fn unwrap_dyn(d: DynTpProperty) -> Option<Self> { DynTpVec::try_from(d).ok().and_then(|x| Self::try_from(x).ok()) }
            fn mut_value<'a>(r: &DynTpPropertyMut<'a>) -> Option<Self> {
                match r { DynTpPropertyMut::Vec(DynTpVecMut::$i(x)) => Some(x.to_vec()), _ => None }
            }
            fn element_type() -> TpPrimitiveType { <$t as ITpData>::DATA_TYPE }
            fn refs_of(&self) -> Vec<DynTpPropertyRef<'_>> {
                vec![DynTpPropertyRef::from(DynTpVecRef::from(self)), DynTpPropertyRef::from(self.as_slice()), DynTpVecRef::from(self.as_slice()).into()]
            }
            fn mut_of2(&mut self) -> DynTpPropertyMut<'_> {
                match choose(3) {
                    0 => DynTpPropertyMut::from(DynTpVecMut::from(self)),
                    1 => DynTpPropertyMut::from(self.as_mut_slice()),
                    _ => DynTpVecMut::from(self.as_mut_slice()).into(),
                }
            }
            fn eqs(&self, p: &DynTpProperty) -> (bool, bool) {
                let s = self.as_slice();
                let r = [*p == *self, *self == *p, *p == s, s == *p, !(*p != *self), !(*self != *p), !(*p != s), !(s != *p)];
                let mut t = (r[0] & r[1] & r[2] & r[3] & r[4] & r[5] & r[6] & r[7], r[0] | r[1] | r[2] | r[3] | r[4] | r[5] | r[6] | r[7]);
                if let DynTpProperty::Vec(q) = p {
                    let r = [*q == *self, *self == *q, *q == s, s == *q, !(*q != *self), !(*self != *q), !(*q != s), !(s != *q)];
                    t = (t.0 & r[0] & r[1] & r[2] & r[3] & r[4] & r[5] & r[6] & r[7], t.1 | r[0] | r[1] | r[2] | r[3] | r[4] | r[5] | r[6] | r[7]);
                }
                t
            }
        })*

        /// One value of any property type.
        #[derive(Clone)]
        pub enum Val { $($i($t)),* , Vec(ValVec) }
        #[derive(Clone)]
        pub enum ValVec { $($i(Vec<$t>)),* }

        impl Val {
            /// A symbolic value of type number `n`.
            pub fn any(n: usize) -> Val {
                match n {
                    $(x if x == nums::Num::$i as usize => Val::$i(<$t as V>::any()),)*
                    $(x if x == 14 + nums::Num::$i as usize => Val::Vec(ValVec::$i(<Vec<$t> as V>::any())),)*
                    _ => unreachable!(),
                }
            }
            /// A symbolic value of type number `n`, lists and strings of length one.
            pub fn plain(n: usize) -> Val {
                match n {
                    $(x if x == nums::Num::$i as usize => Val::$i(<$t as V>::plain()),)*
                    $(x if x == 14 + nums::Num::$i as usize => Val::Vec(ValVec::$i(<Vec<$t> as V>::plain())),)*
                    _ => unreachable!(),
                }
            }
            /// A symbolic value of type number `n`, lists and strings of length `len`.
            pub fn sized(n: usize, len: usize) -> Val {
                match n {
                    $(x if x == nums::Num::$i as usize => Val::$i(<$t as V>::sized(len)),)*
                    $(x if x == 14 + nums::Num::$i as usize => Val::Vec(ValVec::$i(<Vec<$t> as V>::sized(len))),)*
                    _ => unreachable!(),
                }
            }
            /// The value of type number `n` that needs no input: zero or empty.
            pub fn empty(n: usize) -> Val {
                match n {
                    $(x if x == nums::Num::$i as usize => Val::$i(<$t as V>::zero()),)*
                    $(x if x == 14 + nums::Num::$i as usize => Val::Vec(ValVec::$i(Vec::new())),)*
                    _ => unreachable!(),
                }
            }
            pub fn n(&self) -> usize {
                match self {
                    $(Val::$i(_) => nums::Num::$i as usize,)*
                    $(Val::Vec(ValVec::$i(_)) => 14 + nums::Num::$i as usize,)*
                }
            }
            pub fn visit<R>(&self, f: impl Visit<R>) -> R {
                match self {
                    $(Val::$i(x) => f.on(x),)*
                    $(Val::Vec(ValVec::$i(x)) => f.on(x),)*
                }
            }
        }
    };
}
use tp_client::contract::properties::channels::dyn_handle as dyn_handle_c;
use tp_client::contract::properties::states::dyn_handle as dyn_handle_s;
all_prims!(ty_impl);
pub trait Visit<R> {
    fn on<T: Ty>(self, v: &T) -> R;
}

impl Val {
    pub fn few() -> Val {
        Val::any(FEW[choose(FEW.len())])
    }
    pub fn dyn_prop(&self) -> DynTpProperty {
        struct D;
        impl Visit<DynTpProperty> for D {
            fn on<T: Ty>(self, v: &T) -> DynTpProperty {
                v.clone().dyn_prop()
            }
        }
        self.visit(D)
    }
    /// The value, which has to be of type `T`.
    pub fn get<T: Ty>(&self) -> T {
        struct D<T>(std::marker::PhantomData<T>);
        impl<T: Ty> Visit<Option<T>> for D<T> {
            fn on<U: Ty>(self, v: &U) -> Option<T> {
                (v as &dyn std::any::Any).downcast_ref::<T>().cloned()
            }
        }
        self.visit(D(std::marker::PhantomData)).unwrap()
    }
    /// What `==` has to answer for two values of one type.
    pub fn equal(&self, o: &Val) -> bool {
        struct D<'a>(&'a Val);
        impl Visit<bool> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> bool {
                v.equal(&self.0.get::<T>())
            }
        }
        self.visit(D(o))
    }
    /// Same type and representation.
    pub fn same(&self, o: &Val) -> bool {
        struct D<'a>(&'a Val);
        impl Visit<bool> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> bool {
                self.0.n() == T::N && v.same(&self.0.get::<T>())
            }
        }
        self.visit(D(o))
    }
    /// A channel with one keyframe that holds this value.
    pub fn dyn_chan(&self) -> DynChannel {
        struct D;
        impl Visit<DynChannel> for D {
            fn on<T: Ty>(self, v: &T) -> DynChannel {
                T::dyn_chan(chan_of(v))
            }
        }
        self.visit(D)
    }
    /// Does field `idx` of `o`, as a state (or channel), resolve and hold this value?
    pub fn in_state(&self, b: &Baseline, c: ContractDataHandle, idx: usize, o: ObjectHandle) -> bool {
        struct D<'a>(&'a Baseline, ContractDataHandle, usize, ObjectHandle);
        impl Visit<bool> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> bool {
                let D(b, c, idx, o) = self;
                match b.bind_state(StateId::<T>::new(idx, c), o) {
                    Ok(h) => match b.state(h) {
                        Ok(s) => s.value.same(v),
                        Err(_) => false,
                    },
                    Err(_) => false,
                }
            }
        }
        self.visit(D(b, c, idx, o))
    }
    pub fn in_chan(&self, b: &Baseline, c: ContractDataHandle, idx: usize, o: ObjectHandle) -> bool {
        struct D<'a>(&'a Baseline, ContractDataHandle, usize, ObjectHandle);
        impl Visit<bool> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> bool {
                let D(b, c, idx, o) = self;
                match b.bind_channel(ChannelId::<T>::new(idx, c), o) {
                    Ok(h) => match b.channel(h) {
                        Ok(ch) => is_chan_of(ch, v),
                        Err(_) => false,
                    },
                    Err(_) => false,
                }
            }
        }
        self.visit(D(b, c, idx, o))
    }
    /// The raw slot of the state (or channel) bound at `idx`.
    pub fn state_slot(&self, b: &Baseline, c: ContractDataHandle, idx: usize, o: ObjectHandle) -> Option<(usize, u64)> {
        struct D<'a>(&'a Baseline, ContractDataHandle, usize, ObjectHandle);
        impl Visit<Option<(usize, u64)>> for D<'_> {
            fn on<T: Ty>(self, _: &T) -> Option<(usize, u64)> {
                let D(b, c, idx, o) = self;
                b.bind_state(StateId::<T>::new(idx, c), o).ok().map(raw)
            }
        }
        self.visit(D(b, c, idx, o))
    }
    pub fn chan_slot(&self, b: &Baseline, c: ContractDataHandle, idx: usize, o: ObjectHandle) -> Option<(usize, u64)> {
        struct D<'a>(&'a Baseline, ContractDataHandle, usize, ObjectHandle);
        impl Visit<Option<(usize, u64)>> for D<'_> {
            fn on<T: Ty>(self, _: &T) -> Option<(usize, u64)> {
                let D(b, c, idx, o) = self;
                b.bind_channel(ChannelId::<T>::new(idx, c), o).ok().map(raw)
            }
        }
        self.visit(D(b, c, idx, o))
    }
    /// Does the raw slot, read as this value's type, resolve to a state with this value? None: does not resolve.
    pub fn at_state_slot(&self, b: &Baseline, slot: (usize, u64)) -> Option<bool> {
        struct D<'a>(&'a Baseline, (usize, u64));
        impl Visit<Option<bool>> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> Option<bool> {
                let h: StateHandle<T> = raw_handle(self.1 .0, self.1 .1);
                self.0.state(h).ok().map(|s| s.value.same(v))
            }
        }
        self.visit(D(b, slot))
    }
    pub fn at_chan_slot(&self, b: &Baseline, slot: (usize, u64)) -> Option<bool> {
        struct D<'a>(&'a Baseline, (usize, u64));
        impl Visit<Option<bool>> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> Option<bool> {
                let h: ChannelHandle<T> = raw_handle(self.1 .0, self.1 .1);
                self.0.channel(h).ok().map(|s| is_chan_of(s, v))
            }
        }
        self.visit(D(b, slot))
    }
    /// Writes this value through the raw slot.
    pub fn write_state(&self, b: &mut Baseline, slot: (usize, u64)) -> bool {
        struct D<'a>(&'a mut Baseline, (usize, u64));
        impl Visit<bool> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> bool {
                let h: StateHandle<T> = raw_handle(self.1 .0, self.1 .1);
                match self.0.state_mut(h) {
                    Ok(s) => {
                        s.value = v.clone();
                        true
                    }
                    Err(_) => false,
                }
            }
        }
        self.visit(D(b, slot))
    }
    pub fn write_chan(&self, b: &mut Baseline, slot: (usize, u64)) -> bool {
        struct D<'a>(&'a mut Baseline, (usize, u64));
        impl Visit<bool> for D<'_> {
            fn on<T: Ty>(self, v: &T) -> bool {
                let h: ChannelHandle<T> = raw_handle(self.1 .0, self.1 .1);
                match self.0.channel_mut(h) {
                    Ok(s) => {
                        *s = chan_of(v);
                        true
                    }
                    Err(_) => false,
                }
            }
        }
        self.visit(D(b, slot))
    }
}
pub fn chan_of<T: Ty>(v: &T) -> Channel<T> {
    Channel::new(vec![Keyframe::new(v.clone(), 1.5)].into_iter())
}
pub fn is_chan_of<T: Ty>(c: &Channel<T>, v: &T) -> bool {
    let k = c.keyframes();
    k.len() == 1 && k[0].time().to_bits() == 1.5f64.to_bits() && k[0].value().same(v)
}

// ---- contracts with a shape chosen at run time ----

type Types = &'static [TpPropertyType];
static mut SHAPES: [(Types, Types); 4] = [(&[], &[]); 4];
/// Sets the fields of contract kind `k` (kinds 0 and 3 share an identity but not a shape).
pub fn set_shape(k: usize, states: Vec<TpPropertyType>, chans: Vec<TpPropertyType>) {
    unsafe { SHAPES[k] = (Box::leak(states.into_boxed_slice()), Box::leak(chans.into_boxed_slice())) }
}
pub struct Ks<const N: usize>;
pub struct Kc<const N: usize>;
impl<const N: usize> IStates for Ks<N> {
    fn type_ids() -> &'static [std::any::TypeId] {
        &[]
    }
    fn enumerate_types() -> Types {
        unsafe { SHAPES[N].0 }
    }
    fn field_names() -> &'static [&'static str] {
        &[]
    }
}
impl<const N: usize> IChannels for Kc<N> {
    fn type_ids() -> &'static [std::any::TypeId] {
        &[]
    }
    fn enumerate_types() -> Types {
        unsafe { SHAPES[N].1 }
    }
    fn field_names() -> &'static [&'static str] {
        &[]
    }
}
pub struct K<const N: usize>(pub ContractDataHandle);
pub const IDS: [ContractId; 4] = [
    ContractId { name: "a", version: (0, 0, 0) },
    ContractId { name: "a", version: (0, 0, 1) },
    ContractId { name: "b", version: (0, 0, 0) },
    ContractId { name: "a", version: (0, 0, 0) },
];
impl<const N: usize> Contract for K<N> {
    type States = Ks<N>;
    type Channels = Kc<N>;
    const ID: ContractId = IDS[N];
    fn new(h: ContractDataHandle) -> Self {
        K(h)
    }
    fn states(&self) -> &Ks<N> {
        &Ks
    }
    fn channels(&self) -> &Kc<N> {
        &Kc
    }
    fn handle(&self) -> ContractDataHandle {
        self.0
    }
}
pub fn register(b: &mut Baseline, k: usize) -> Option<ContractDataHandle> {
    match k {
        0 => b.register_contract::<K<0>>().ok().map(|c| c.0),
        1 => b.register_contract::<K<1>>().ok().map(|c| c.0),
        2 => b.register_contract::<K<2>>().ok().map(|c| c.0),
        _ => b.register_contract::<K<3>>().ok().map(|c| c.0),
    }
}
pub fn unregister(b: &mut Baseline, k: usize, h: ContractDataHandle) -> bool {
    match k {
        0 => b.unregister_contract::<K<0>>(h).is_ok(),
        1 => b.unregister_contract::<K<1>>(h).is_ok(),
        2 => b.unregister_contract::<K<2>>(h).is_ok(),
        _ => b.unregister_contract::<K<3>>(h).is_ok(),
    }
}
pub fn create(b: &mut Baseline, k: usize, h: ContractDataHandle, st: &[Val], ch: &[Val]) -> Option<ObjectHandle> {
    let s: Vec<DynTpProperty> = st.iter().map(|v| v.dyn_prop()).collect();
    let c: Vec<DynChannel> = ch.iter().map(|v| v.dyn_chan()).collect();
    let (s, c) = (s.into_iter(), c.into_iter());
    match k {
        0 => b.object_create(&K::<0>(h), s, c).ok(),
        1 => b.object_create(&K::<1>(h), s, c).ok(),
        2 => b.object_create(&K::<2>(h), s, c).ok(),
        _ => b.object_create(&K::<3>(h), s, c).ok(),
    }
}
pub fn remove(b: &mut Baseline, k: usize, o: ObjectHandle) -> bool {
    match k {
        0 => b.object_remove::<K<0>>(o).is_ok(),
        1 => b.object_remove::<K<1>>(o).is_ok(),
        2 => b.object_remove::<K<2>>(o).is_ok(),
        _ => b.object_remove::<K<3>>(o).is_ok(),
    }
}
pub fn types_of(v: &[Val]) -> Vec<TpPropertyType> {
    v.iter().map(|v| tp(v.n())).collect()
}
