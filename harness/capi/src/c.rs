//! The exported C functions, declared here as a C caller would see them (only symbol names and C layouts).
use crate::types::*;
use arena::generational_arena as ga;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

pub type P = *mut u8;
#[repr(C)]
#[derive(Copy, Clone)]
pub struct CVec {
    pub ptr: P,
    pub len: usize,
    pub cap: usize,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct CSlice {
    pub ptr: *const u8,
    pub len: usize,
}
impl CSlice {
    pub fn of(b: &[u8]) -> CSlice {
        CSlice { ptr: b.as_ptr(), len: b.len() }
    }
    pub unsafe fn get<'a>(self) -> &'a [u8] {
        std::slice::from_raw_parts(self.ptr, self.len)
    }
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct CSlice16 {
    pub ptr: *const u16,
    pub len: usize,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct CVersion {
    pub major: u16,
    pub minor: u16,
    pub patch: u16,
}
extern "C" {
    pub fn rsharp__String__value(s: P) -> CSlice;
    pub fn rsharp__String__drop(s: P);
    pub fn rsharp__String__copy_utf8(s: CSlice) -> P;
    pub fn rsharp__String__copy_utf16(s: CSlice16) -> P;

    pub fn tp_client__baseline__Baseline__new(kind: u8) -> P;
    pub fn tp_client__baseline__Baseline__drop(b: P);
    pub fn tp_client__baseline__Baseline__kind(b: P) -> u8;
    pub fn tp_client__baseline__Baseline__contract_data(b: P, c: P) -> P;
    pub fn tp_client__baseline__Baseline__object(b: P, o: P) -> P;
    pub fn tp_client__baseline__Baseline__object_mut(b: P, o: P) -> P;
    pub fn tp_client__contract__ContractDataHandle__drop(c: P);
    pub fn tp_client__contract__ContractData__id(c: P) -> P;
    pub fn tp_client__contract__ContractData__objects(c: P) -> CVec;
    pub fn tp_client__contract__ContractId__name(c: P) -> CSlice;
    pub fn tp_client__contract__ContractId__version(c: P) -> CVersion;
    pub fn tp_client__object__ObjectHandle__drop(o: P);
}

/// A box of the caller's as the interface wants it.
pub fn boxed<T>(v: T) -> P {
    Box::into_raw(Box::new(v)) as P
}
pub unsafe fn unbox<T>(p: P) -> T {
    *Box::from_raw(p as *mut T)
}
/// A handle passed by reference.
pub fn by_ref<T>(v: &T) -> P {
    v as *const T as P
}

/// Values as they cross the interface.
pub trait CVal: Ty {
    /// An owned value, made through the exported constructor where there is one.
    unsafe fn give(&self) -> P;
    /// Is the value behind this borrowed pointer `self`?
    unsafe fn is(&self, p: *const u8) -> bool;
    unsafe fn discard(p: P);
}
macro_rules! cval_prim {
    ($($i:ident $t:ty as $c:ty),*) => { paste::paste!{ $(
        extern "C" {
            fn [<rsharp__Box_ $i __new>](v: $c) -> P;
            fn [<rsharp__Box_ $i __drop>](v: P);
        }
        impl CVal for $t {
            unsafe fn give(&self) -> P { [<rsharp__Box_ $i __new>](*self as $c) }
            unsafe fn is(&self, p: *const u8) -> bool { (*(p as *const $t)).same(self) }
            unsafe fn discard(p: P) { [<rsharp__Box_ $i __drop>](p) }
        }
    )* } };
}
cval_prim!(U8 u8 as u8, U16 u16 as u16, U32 u32 as u32, U64 u64 as u64, I8 i8 as i8, I16 i16 as i16, I32 i32 as i32, I64 i64 as i64, Bool bool as u8,
    F32 f32 as f32, F64 f64 as f64);
impl CVal for String {
    unsafe fn give(&self) -> P {
        rsharp__String__copy_utf8(CSlice::of(self.as_bytes()))
    }
    unsafe fn is(&self, p: *const u8) -> bool {
        bytes_same(rsharp__String__value(p as P).get(), self.as_bytes())
    }
    unsafe fn discard(p: P) {
        rsharp__String__drop(p)
    }
}
macro_rules! cval_handle {
    ($t:ty, $drop:ident) => {
        impl CVal for $t {
            unsafe fn give(&self) -> P {
                boxed(*self)
            }
            unsafe fn is(&self, p: *const u8) -> bool {
                (*(p as *const $t)).same(self)
            }
            unsafe fn discard(p: P) {
                $drop(p)
            }
        }
    };
}
cval_handle!(ObjectHandle, tp_client__object__ObjectHandle__drop);
cval_handle!(ContractDataHandle, tp_client__contract__ContractDataHandle__drop);
#[allow(unused)]
type Raw = ga::Index;

/// The functions exported once per type.
pub trait CFns: CVal {
    unsafe fn state_new(v: P) -> P;
    unsafe fn state_drop(s: P);
    unsafe fn state_value(s: P) -> P;
    unsafe fn state_value_set(s: P, v: P);
    unsafe fn keyframe_new(v: P, t: f64) -> P;
    unsafe fn keyframe_drop(k: P);
    unsafe fn keyframe_value(k: P) -> P;
    unsafe fn keyframe_time(k: P) -> f64;
    unsafe fn vec_new() -> CVec;
    unsafe fn vec_push(v: *mut CVec, k: P);
    unsafe fn vec_get(v: *const CVec, i: usize) -> P;
    unsafe fn vec_set(v: *mut CVec, i: usize, k: P);
    unsafe fn vec_drop(v: CVec);
    unsafe fn channel_new(v: CVec) -> P;
    unsafe fn channel_drop(c: P);
    unsafe fn channel_keyframes(c: P) -> CVec;
    unsafe fn channel_keyframes_mut(c: P) -> CVec;
    unsafe fn state(b: P, h: P) -> P;
    unsafe fn state_mut(b: P, h: P) -> P;
    unsafe fn channel(b: P, h: P) -> P;
    unsafe fn channel_mut(b: P, h: P) -> P;
    unsafe fn bind_state(b: P, id: P, o: P) -> P;
    unsafe fn bind_channel(b: P, id: P, o: P) -> P;
    unsafe fn state_id_contract(id: P) -> P;
    unsafe fn state_id_drop(id: P);
    unsafe fn state_handle_drop(h: P);
    unsafe fn channel_id_contract(id: P) -> P;
}
macro_rules! cfns {
    ([] $($i:ident $t:ident),*) => { paste::paste!{ $(
        extern "C" {
            fn [<tp_client__contract__properties__states__State_ $i __new>](v: P) -> P;
            fn [<tp_client__contract__properties__states__State_ $i __drop>](v: P);
            fn [<tp_client__contract__properties__states__State_ $i __value>](v: P) -> P;
            fn [<tp_client__contract__properties__states__State_ $i __value_set>](s: P, v: P);
            fn [<tp_client__contract__properties__states__StateId_ $i __contract>](v: P) -> P;
            fn [<tp_client__contract__properties__states__StateId_ $i __drop>](v: P);
            fn [<tp_client__contract__properties__states__StateHandle_ $i __drop>](v: P);
            fn [<tp_client__contract__properties__channels__Keyframe_ $i __new>](v: P, t: f64) -> P;
            fn [<tp_client__contract__properties__channels__Keyframe_ $i __drop>](v: P);
            fn [<tp_client__contract__properties__channels__Keyframe_ $i __value>](v: P) -> P;
            fn [<tp_client__contract__properties__channels__Keyframe_ $i __time>](v: P) -> f64;
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $i __new>]() -> CVec;
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $i __push>](v: *mut CVec, k: P);
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $i __get>](v: *const CVec, i: usize) -> P;
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $i __set>](v: *mut CVec, i: usize, k: P);
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $i __drop>](v: CVec);
            fn [<tp_client__contract__properties__channels__Channel_ $i __new>](v: CVec) -> P;
            fn [<tp_client__contract__properties__channels__Channel_ $i __drop>](c: P);
            fn [<tp_client__contract__properties__channels__Channel_ $i __keyframes>](c: P) -> CVec;
            fn [<tp_client__contract__properties__channels__Channel_ $i __keyframes_mut>](c: P) -> CVec;
            fn [<ChannelId_ $i __contract>](v: P) -> P;
            fn [<tp_client__baseline__Baseline__state_ $i>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__state_mut_ $i>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__channel_ $i>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__channel_mut_ $i>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__bind_state_ $i>](b: P, i: P, o: P) -> P;
            fn [<tp_client__baseline__Baseline__bind_channel_ $i>](b: P, i: P, o: P) -> P;
        }
        impl CFns for $t {
            unsafe fn state_new(v: P) -> P { [<tp_client__contract__properties__states__State_ $i __new>](v) }
            unsafe fn state_drop(s: P) { [<tp_client__contract__properties__states__State_ $i __drop>](s) }
            unsafe fn state_value(s: P) -> P { [<tp_client__contract__properties__states__State_ $i __value>](s) }
            unsafe fn state_value_set(s: P, v: P) { [<tp_client__contract__properties__states__State_ $i __value_set>](s, v) }
            unsafe fn keyframe_new(v: P, t: f64) -> P { [<tp_client__contract__properties__channels__Keyframe_ $i __new>](v, t) }
            unsafe fn keyframe_drop(k: P) { [<tp_client__contract__properties__channels__Keyframe_ $i __drop>](k) }
            unsafe fn keyframe_value(k: P) -> P { [<tp_client__contract__properties__channels__Keyframe_ $i __value>](k) }
            unsafe fn keyframe_time(k: P) -> f64 { [<tp_client__contract__properties__channels__Keyframe_ $i __time>](k) }
            unsafe fn vec_new() -> CVec { [<tp_client__contract__properties__channels__RVec_Keyframe $i __new>]() }
            unsafe fn vec_push(v: *mut CVec, k: P) { [<tp_client__contract__properties__channels__RVec_Keyframe $i __push>](v, k) }
            unsafe fn vec_get(v: *const CVec, n: usize) -> P { [<tp_client__contract__properties__channels__RVec_Keyframe $i __get>](v, n) }
            unsafe fn vec_set(v: *mut CVec, n: usize, k: P) { [<tp_client__contract__properties__channels__RVec_Keyframe $i __set>](v, n, k) }
            unsafe fn vec_drop(v: CVec) { [<tp_client__contract__properties__channels__RVec_Keyframe $i __drop>](v) }
            unsafe fn channel_new(v: CVec) -> P { [<tp_client__contract__properties__channels__Channel_ $i __new>](v) }
            unsafe fn channel_drop(c: P) { [<tp_client__contract__properties__channels__Channel_ $i __drop>](c) }
            unsafe fn channel_keyframes(c: P) -> CVec { [<tp_client__contract__properties__channels__Channel_ $i __keyframes>](c) }
            unsafe fn channel_keyframes_mut(c: P) -> CVec { [<tp_client__contract__properties__channels__Channel_ $i __keyframes_mut>](c) }
            unsafe fn state(b: P, h: P) -> P { [<tp_client__baseline__Baseline__state_ $i>](b, h) }
            unsafe fn state_mut(b: P, h: P) -> P { [<tp_client__baseline__Baseline__state_mut_ $i>](b, h) }
            unsafe fn channel(b: P, h: P) -> P { [<tp_client__baseline__Baseline__channel_ $i>](b, h) }
            unsafe fn channel_mut(b: P, h: P) -> P { [<tp_client__baseline__Baseline__channel_mut_ $i>](b, h) }
            unsafe fn bind_state(b: P, id: P, o: P) -> P { [<tp_client__baseline__Baseline__bind_state_ $i>](b, id, o) }
            unsafe fn bind_channel(b: P, id: P, o: P) -> P { [<tp_client__baseline__Baseline__bind_channel_ $i>](b, id, o) }
            unsafe fn state_id_contract(id: P) -> P { [<tp_client__contract__properties__states__StateId_ $i __contract>](id) }
            unsafe fn state_id_drop(id: P) { [<tp_client__contract__properties__states__StateId_ $i __drop>](id) }
            unsafe fn state_handle_drop(h: P) { [<tp_client__contract__properties__states__StateHandle_ $i __drop>](h) }
            unsafe fn channel_id_contract(id: P) -> P { [<ChannelId_ $i __contract>](id) }
        }
    )* } };
}
all_prims!(cfns);

/// Runs `f` for one of the 14 types.
pub trait ForC {
    fn run<T: CFns>(&mut self);
}
macro_rules! for_c {
    ([] $($i:ident $t:ty),*) => {
        pub fn for_c(n: usize, f: &mut impl ForC) {
            $(if n == nums::Num::$i as usize { return f.run::<$t>(); })*
        }
    };
}
all_prims!(for_c);
