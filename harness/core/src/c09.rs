//! C09–C12: per-type agreement of typed and dynamic views.
use crate::c03::fork;
use crate::model::Model;
use crate::types::*;
use better_borrow::{BBorrow, BBorrowMut};
use symapi::*;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::properties::traits::ITpProperty;
use tp_client::contract::{Contract, ContractDataHandle};

/// Calls `$f::<U>()` for the type with number `$n`.
pub trait ForType<R> {
    fn on<U: Ty>(self) -> R;
}
pub fn for_type<R>(n: usize, f: impl ForType<R>) -> R {
    struct A<F>(F);
    impl<R, F: ForType<R>> Visit<R> for A<F> {
        fn on<T: Ty>(self, _: &T) -> R {
            self.0.on::<T>()
        }
    }
    Val::empty(n).visit(A(f))
}

// ---- C09 ----

fn one_of_each(n: usize) -> (Baseline, Model) {
    let mut m = Model::new(&[(&[n, n], &[n, n])]);
    let mut b = fork();
    m.register(&mut b, 0);
    m.create(&mut b, 0, 0);
    (b, m)
}
struct SameState<'a>(&'a mut Baseline, (usize, u64), Val);
impl ForType<()> for SameState<'_> {
    fn on<T: Ty>(self) {
        let SameState(b, s, w) = self;
        let h: StateHandle<T> = raw_handle(s.0, s.1);
        let d = T::make_state_handle(h);
        check(d == T::dyn_state_handle(h), "converting to a dynamic handle keeps type and handle");
        check(d.prop_type() == tp(T::N) && h.prop_type() == tp(T::N), "both handles report the type");
        let v = match (h.get(b), d.get(b)) {
            (Ok(x), Ok(y)) => {
                check(y.0.prop_type() == tp(T::N), "the dynamic view reports the type");
                check(T::from_ref(&y.0).map_or(false, |y| y.same(&x.value)), "both handles read the same value");
                let direct = T::state_ref_of(x);
                check(T::from_ref(&direct.0).map_or(false, |y| y.same(&x.value)), "a state viewed dynamically reads the same");
                Some(x.value.clone())
            }
            (Err(_), Err(_)) => {
                reach("unresolved state");
                None
            }
            _ => {
                check(false, "both handles resolve, or neither");
                None
            }
        };
        check(b.state(h).is_ok() == v.is_some() && b.state(d).is_ok() == v.is_some(), "the store resolves both handles alike");
        // write through the dynamic handle, read through the typed one, and the other way round
        let new = w.get::<T>();
        match d.get_mut(b) {
            Ok(x) => {
                check(v.is_some(), "get_mut resolves as get does");
                check(x.0.prop_type() == tp(T::N), "the mutable view reports the type");
                check(T::mut_value(&x.0).map_or(false, |y| y.same(v.as_ref().unwrap())), "the mutable view shows the value");
                check(T::overwrite(x.0, new.clone()), "the mutable view has the type's variant");
            }
            Err(_) => check(v.is_none(), "get_mut resolves as get does"),
        }
        if let Some(v) = v {
            check(h.get(b).map_or(false, |x| x.value.same(&new)), "a write through the dynamic handle is read through the typed one");
            match h.get_mut(b) {
                Ok(x) => {
                    x.value = v.clone();
                    let m = T::state_mut_of(x);
                    check(T::mut_value(&m.0).map_or(false, |y| y.same(&v)), "a state viewed mutably shows its value");
                }
                Err(_) => check(false, "the typed handle still resolves"),
            }
            check(d.get(b).ok().and_then(|x| T::from_ref(&x.0)).map_or(false, |x| x.same(&v)), "a write through the typed handle is read through the dynamic one");
            reach("state compared");
        } else {
            check(h.get_mut(b).is_err() && b.state_mut(h).is_err() && b.state_mut(d).is_err(), "an unresolved handle cannot be written through");
        }
    }
}
struct SameChan<'a>(&'a mut Baseline, (usize, u64), Val);
impl ForType<()> for SameChan<'_> {
    fn on<T: Ty>(self) {
        let SameChan(b, s, w) = self;
        let h: ChannelHandle<T> = raw_handle(s.0, s.1);
        let d = T::make_chan_handle(h);
        check(d == T::dyn_chan_handle(h), "converting to a dynamic channel handle keeps type and handle");
        check(d.prop_type() == tp(T::N) && h.prop_type() == tp(T::N), "both channel handles report the type");
        let ok = match (h.get(b), d.get(b)) {
            (Ok(x), Ok(y)) => {
                check(y.prop_type() == tp(T::N), "the dynamic channel view reports the type");
                check(T::chan_ref(y).map_or(false, |y| std::ptr::eq(x, y)), "both channel handles read the same channel");
                check(T::chan_ref(T::chan_ref_of(x)).map_or(false, |y| std::ptr::eq(x, y)), "a channel viewed dynamically is itself");
                check(T::chan_ref_of(x).prop_type() == tp(T::N), "a channel viewed dynamically reports its type");
                true
            }
            (Err(_), Err(_)) => {
                reach("unresolved channel");
                false
            }
            _ => {
                check(false, "both channel handles resolve, or neither");
                false
            }
        };
        check(b.channel(h).is_ok() == ok, "the store resolves the channel handle alike");
        let new = w.get::<T>();
        match d.get_mut(b) {
            Ok(y) => {
                check(ok, "get_mut resolves as get does");
                check(y.prop_type() == tp(T::N), "the mutable channel view reports the type");
                match T::chan_mut(y) {
                    Some(c) => *c = chan_of(&new),
                    None => check(false, "the mutable channel view has the type's variant"),
                }
                check(h.get(b).map_or(false, |c| is_chan_of(c, &new)), "a channel write through the dynamic handle is read through the typed one");
                match h.get_mut(b) {
                    Ok(c) => {
                        let p = c as *const Channel<T>;
                        let y = T::chan_mut_of(c);
                        check(y.prop_type() == tp(T::N), "a channel viewed mutably reports its type");
                        check(T::chan_mut(y).map_or(false, |c| p == c as *const _), "a channel viewed mutably is itself");
                    }
                    Err(_) => check(false, "the typed channel handle still resolves"),
                }
                reach("channel compared");
            }
            Err(_) => {
                check(!ok, "get_mut resolves as get does");
                check(h.get_mut(b).is_err() && b.channel_mut(h).is_err(), "an unresolved channel handle cannot be written through");
            }
        }
    }
}
/// Any handle at all (live, never issued, stale) of any type.
#[no_mangle]
pub extern "C" fn h_c09_states() {
    let n = choose(NT);
    let (mut b, mut m) = one_of_each(n);
    m.create(&mut b, 0, 0);
    m.remove(&mut b, 0, 0);
    let s: (usize, u64) = (any(), any());
    for_type(n, SameState(&mut b, s, Val::plain(n)));
}
#[no_mangle]
pub extern "C" fn h_c09_channels() {
    let n = choose(NT);
    let (mut b, mut m) = one_of_each(n);
    m.create(&mut b, 0, 0);
    m.remove(&mut b, 0, 0);
    let s: (usize, u64) = (any(), any());
    for_type(n, SameChan(&mut b, s, Val::plain(n)));
}
/// A type the store holds no value of.
#[no_mangle]
pub extern "C" fn h_c09_empty() {
    let (n, x) = (choose(NT), choose(3));
    let x = [n + 1, n + 14, n + 5][x] % NT;
    let (mut b, m) = one_of_each(x);
    let s: (usize, u64) = (any(), any());
    if flag() {
        for_type(n, SameState(&mut b, s, Val::plain(n)));
    } else {
        for_type(n, SameChan(&mut b, s, Val::plain(n)));
    }
    m.verify(&b);
}
/// Back from dynamic handles and ids: the original for the right type, an error for every other.
#[no_mangle]
pub extern "C" fn h_c09_back() {
    let (n, u) = (choose(NT), choose(NT));
    let s: (usize, u64) = (any(), any());
    let i: usize = any();
    struct Make((usize, u64), usize);
    type Made = (DynStateHandle, DynChannelHandle, DynStateId, DynChannelId, DynStateId, DynChannelId);
    impl ForType<Made> for Make {
        fn on<T: Ty>(self) -> Made {
            let c: ContractDataHandle = raw_handle(self.0 .0, self.0 .1);
            (
                T::make_state_handle(raw_handle(self.0 .0, self.0 .1)),
                T::make_chan_handle(raw_handle(self.0 .0, self.0 .1)),
                T::make_state_id(StateId::new(self.1, c)),
                T::make_chan_id(ChannelId::new(self.1, c)),
                DynStateId::new(c, self.1, tp(T::N)),
                DynChannelId::new(c, self.1, tp(T::N)),
            )
        }
    }
    struct Back(Made, (usize, u64), usize, bool);
    impl ForType<()> for Back {
        fn on<U: Ty>(self) {
            let Back((sh, ch, si, ci, si2, ci2), s, i, same) = self;
            let c: ContractDataHandle = raw_handle(s.0, s.1);
            match U::unwrap_state_handle(sh) {
                Some(h) => check(same && raw(h) == s, "a dynamic state handle converts back to the original"),
                None => check(!same, "a dynamic state handle converts back for its own type"),
            }
            match U::unwrap_chan_handle(ch) {
                Some(h) => check(same && raw(h) == s, "a dynamic channel handle converts back to the original"),
                None => check(!same, "a dynamic channel handle converts back for its own type"),
            }
            for x in [si, si2] {
                match U::unwrap_state_id(x) {
                    Some(x) => check(same && x == StateId::new(i, c), "a dynamic state id converts back to the original"),
                    None => check(!same, "a dynamic state id converts back for its own type"),
                }
            }
            for x in [ci, ci2] {
                match U::unwrap_chan_id(x) {
                    Some(x) => check(same && x == ChannelId::new(i, c), "a dynamic channel id converts back to the original"),
                    None => check(!same, "a dynamic channel id converts back for its own type"),
                }
            }
            reach(if same { "same type" } else { "other type" });
        }
    }
    let made = for_type(n, Make(s, i));
    for_type(u, Back(made, s, i, n == u));
}

// ---- C10 ----

struct Wrap;
impl Visit<()> for Wrap {
    fn on<T: Ty>(self, v: &T) {
        check(T::PROPERTY_TYPE == tp(T::N) && ITpProperty::prop_type(v) == tp(T::N), "a plain value reports its type");
        check(T::element_type() == PRIMS[T::N % 14], "an element type reports itself");
        check(tp(T::N).primitive_type() == PRIMS[T::N % 14], "a type tag reports its element type");
        let mut p = v.clone().into_dyn();
        check(p.prop_type() == tp(T::N) && ITpProperty::prop_type(&p) == tp(T::N), "a wrapped value reports its type");
        // borrowed
        let r: DynTpPropertyRef = BBorrow::borrow(&p);
        check(r.prop_type() == tp(T::N), "a borrowed view reports the type");
        check(T::from_ref(&r).map_or(false, |x| x.same(v)), "a borrowed view shows the value");
        let c = r;
        #[allow(clippy::clone_on_copy)]
        let d = c.clone();
        check(T::from_ref(&d).map_or(false, |x| x.same(v)) && d.prop_type() == tp(T::N), "a copied view shows the value");
        let rr = DynTpPropertyRef::from(&p);
        check(T::from_ref(&rr).map_or(false, |x| x.same(v)), "a converted view shows the value");
        let pr = &p;
        let rrr: DynTpPropertyRef = BBorrow::borrow(&pr);
        check(T::from_ref(&rrr).map_or(false, |x| x.same(v)), "a view through a reference shows the value");
        let plain = v.ref_of();
        check(plain.prop_type() == tp(T::N), "a view of a plain value reports its type");
        check(T::from_ref(&plain).map_or(false, |x| x.same(v)), "a view of a plain value shows it");
        for x in v.refs_of() {
            check(x.prop_type() == tp(T::N), "a view of a plain value reports its type");
            check(T::from_ref(&x).map_or(false, |x| x.same(v)), "a view of a plain value shows it");
        }
        let st = T::make_dyn_state(State::new(v.clone()));
        check(T::unwrap_dyn(st.0).map_or(false, |x| x.same(v)), "a state made dynamic keeps its value");
        // mutable views
        {
            let m: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut p);
            check(m.prop_type() == tp(T::N), "a mutable view reports the type");
            check(T::mut_value(&m).map_or(false, |x| x.same(v)), "a mutable view shows the value");
        }
        {
            let mut q = &mut p;
            let m: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut q);
            check(T::mut_value(&m).map_or(false, |x| x.same(v)), "a mutable view through a reference shows the value");
        }
        check(T::mut_value(&DynTpPropertyMut::from(&mut p)).map_or(false, |x| x.same(v)), "a converted mutable view shows the value");
        // channels
        let mut ch = T::make_dyn_chan(chan_of(v));
        check(ch.prop_type() == tp(T::N), "a wrapped channel reports its type");
        ch = match T::unwrap_dyn_chan(ch) {
            Some(c) => {
                check(is_chan_of(&c, v), "a channel unwraps to itself");
                T::make_dyn_chan(c)
            }
            None => {
                check(false, "a channel unwraps as its own type");
                return;
            }
        };
        drop(ch);
        // unwrapped
        check(T::unwrap_dyn(p).map_or(false, |x| x.same(v)), "unwrapping yields the value");
        reach("converted");
    }
}
#[no_mangle]
pub extern "C" fn h_c10_roundtrip() {
    Val::any(choose(NT)).visit(Wrap)
}
/// Longer texts (with a character beyond ASCII) and lists.
#[no_mangle]
pub extern "C" fn h_c10_long() {
    let n = [11, 14 + choose(14)][choose(2)];
    let len = [3, 4, 7, 8, 9, 16, 17, 24][choose(8)];
    Val::sized(n, len).visit(Wrap);
}
/// Writes through each mutable view.
struct Write(usize, Val);
impl Visit<()> for Write {
    fn on<T: Ty>(self, v: &T) {
        let w = self.1.get::<T>();
        let mut p = v.clone().into_dyn();
        let mut x = v.clone();
        let mut s = State::new(v.clone());
        let ok = match self.0 {
            0 => T::overwrite(BBorrowMut::borrow_mut(&mut p), w.clone()),
            1 => T::overwrite(DynTpPropertyMut::from(&mut p), w.clone()),
            2 => T::overwrite(x.mut_of(), w.clone()),
            3 => T::overwrite(x.mut_of2(), w.clone()),
            _ => T::overwrite(T::state_mut_of(&mut s).0, w.clone()),
        };
        check(ok, "a mutable view has the type's variant");
        let got = match self.0 {
            0 | 1 => {
                check(p.prop_type() == tp(T::N), "a write keeps the type");
                T::unwrap_dyn(p)
            }
            2 | 3 => Some(x),
            _ => Some(s.value),
        };
        check(got.map_or(false, |g| g.same(&w)), "a write through a mutable view changes the owner to the written value");
        reach("written");
    }
}
#[no_mangle]
pub extern "C" fn h_c10_write() {
    let n = choose(NT);
    let way = choose(5);
    Val::plain(n).visit(Write(way, Val::plain(n)))
}
/// Unwrapping as any type: its own gives the value, the others an error.
#[no_mangle]
pub extern "C" fn h_c10_unwrap() {
    let (n, u) = (choose(NT), choose(NT));
    let v = Val::plain(n);
    struct U<'a>(&'a Val, bool);
    impl ForType<()> for U<'_> {
        fn on<T: Ty>(self) {
            struct In<'b>(&'b Val);
            impl Visit<(DynTpProperty, DynChannel)> for In<'_> {
                fn on<T: Ty>(self, v: &T) -> (DynTpProperty, DynChannel) {
                    (v.clone().into_dyn(), T::make_dyn_chan(chan_of(v)))
                }
            }
            let (p, c) = self.0.visit(In(self.0));
            let r: DynTpPropertyRef = BBorrow::borrow(&p);
            check(T::from_ref(&r).is_some() == self.1, "a borrowed view is of one type only");
            match T::unwrap_dyn(p) {
                Some(x) => check(self.1 && x.same(&self.0.get::<T>()), "unwrapping yields the value"),
                None => check(!self.1, "a value unwraps as its own type only"),
            }
            match T::unwrap_dyn_chan(c) {
                Some(x) => check(self.1 && is_chan_of(&x, &self.0.get::<T>()), "unwrapping yields the channel"),
                None => check(!self.1, "a channel unwraps as its own type only"),
            }
            reach(if self.1 { "own type" } else { "other type" });
        }
    }
    for_type(u, U(&v, n == u));
}
/// The blanket impls of better_borrow hand out the very thing `Borrow` does.
#[no_mangle]
pub extern "C" fn h_c10_blanket() {
    let mut s = <String as V>::any();
    let mut v = <Vec<u16> as V>::any();
    let mut x: u64 = any();
    let t: &str = BBorrow::borrow(&s);
    check(std::ptr::eq(t, s.as_str()), "a string borrows as its text");
    let t: &[u16] = BBorrow::borrow(&v);
    check(std::ptr::eq(t, v.as_slice()), "a vector borrows as its slice");
    let y: &u64 = BBorrow::borrow(&x);
    check(std::ptr::eq(y, &x), "a value borrows as itself");
    let n = v.len();
    let m: &mut [u16] = BBorrowMut::borrow_mut(&mut v);
    check(m.len() == n, "a vector borrows mutably as its slice");
    if n > 0 {
        m[n - 1] = 7;
        check(v[n - 1] == 7, "a write through the borrow reaches the owner");
        reach("written");
    }
    let old = x;
    let m: &mut u64 = BBorrowMut::borrow_mut(&mut x);
    *m ^= 1;
    check(x == old ^ 1, "a write through the borrow reaches the owner");
    let m: &mut String = BBorrowMut::borrow_mut(&mut s);
    m.push('x');
    check(s.ends_with('x'), "a write through the borrow reaches the owner");
}

// ---- C11 ----

/// All comparisons between two values of any types; `want` is what `==` must say.
fn compare(a: &Val, b: &Val, want: bool) {
    struct In<'a>(&'a Val, bool);
    impl Visit<()> for In<'_> {
        fn on<T: Ty>(self, v: &T) {
            let want = self.1;
            let mut q = self.0.dyn_prop();
            let mut p = v.clone().dyn_prop();
            // plain against dynamic
            let (all, some) = v.eqs(&q);
            check(all == want && some == want, "plain and dynamic values compare by type and value, on either side");
            // dynamic against dynamic
            check((p == q) == want && (q == p) == want && (p != q) == !want && (q != p) == !want, "dynamic values compare by type and value");
            match (&p, &q) {
                (DynTpProperty::Primitive(x), DynTpProperty::Primitive(y)) => {
                    check((x == y) == want && (y == x) == want, "dynamic single values compare by type and value")
                }
                (DynTpProperty::Vec(x), DynTpProperty::Vec(y)) => check((x == y) == want && (y == x) == want, "dynamic lists compare by type and value"),
                _ => {}
            }
            // the dynamic property against its own inner forms
            match &q {
                DynTpProperty::Primitive(y) => check((p == *y) == want, "a dynamic value compares with a dynamic single value"),
                DynTpProperty::Vec(_) => {}
            }
            // borrowed views
            {
                let x: DynTpPropertyRef = BBorrow::borrow(&p);
                let y: DynTpPropertyRef = BBorrow::borrow(&q);
                check((x == y) == want && (y == x) == want && (x != y) == !want, "borrowed views compare by type and value");
                match (x, y) {
                    (DynTpPropertyRef::Primitive(x), DynTpPropertyRef::Primitive(y)) => {
                        check((x == y) == want && (y == x) == want, "borrowed single views compare by type and value")
                    }
                    (DynTpPropertyRef::Vec(x), DynTpPropertyRef::Vec(y)) => check((x == y) == want && (y == x) == want, "borrowed list views compare by type and value"),
                    _ => {}
                }
                let z = v.ref_of();
                check((z == y) == want && (y == z) == want, "a view of a plain value compares by type and value");
                check((dyn_state::DynStateRef(x) == dyn_state::DynStateRef(y)) == want, "state views compare by type and value");
            }
            {
                let x: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut p);
                let y: DynTpPropertyMut = BBorrowMut::borrow_mut(&mut q);
                check((x == y) == want && (y == x) == want, "mutable views compare by type and value");
                check((dyn_state::DynStateMut(x) == dyn_state::DynStateMut(y)) == want, "mutable state views compare by type and value");
            }
            check((DynState(p) == DynState(q)) == want, "dynamic states compare by type and value");
            if self.0.n() == T::N {
                let w = self.0.get::<T>();
                check((State::new(v.clone()) == State::new(w.clone())) == want, "states compare by value");
                check((Keyframe::new(v.clone(), 1.0) == Keyframe::new(w.clone(), 1.0)) == want, "keyframes compare by value");
            }
        }
    }
    a.visit(In(b, want));
}
#[no_mangle]
pub extern "C" fn h_c11_same_type() {
    let n = choose(NT);
    let (a, b) = (Val::any(n), Val::any(n));
    let want = a.equal(&b);
    compare(&a, &b, want);
    if want {
        reach("equal");
    } else {
        reach("different");
    }
}
/// Longer texts and lists, possibly one a prefix of the other.
#[no_mangle]
pub extern "C" fn h_c11_long() {
    let n = [11, 14 + choose(14)][choose(2)];
    let len = [3, 4, 8, 9, 17][choose(5)];
    let a = Val::sized(n, len);
    let b = Val::sized(n, if flag() { len } else { len + 1 });
    let want = a.equal(&b);
    compare(&a, &b, want);
    if want {
        reach("equal");
    } else {
        reach("different");
    }
}
#[no_mangle]
pub extern "C" fn h_c11_other_type() {
    let (n, u) = (choose(NT), choose(NT));
    assume(n != u);
    let (a, b) = (Val::plain(n), Val::plain(u));
    compare(&a, &b, false);
    reach("compared");
}
/// Lists that differ only in length, empty ones of different types included.
#[no_mangle]
pub extern "C" fn h_c11_empty() {
    let (n, u) = (14 + choose(14), 14 + choose(14));
    let (a, b) = (Val::empty(n), Val::empty(u));
    compare(&a, &b, n == u);
    let c = Val::plain(u);
    compare(&a, &c, false);
    compare(&c, &a, false);
    reach("compared");
}

// ---- C12 ----

trait Fields {
    type Iter: Iterator<Item = Self::Id>;
    type Id: Clone2;
    fn iter(c: ContractDataHandle) -> Self::Iter;
    fn by_pos(c: ContractDataHandle, i: usize) -> Option<Self::Id>;
    /// Is `id` the identifier of field `i` of type `n`?
    fn is(id: Self::Id, c: ContractDataHandle, i: usize, n: usize) -> bool;
}
trait Clone2 {}
impl<T> Clone2 for T {}
struct S_;
impl Fields for S_ {
    type Iter = StatesIter<Ks<0>>;
    type Id = DynStateId;
    fn iter(c: ContractDataHandle) -> Self::Iter {
        if flag() {
            StatesIter::new(c)
        } else {
            K::<0>(c).state_iter()
        }
    }
    fn by_pos(c: ContractDataHandle, i: usize) -> Option<DynStateId> {
        K::<0>(c).state_id(i)
    }
    fn is(id: DynStateId, c: ContractDataHandle, i: usize, n: usize) -> bool {
        struct F(DynStateId, ContractDataHandle, usize);
        impl ForType<bool> for F {
            fn on<T: Ty>(self) -> bool {
                let (c, i) = (self.1, self.2);
                T::state_id(self.0).map_or(false, |x| (x == StateId::new(i, c)) & (x != StateId::new(i + 1, c)) & (raw(x.contract()) == raw(c)))
            }
        }
        for_type(n, F(id, c, i))
    }
}
struct C_;
impl Fields for C_ {
    type Iter = ChannelsIter<Kc<0>>;
    type Id = DynChannelId;
    fn iter(c: ContractDataHandle) -> Self::Iter {
        if flag() {
            ChannelsIter::new(c)
        } else {
            K::<0>(c).chan_iter()
        }
    }
    fn by_pos(c: ContractDataHandle, i: usize) -> Option<DynChannelId> {
        K::<0>(c).chan_id(i)
    }
    fn is(id: DynChannelId, c: ContractDataHandle, i: usize, n: usize) -> bool {
        struct F(DynChannelId, ContractDataHandle, usize);
        impl ForType<bool> for F {
            fn on<T: Ty>(self) -> bool {
                let (c, i) = (self.1, self.2);
                T::chan_id(self.0).map_or(false, |x| (x == ChannelId::new(i, c)) & (x != ChannelId::new(i + 1, c)) & (raw(x.contract()) == raw(c)))
            }
        }
        for_type(n, F(id, c, i))
    }
}
/// A mix of single steps and skips of any distance.
fn walk<F: Fields>(shape: &[usize], c: ContractDataHandle, steps: usize) {
    let mut it = F::iter(c);
    let mut pos = 0;
    let left = |p: usize| (shape.len() - p, Some(shape.len() - p));
    check(it.size_hint() == left(0), "the remaining count starts at the number of fields");
    for _ in 0..steps {
        let (x, want) = if flag() {
            (it.next(), pos)
        } else {
            let n: usize = any();
            let w = if n >= shape.len() - pos { shape.len() } else { pos + n };
            if n > 0 && w < shape.len() {
                reach("skipped some");
            }
            if n > shape.len() {
                reach("skipped beyond the end");
            }
            (it.nth(n), conc(w as u64) as usize)
        };
        match x {
            Some(id) => {
                check(want < shape.len(), "iteration ends after the last field");
                check(want < shape.len() && F::is(id, c, want, shape[want]), "each identifier has its field's position, type and contract");
                pos = want + 1;
            }
            None => {
                check(want >= shape.len(), "iteration yields every field");
                pos = shape.len();
            }
        }
        check(it.size_hint() == left(pos), "the remaining count is exact");
    }
}
fn iterate(max: usize, types: &[usize], steps: usize) {
    let shape: Vec<usize> = (0..choose(max + 1)).map(|_| types[choose(types.len())]).collect();
    set_shape(0, shape.iter().map(|n| tp(*n)).collect(), vec![]);
    let c: ContractDataHandle = raw_handle(any(), any());
    if flag() {
        walk::<S_>(&shape, c, steps);
    } else {
        set_shape(0, vec![tp(3)], shape.iter().map(|n| tp(*n)).collect());
        walk::<C_>(&shape, c, steps);
    }
}
#[no_mangle]
pub extern "C" fn h_c12_walk3() {
    iterate(3, &FEW[..2], 3)
}
#[no_mangle]
pub extern "C" fn h_c12_walk4() {
    iterate(4, &FEW[..3], 4)
}
#[no_mangle]
pub extern "C" fn h_c12_types() {
    let n = choose(NT);
    let o = (n + 1 + choose(2) * 13) % NT;
    let (shape, c) = (vec![o, n], raw_handle(any(), any()));
    set_shape(0, shape.iter().map(|n| tp(*n)).collect(), shape.iter().map(|n| tp(*n)).collect());
    if flag() {
        walk::<S_>(&shape, c, 3);
    } else {
        walk::<C_>(&shape, c, 3);
    }
}
/// Contracts with many fields, some types repeated.
#[no_mangle]
pub extern "C" fn h_c12_many() {
    let n = [9, 16, 17, 28, 40][choose(5)];
    let (shape, c): (Vec<usize>, _) = ((0..n).map(|i| (i * 9) % NT).collect(), raw_handle(any(), any()));
    let t: Vec<_> = shape.iter().map(|n| tp(*n)).collect();
    set_shape(0, t.clone(), t);
    match choose(4) {
        0 => walk::<S_>(&shape, c, 2),
        1 => walk::<C_>(&shape, c, 2),
        2 => lookup::<S_>(&shape, c),
        _ => lookup::<C_>(&shape, c),
    }
}
fn lookup<F: Fields>(shape: &[usize], c: ContractDataHandle) {
    let i: usize = any();
    match F::by_pos(c, i) {
        Some(id) => {
            let i = conc(i as u64) as usize;
            check(i < shape.len(), "nothing beyond the last field");
            check(i < shape.len() && F::is(id, c, i, shape[i]), "looking up a position gives that field");
            reach("found");
        }
        None => {
            check(i >= shape.len(), "every field is found by position");
            reach("beyond");
        }
    }
    // the iterator's derived forms
    let n = shape.len();
    match choose(5) {
        0 => check(F::iter(c).count() == n, "count is the number of fields"),
        1 => {
            let ids: Vec<_> = F::iter(c).collect();
            check(ids.len() == n, "collecting yields every field");
            for (i, id) in ids.into_iter().enumerate() {
                check(F::is(id, c, i, shape[i]), "collecting keeps the order");
            }
        }
        2 => match F::iter(c).last() {
            Some(id) => check(n > 0 && F::is(id, c, n - 1, shape[n - 1]), "the last field comes last"),
            None => check(n == 0, "only an empty contract has no last field"),
        },
        3 => {
            let s = choose(4);
            let mut i = s;
            for id in F::iter(c).skip(s) {
                check(i < n && F::is(id, c, i, shape[i]), "skipping keeps the rest");
                i += 1;
            }
            check(i == n.max(s), "skipping yields the whole rest");
        }
        _ => {
            let s = 1 + choose(3);
            let mut i = 0;
            for id in F::iter(c).step_by(s) {
                check(i < n && F::is(id, c, i, shape[i]), "stepping yields every s-th field");
                i += s;
            }
            check(i >= n && i < n + s, "stepping yields them all");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c12_lookup() {
    let shape: Vec<usize> = (0..choose(4)).map(|_| FEW[choose(2)]).collect();
    let t: Vec<_> = shape.iter().map(|n| tp(*n)).collect();
    let c: ContractDataHandle = raw_handle(any(), any());
    if flag() {
        set_shape(0, t, vec![tp(3)]);
        lookup::<S_>(&shape, c)
    } else {
        set_shape(0, vec![tp(3); 2], t);
        lookup::<C_>(&shape, c)
    }
}
