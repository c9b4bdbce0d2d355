//! C20–C21: strings and vectors through the exported functions.
use crate::c::*;
use crate::types::*;
use symapi::*;

// ---- C20 ----

/// Is this UTF-8? Written from the definition (Unicode 15, table 3-7).
fn valid_utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let (n, lo, hi) = if x < 0x80 {
            (0, 0, 0)
        } else if x < 0xC2 {
            return false;
        } else if x < 0xE0 {
            (1, 0x80, 0xBF)
        } else if x < 0xF0 {
            (2, if x == 0xE0 { 0xA0 } else { 0x80 }, if x == 0xED { 0x9F } else { 0xBF })
        } else if x < 0xF5 {
            (3, if x == 0xF0 { 0x90 } else { 0x80 }, if x == 0xF4 { 0x8F } else { 0xBF })
        } else {
            return false;
        };
        if b.len() - i <= n {
            return false;
        }
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if b[i + k] < l || b[i + k] > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
fn utf8_case(b: Vec<u8>) {
    let keep = b.clone();
    let blocks = live_heap();
    let arg = CSlice::of(&b);
    unsafe {
        if valid_utf8(&b) {
            let s = rsharp__String__copy_utf8(arg);
            let v = rsharp__String__value(s);
            trace(v.len as u64);
            check(v.len == keep.len(), "as many bytes as were copied in");
            check(bytes_same(v.get(), &keep), "the same text is read back");
            check(bytes_same(&b, &keep), "the source buffer is not changed");
            check(keep.len() == 0 || v.ptr != b.as_ptr(), "the source buffer is not kept");
            drop(b); // a string that kept it would now read freed memory
            check(bytes_same(rsharp__String__value(s).get(), &keep), "the text outlives the source buffer");
            rsharp__String__drop(s);
            check(live_heap() == blocks - (keep.len() > 0) as u64, "dropping the string frees it");
            reach("text copied");
        } else {
            reach("not text");
            must_panic("bytes that are not UTF-8 are refused", || rsharp__String__copy_utf8(arg));
        }
    }
}
fn utf8(max: usize) {
    let n = choose(max + 1);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(any::<u8>());
    }
    utf8_case(b)
}
#[no_mangle]
pub extern "C" fn h_c20_utf8_4() {
    utf8(4)
}
#[no_mangle]
pub extern "C" fn h_c20_utf8_6() {
    utf8(6)
}
#[no_mangle]
pub extern "C" fn h_c20_utf8_long() {
    // two arbitrary bytes somewhere in a longer text, at every offset to the word-wise checks
    let n = 17 + choose(8);
    let mut b = vec![b'a'; n];
    let at = choose(n - 1);
    b[at] = any();
    b[at + 1] = any();
    utf8_case(b)
}
fn utf16_case(u: Vec<u16>) {
    // the expected UTF-8 form, from the definition
    let mut want: Vec<u8> = Vec::new();
    let mut ok = true;
    let mut i = 0;
    while i < u.len() && ok {
        let x = u[i] as u32;
        if x < 0x80 {
            want.push(x as u8);
        } else if x < 0x800 {
            want.push(0xC0 | (x >> 6) as u8);
            want.push(0x80 | (x & 63) as u8);
        } else if x < 0xD800 || x > 0xDFFF {
            want.push(0xE0 | (x >> 12) as u8);
            want.push(0x80 | (x >> 6 & 63) as u8);
            want.push(0x80 | (x & 63) as u8);
        } else if x < 0xDC00 && i + 1 < u.len() && u[i + 1] >= 0xDC00 && u[i + 1] <= 0xDFFF {
            let c = 0x10000 + ((x - 0xD800) << 10) + (u[i + 1] as u32 - 0xDC00);
            want.push(0xF0 | (c >> 18) as u8);
            want.push(0x80 | (c >> 12 & 63) as u8);
            want.push(0x80 | (c >> 6 & 63) as u8);
            want.push(0x80 | (c & 63) as u8);
            i += 1;
        } else {
            ok = false;
        }
        i += 1;
    }
    let keep = u.clone();
    let arg = CSlice16 { ptr: u.as_ptr(), len: u.len() };
    unsafe {
        if ok {
            let s = rsharp__String__copy_utf16(arg);
            let v = rsharp__String__value(s);
            trace(v.len as u64);
            check(v.len == want.len(), "the length is that of the UTF-8 form");
            check(bytes_same(v.get(), &want), "the text is the UTF-8 form of what was copied in");
            let mut same = true;
            for i in 0..keep.len() {
                same &= keep[i] == u[i];
            }
            check(same, "the source buffer is not changed");
            drop(u);
            check(bytes_same(rsharp__String__value(s).get(), &want), "the text outlives the source buffer");
            rsharp__String__drop(s);
            reach("text copied");
        } else {
            reach("not text");
            must_panic("units that are not UTF-16 are refused", || rsharp__String__copy_utf16(arg));
        }
    }
}
fn utf16(max: usize) {
    let n = choose(max + 1);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(any::<u16>());
    }
    utf16_case(b)
}
#[no_mangle]
pub extern "C" fn h_c20_utf16_5() {
    utf16(5)
}
#[no_mangle]
pub extern "C" fn h_c20_utf16_3() {
    utf16(3)
}
#[no_mangle]
pub extern "C" fn h_c20_utf16_long() {
    let n = 5 + choose(4);
    let mut b = vec![b'a' as u16; n];
    let at = choose(n - 1);
    b[at] = any();
    b[at + 1] = any();
    utf16_case(b)
}
#[no_mangle]
pub extern "C" fn h_c20_rust_views() {
    // the borrowed views between the interface's string and Rust's are the same string
    let mut s = String::any();
    let t = String::any();
    {
        let v: &rsharp::string::String = (&s).into();
        let w: &String = v.into();
        check(w.same(&s) & v.inner.same(&s), "a view reads the string");
        let c = v.clone();
        check(c == *v, "a copy is equal");
    }
    let v: &mut rsharp::string::String = (&mut s).into();
    let w: &mut String = v.into();
    *w = t.clone();
    check(s.same(&t), "a write through a view reaches the string");
    let o: rsharp::string::String = s.into();
    let back: String = o.into();
    check(back.same(&t), "conversion keeps the text");
    reach("converted");
}

// ---- C21 ----

struct Item<T> {
    v: T,
    t: f64,
}
impl<T: CFns> Item<T> {
    fn any() -> Self {
        Item { v: T::plain(), t: any() }
    }
    unsafe fn give(&self) -> P {
        T::keyframe_new(self.v.give(), self.t)
    }
    unsafe fn is(&self, k: P) -> bool {
        self.v.is(T::keyframe_value(k)) & (T::keyframe_time(k).to_bits() == self.t.to_bits())
    }
}
unsafe fn holds<T: CFns>(v: &CVec, m: &[Item<T>]) {
    check(v.len == m.len(), "the vector has as many items as were pushed");
    check(v.cap >= v.len, "capacity covers the items");
    for (i, x) in m.iter().enumerate() {
        check(x.is(T::vec_get(v, i)), "each position holds what was last put there");
    }
}
struct History(usize);
impl ForC for History {
    fn run<T: CFns>(&mut self) {
        unsafe {
            let blocks = live_heap();
            let mut v = T::vec_new();
            let mut m: Vec<Item<T>> = Vec::with_capacity(8);
            let own = live_heap() - blocks;
            check(v.len == 0, "a new vector is empty");
            for _ in 0..self.0 {
                match choose(3) {
                    0 => {
                        let x = Item::any();
                        T::vec_push(&mut v, x.give());
                        m.push(x);
                    }
                    1 => {
                        let i: usize = any();
                        let x = Item::any();
                        let k = x.give();
                        if i < m.len() {
                            let i = conc(i as u64) as usize;
                            T::vec_set(&mut v, i, k);
                            m[i] = x;
                            reach("stored");
                        } else {
                            reach("stored out of range");
                            must_panic("storing out of range is refused", || T::vec_set(&mut v, i, k));
                        }
                    }
                    _ => {
                        let i: usize = any();
                        if i < m.len() {
                            let i = conc(i as u64) as usize;
                            check(m[i].is(T::vec_get(&v, i)), "reading gives the item at that position");
                        } else {
                            reach("read out of range");
                            must_panic("reading out of range is refused", || T::vec_get(&v, i));
                        }
                    }
                }
                holds(&v, &m);
            }
            let n = m.len();
            drop(m);
            T::vec_drop(v);
            check(live_heap() == blocks, "dropping the vector frees every item once");
            trace(n as u64);
            let _ = own;
        }
    }
}
fn history(types: &[usize], n: usize) {
    for_c(types[choose(types.len())], &mut History(n))
}
#[no_mangle]
pub extern "C" fn h_c21_history4() {
    history(&[0, 5, 11], 4)
}
#[no_mangle]
pub extern "C" fn h_c21_history6() {
    history(&[0, 5, 11], 6)
}
#[no_mangle]
pub extern "C" fn h_c21_types() {
    struct Two;
    impl ForC for Two {
        fn run<T: CFns>(&mut self) {
            unsafe {
                let blocks = live_heap();
                let mut v = T::vec_new();
                let (a, b, c) = (Item::<T>::any(), Item::<T>::any(), Item::<T>::any());
                let m0 = live_heap() - blocks;
                T::vec_push(&mut v, a.give());
                T::vec_push(&mut v, b.give());
                check(v.len == 2, "two items");
                check(a.is(T::vec_get(&v, 0)) & b.is(T::vec_get(&v, 1)), "items in push order");
                let i = choose(2);
                T::vec_set(&mut v, i, c.give());
                check((if i == 0 { &c } else { &a }).is(T::vec_get(&v, 0)), "storing changes its position only (first)");
                check((if i == 1 { &c } else { &b }).is(T::vec_get(&v, 1)), "storing changes its position only (second)");
                let beyond: usize = any();
                if beyond >= 2 {
                    if flag() {
                        must_panic("reading out of range is refused", || T::vec_get(&v, beyond));
                    }
                    let k = c.give();
                    must_panic("storing out of range is refused", || T::vec_set(&mut v, beyond, k));
                }
                T::vec_drop(v);
                check(live_heap() - blocks == m0, "dropping frees every item once");
                reach("two items");
            }
        }
    }
    for_c(choose(14), &mut Two)
}
#[no_mangle]
pub extern "C" fn h_c21_long() {
    // growth: 20 items, one of them arbitrary
    unsafe {
        let mut v = u32::vec_new();
        let at = choose(20);
        let x = Item { v: any::<u32>(), t: any() };
        for i in 0..20 {
            let y = Item { v: i as u32, t: i as f64 };
            u32::vec_push(&mut v, if i == at { x.give() } else { y.give() });
        }
        check(v.len == 20, "all items are there");
        for i in 0..20 {
            let y = Item { v: i as u32, t: i as f64 };
            check((if i == at { &x } else { &y }).is(u32::vec_get(&v, i)), "items in push order");
        }
        u32::vec_drop(v);
        reach("grown");
    }
}
