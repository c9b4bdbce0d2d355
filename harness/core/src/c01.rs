//! C01: histories of one arena; every handle ever issued is compared with a model.
use arena::generational_arena as ga;
use arena::{Arena, Index};
use symapi::*;

pub struct Model {
    pub issued: Vec<(Index<u32>, Option<u32>)>,
}
impl Model {
    pub fn live(&self) -> usize {
        self.issued.iter().filter(|(_, v)| v.is_some()).count()
    }
}
pub fn start() -> (Arena<u32>, Model) {
    let mut m = Model { issued: vec![] };
    let a = match choose(4) {
        0 => Arena::new(),
        1 => Arena::default(),
        2 => Arena::with_capacity(choose(3)),
        _ => {
            let vals: Vec<u32> = (0..choose(3)).map(|_| any()).collect();
            let a: Arena<u32> = vals.iter().copied().collect();
            check(a.len() == vals.len(), "collected arena has every item");
            for ((i, v), x) in a.iter().zip(vals.iter()) {
                check(*v == *x, "collected arena keeps the order");
                m.issued.push((i, Some(*x)));
            }
            a
        }
    };
    (a, m)
}
pub fn compare(a: &mut Arena<u32>, m: &Model) {
    for (h, v) in &m.issued {
        check(a.get(*h).copied() == *v, "get yields the value of this insertion, or nothing");
        check(a.contains(*h) == v.is_some(), "contains agrees");
    }
}
pub fn step(a: &mut Arena<u32>, m: &mut Model) {
    let n = m.issued.len();
    match choose(5) {
        0 => {
            let v: u32 = any();
            let h = a.insert(v);
            for (o, _) in &m.issued {
                check(*o != h, "a new handle differs from all earlier ones");
            }
            if m.issued.iter().any(|(o, v)| v.is_none() && ga::Index::from(*o).into_raw_parts().0 == ga::Index::from(h).into_raw_parts().0) {
                reach("slot reused");
            }
            m.issued.push((h, Some(v)));
        }
        1 => {
            assume(n > 0);
            let k = choose(n);
            let (h, v) = m.issued[k];
            if v.is_none() {
                reach("stale remove");
            }
            check(a.remove(h) == v, "remove returns the value once");
            m.issued[k].1 = None;
        }
        2 => {
            assume(n > 0);
            let k = choose(n);
            let (h, v) = m.issued[k];
            let w: u32 = any();
            match a.get_mut(h) {
                Some(r) => {
                    check(v == Some(*r), "get_mut yields this insertion's value");
                    *r = w;
                    m.issued[k].1 = Some(w);
                }
                None => check(v.is_none(), "get_mut finds a live value"),
            }
        }
        3 => a.reserve(choose(3)),
        _ => {
            assume(n > 0);
            let k = choose(n);
            let (h, v) = m.issued[k];
            if v.is_some() {
                let w: u32 = any();
                check(Some(a[h]) == v, "indexing yields the value");
                a[h] = w;
                m.issued[k].1 = Some(w);
            } else if flag() {
                reach("stale index");
                must_panic("indexing with a stale handle panics", || a[h]);
            } else {
                must_panic("mutable indexing with a stale handle panics", || a[h] = 1);
            }
        }
    }
}
fn history(steps: usize) {
    let (mut a, mut m) = start();
    compare(&mut a, &m);
    for _ in 0..steps {
        step(&mut a, &mut m);
        compare(&mut a, &m);
    }
    if m.live() >= 2 {
        reach("two live");
    }
}
#[no_mangle]
pub extern "C" fn h_c01_history3() {
    history(3)
}
#[no_mangle]
pub extern "C" fn h_c01_history4() {
    history(4)
}
#[no_mangle]
pub extern "C" fn h_c01_history5() {
    history(5)
}
/// Handles nobody issued: any slot and generation.
#[no_mangle]
pub extern "C" fn h_c01_forged() {
    let (mut a, mut m) = start();
    for _ in 0..2 {
        step(&mut a, &mut m);
    }
    let h: Index<u32> = Index::new(ga::Index::from_raw_parts(any(), any()));
    let k = m.issued.iter().position(|(o, _)| *o == h);
    let want = k.and_then(|k| m.issued[k].1);
    check(a.get(h).copied() == want, "a handle resolves only if it was issued");
    check(a.contains(h) == want.is_some(), "contains agrees for any handle");
    match choose(3) {
        0 => {
            check(a.remove(h) == want, "remove of any handle");
            if let Some(k) = k {
                m.issued[k].1 = None;
            }
        }
        1 => {
            let w: u32 = any();
            match a.get_mut(h) {
                Some(r) => {
                    check(want.is_some(), "get_mut resolves only an issued live handle");
                    *r = w;
                    m.issued[k.unwrap()].1 = Some(w);
                }
                None => check(want.is_none(), "get_mut finds a live value"),
            }
        }
        _ => {
            if want.is_none() {
                reach("forged handle");
                if flag() {
                    must_panic("indexing with a forged handle panics", || a[h]);
                } else {
                    must_panic("mutable indexing with a forged handle panics", || a[h] = 1);
                }
            }
        }
    }
    compare(&mut a, &m);
}
#[no_mangle]
pub extern "C" fn h_c01_history6() {
    history(6)
}
/// Larger arenas, across several growths: a few entries removed, written and inserted again at any of many places.
pub fn large() -> (Arena<u32>, Model) {
    let n = [7, 8, 9, 16, 17, 33, 40][choose(7)];
    let mut m = Model { issued: vec![] };
    let mut a = if flag() { Arena::new() } else { Arena::with_capacity(n - 1) };
    for _ in 0..n {
        let v: u32 = any();
        m.issued.push((a.insert(v), Some(v)));
    }
    let places = [0, 1, n / 2, n - 2, n - 1];
    for _ in 0..2 {
        let k = places[choose(5)];
        check(a.remove(m.issued[k].0) == m.issued[k].1, "remove returns the value once");
        m.issued[k].1 = None;
    }
    for _ in 0..choose(4) {
        let v: u32 = any();
        let h = a.insert(v);
        for (o, _) in &m.issued {
            check(*o != h, "a new handle differs from all earlier ones");
        }
        m.issued.push((h, Some(v)));
    }
    let k = places[choose(5)];
    match a.get_mut(m.issued[k].0) {
        Some(r) => {
            check(m.issued[k].1 == Some(*r), "get_mut yields this insertion's value");
            *r = any();
            m.issued[k].1 = Some(*r)
        }
        None => check(m.issued[k].1.is_none(), "get_mut finds a live value"),
    }
    (a, m)
}
#[no_mangle]
pub extern "C" fn h_c01_large() {
    let (mut a, m) = large();
    compare(&mut a, &m);
    for (h, v) in &m.issued {
        if let Some(v) = v {
            check(a[*h] == *v, "indexing yields the value");
        }
    }
    reach("large");
}
/// Values that own memory, and values of no size: each handle still reaches its own, and each is dropped once.
#[no_mangle]
pub extern "C" fn h_c01_owned() {
    let blocks = live_heap();
    {
        let mut a: Arena<Box<u32>> = Arena::new();
        let vals: Vec<u32> = (0..3).map(|_| any()).collect();
        let hs: Vec<_> = vals.iter().map(|v| a.insert(Box::new(*v))).collect();
        let k = choose(3);
        let x = a.remove(hs[k]);
        check(x.map(|b| *b) == Some(vals[k]), "remove returns the value once");
        check(a.remove(hs[k]).is_none(), "remove returns the value once");
        let n = a.insert(Box::new(9));
        for i in 0..3 {
            check(a.get(hs[i]).map(|b| **b) == if i == k { None } else { Some(vals[i]) }, "get yields the value of this insertion, or nothing");
        }
        check(*a[n] == 9, "indexing yields the value");
        if flag() {
            *a[n] = 10;
            check(a.into_iter().map(|b| *b).filter(|x| *x == 10).count() >= 1, "a write is kept");
        }
    }
    check(live_heap() == blocks, "every value is dropped once");
    let mut z: Arena<()> = Arena::new();
    let (p, q) = (z.insert(()), z.insert(()));
    check(p != q && z.len() == 2, "entries of no size are still told apart");
    check(z.remove(p).is_some() && z.remove(p).is_none(), "remove returns the value once");
    check(z.get(p).is_none() && z.get(q).is_some(), "get yields the value of this insertion, or nothing");
    reach("owned");
}
