//! C02: size, membership, iteration and handle comparisons, against the same model as C01.
use crate::c01::{start, step, Model};
use crate::types::raw;
use arena::{Arena, Index};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use symapi::*;

fn find(m: &Model, h: Index<u32>) -> Option<usize> {
    m.issued.iter().position(|(i, _)| raw(*i) == raw(h))
}
/// Checks one sequence of visited entries against the model: each live one exactly once.
fn exact(m: &Model, seen: &[(Index<u32>, u32)], msg: &'static str) {
    check(seen.len() == m.live(), msg);
    let mut marks = vec![false; m.issued.len()];
    for (h, v) in seen {
        match find(m, *h) {
            Some(k) => {
                check(m.issued[k].1 == Some(*v), msg);
                check(!marks[k], "an entry is visited once");
                marks[k] = true;
            }
            None => check(false, "only issued handles are visited"),
        }
    }
}
fn compare(a: &mut Arena<u32>, m: &Model) {
    check(a.len() == m.live(), "len is the number of live handles");
    check(a.is_empty() == (m.live() == 0), "is_empty agrees");
    check(a.capacity() >= a.len(), "capacity is at least the length");
    for (h, v) in &m.issued {
        check(a.contains(*h) == v.is_some(), "contains agrees");
    }
    // forward, backward, and meeting in the middle
    let n = m.live();
    let mode = choose(4);
    let mut turn = 0;
    // short arenas: every mix of directions
    let mut mixed = || {
        turn += 1;
        if n < 6 {
            flag()
        } else {
            turn % 3 == 0
        }
    };
    let mut seen = vec![];
    if mode == 3 {
        let mut it = a.iter_mut();
        loop {
            check(it.size_hint() == (n - seen.len(), Some(n - seen.len())), "iter_mut size hint is exact");
            check(it.len() == n - seen.len(), "iter_mut length is exact");
            let x = if mixed() { it.next() } else { it.next_back() };
            match x {
                Some((h, v)) => {
                    check(seen.len() < n, "iter_mut ends");
                    seen.push((h, *v))
                }
                None => break,
            }
        }
        check(it.next().is_none() && it.next_back().is_none(), "iter_mut stays at its end");
    } else {
        let mut it = a.iter();
        loop {
            check(it.size_hint() == (n - seen.len(), Some(n - seen.len())), "iter size hint is exact");
            check(it.len() == n - seen.len(), "iter length is exact");
            let fwd = match mode {
                0 => true,
                1 => false,
                _ => mixed(),
            };
            if mode == 0 {
                let mut c = it.clone();
                check(c.next().map(|(h, _)| raw(h)) == it.clone().next().map(|(h, _)| raw(h)), "a cloned iterator continues alike");
            }
            let x = if fwd { it.next() } else { it.next_back() };
            match x {
                Some((h, v)) => {
                    check(seen.len() < n, "iter ends");
                    seen.push((h, *v))
                }
                None => break,
            }
        }
        check(it.next().is_none() && it.next_back().is_none(), "iter stays at its end");
    }
    exact(m, &seen, "iteration yields the live entries");
    if seen.len() > 1 {
        reach("several entries visited");
    }
}
type E = (usize, u64, u32);
fn same(x: &[E], y: &[E], msg: &'static str) {
    check(x.len() == y.len(), msg);
    for (p, q) in x.iter().zip(y.iter()) {
        check((p.0 == q.0) & (p.1 == q.1) & (p.2 == q.2), msg);
    }
}
/// Everything an iterator offers beyond `next` follows from the sequence `all`, also after a step from either end.
fn offers<I, F>(mut it: I, f: F, all: &[E])
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item) -> E,
{
    let n = all.len();
    let (mut lo, mut hi) = (0, n);
    match choose(3) {
        1 if n > 0 => {
            it.next();
            lo = 1
        }
        2 if n > 0 => {
            it.next_back();
            hi = n - 1
        }
        _ => {}
    }
    let fwd = &all[lo..hi];
    let mut back = fwd.to_vec();
    back.reverse();
    let m = fwd.len();
    let k = choose(n + 2);
    if n > 1 {
        reach("several entries visited");
    }
    match choose(10) {
        0 => {
            let x: Vec<_> = it.nth(k).into_iter().map(&f).collect();
            same(&x, &fwd[k.min(m)..(k + 1).min(m)], "nth gives the entry that many steps on");
            check(it.len() == m - (k + 1).min(m), "nth consumes what it passes");
            let x: Vec<_> = it.map(&f).collect();
            same(&x, &fwd[(k + 1).min(m)..], "nth leaves the entries after it");
        }
        1 => {
            let x: Vec<_> = it.nth_back(k).into_iter().map(&f).collect();
            same(&x, &back[k.min(m)..(k + 1).min(m)], "nth_back gives the entry that many steps from the end");
            check(it.len() == m - (k + 1).min(m), "nth_back consumes what it passes");
            let x: Vec<_> = it.rev().map(&f).collect();
            same(&x, &back[(k + 1).min(m)..], "nth_back leaves the entries before it");
        }
        2 => {
            let x: Vec<_> = it.last().into_iter().map(&f).collect();
            same(&x, &fwd[m.saturating_sub(1)..], "last gives the last entry");
        }
        3 => check(it.count() == m, "count gives the number of entries"),
        4 => {
            let x: Vec<_> = it.skip(k).map(&f).collect();
            same(&x, &fwd[k.min(m)..], "skip leaves the entries after");
        }
        5 => {
            let x: Vec<_> = it.rev().map(&f).collect();
            same(&x, &back, "backwards is the reverse");
        }
        6 => {
            let x: Vec<_> = it.step_by(k + 1).map(&f).collect();
            let y: Vec<_> = fwd.iter().copied().step_by(k + 1).collect();
            same(&x, &y, "step_by visits every so many");
        }
        7 => {
            let x = it.fold(vec![], |mut v, e| {
                v.push(f(e));
                v
            });
            same(&x, fwd, "fold visits the entries in order");
        }
        8 => {
            let x = it.rfold(vec![], |mut v, e| {
                v.push(f(e));
                v
            });
            same(&x, &back, "rfold visits the entries in reverse order");
        }
        _ => {
            let mut x = vec![];
            for _ in 0..k {
                x.extend(it.next().map(&f));
            }
            same(&x, &fwd[..k.min(m)], "the first entries");
            check(it.len() == m - k.min(m), "what is left is counted");
            let x: Vec<_> = it.rev().map(&f).collect();
            same(&x, &back[..m - k.min(m)], "what is left is given backwards");
        }
    }
}
fn entries(a: &Arena<u32>) -> Vec<(usize, u64, u32)> {
    let mut v = vec![];
    let mut it = a.iter();
    while let Some((h, x)) = it.next() {
        let (i, g) = raw(h);
        v.push((i, g, *x));
    }
    v
}
fn one(h: Index<u32>, v: u32) -> (usize, u64, u32) {
    let (i, g) = raw(h);
    (i, g, v)
}
/// Every method of every iterator, on an arena of up to `max` entries with gaps.
fn iterators(max: usize) {
    let mut a: Arena<u32> = Arena::new();
    let n = choose(max + 1);
    let hs: Vec<_> = (0..n).map(|_| a.insert(any())).collect();
    for h in &hs {
        if flag() {
            a.remove(*h);
        }
    }
    if flag() {
        a.insert(any());
    }
    let all = entries(&a);
    check(all.len() == a.len(), "iteration visits every live entry");
    match choose(4) {
        0 => offers(a.iter(), |(h, v)| one(h, *v), &all),
        1 => offers(a.iter_mut(), |(h, v)| one(h, *v), &all),
        2 => offers((&mut a).into_iter(), |(h, v)| one(h, *v), &all),
        _ => {
            let vals: Vec<_> = all.iter().map(|x| (0, 0, x.2)).collect();
            offers(a.into_iter(), |v| (0, 0, v), &vals)
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c02_iterators3() {
    iterators(3)
}
#[no_mangle]
pub extern "C" fn h_c02_iterators4() {
    iterators(4)
}
/// The remaining views: all at once, consuming ones last.
fn finish(mut a: Arena<u32>, mut m: Model) {
    match choose(4) {
        0 => {
            // writes through mutable iteration reach exactly that entry
            let n = m.live();
            assume(n > 0);
            let k = if n < 7 { choose(n) } else { [0, n / 2, n - 1][choose(3)] };
            let w: u32 = any();
            let (h, r) = (&mut a).into_iter().nth(k).unwrap();
            *r = w;
            let i = find(&m, h).unwrap();
            m.issued[i].1 = Some(w);
            reach("written while iterating");
            let all: Vec<_> = a.iter().map(|(h, v)| (h, *v)).collect();
            exact(&m, &all, "a write while iterating changes that entry");
        }
        1 => {
            let fwd: Vec<_> = a.iter().map(|(h, _)| h).collect();
            let mut vals: Vec<u32> = vec![];
            let mut back = a.clone().into_iter();
            while let Some(v) = back.next_back() {
                vals.push(v);
            }
            vals.reverse();
            let vals2: Vec<u32> = a.into_iter().collect();
            check(vals.len() == m.live() && vals2.len() == m.live(), "consuming yields every value");
            for (i, h) in fwd.iter().enumerate() {
                let want = m.issued[find(&m, *h).unwrap()].1;
                check(want == Some(vals[i]) && want == Some(vals2[i]), "consuming yields the values in iteration order");
            }
        }
        2 => {
            let before: Vec<_> = a.iter().map(|(h, v)| (h, *v)).collect();
            let n = choose(4);
            let cap = a.capacity();
            a.reserve(n);
            check(a.capacity() >= cap && a.capacity() >= m.live() + n, "reserve provides the room asked for");
            let after: Vec<_> = a.iter().map(|(h, v)| (h, *v)).collect();
            check(before.len() == after.len(), "reserve keeps the entries");
            for (x, y) in before.iter().zip(after.iter()) {
                check(raw(x.0) == raw(y.0) && x.1 == y.1, "reserve changes no entry");
            }
            exact(&m, &after, "reserve keeps exactly the live entries");
            // the room is usable: each further insertion shows up
            for i in 0..n {
                let v: u32 = any();
                let h = a.insert(v);
                check(find(&m, h).is_none(), "a fresh handle after reserving");
                m.issued.push((h, Some(v)));
                check(a.len() == before.len() + i + 1, "insertions after reserving are counted");
            }
            let all: Vec<_> = a.iter().map(|(h, v)| (h, *v)).collect();
            exact(&m, &all, "insertions after reserving are listed");
            reach("reserved");
        }
        _ => {
            let b = a.clone();
            let x: Vec<_> = b.iter().map(|(h, v)| (h, *v)).collect();
            exact(&m, &x, "a clone lists the same entries");
            let g: arena::generational_arena::Arena<u32> = a.into();
            check(g.len() == m.live(), "converting to the inner arena keeps the entries");
        }
    }
}
fn hash(h: &Index<u32>) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
fn history(steps: usize) {
    let (mut a, mut m) = start();
    for _ in 0..steps {
        step(&mut a, &mut m);
    }
    if flag() {
        return compare(&mut a, &m);
    }
    for i in 0..m.issued.len() {
        for j in 0..m.issued.len() {
            let (x, y) = (m.issued[i].0, m.issued[j].0);
            check((x == y) == (i == j), "handles are equal exactly for the same insertion");
            check((x.cmp(&y) == std::cmp::Ordering::Equal) == (i == j), "handle order agrees with equality");
            if i == j {
                check(hash(&x) == hash(&y), "equal handles hash alike");
            }
        }
    }
    finish(a, m);
}
#[no_mangle]
pub extern "C" fn h_c02_history3() {
    history(3)
}
#[no_mangle]
pub extern "C" fn h_c02_history4() {
    history(4)
}
#[no_mangle]
pub extern "C" fn h_c02_history5() {
    history(5)
}
/// The same views of larger arenas.
#[no_mangle]
pub extern "C" fn h_c02_large() {
    let (mut a, m) = crate::c01::large();
    match choose(3) {
        0 => compare(&mut a, &m),
        1 => finish(a, m),
        _ => {
            let all = entries(&a);
            check(all.len() == m.live(), "iteration yields the live entries");
            let mut it = a.iter();
            let k = [0, 1, 7, 16, 31][choose(5)];
            let x: Vec<_> = it.nth(k).into_iter().map(|(h, v)| one(h, *v)).collect();
            same(&x, &all[k.min(all.len())..(k + 1).min(all.len())], "nth gives the entry that many steps on");
            let x: Vec<_> = it.rev().map(|(h, v)| one(h, *v)).collect();
            let mut back = all[(k + 1).min(all.len())..].to_vec();
            back.reverse();
            same(&x, &back, "what is left is given backwards");
        }
    }
    reach("large");
}
/// Comparisons of arbitrary handles: a total order consistent with equality and hashing.
#[no_mangle]
pub extern "C" fn h_c02_handles() {
    let g = || crate::types::raw_handle::<u32>(any(), any());
    let (a, b, c) = (g(), g(), g());
    let same = |x: Index<u32>, y: Index<u32>| (raw(x).0 == raw(y).0) & (raw(x).1 == raw(y).1);
    check((a == b) == same(a, b), "handles are equal exactly when slot and generation are");
    check((a != b) == !same(a, b), "ne is the negation of eq");
    check((a.cmp(&b) == std::cmp::Ordering::Equal) == (a == b), "cmp is Equal exactly for equal handles");
    check(a.partial_cmp(&b) == Some(a.cmp(&b)), "partial_cmp is cmp");
    check(a.cmp(&b) == b.cmp(&a).reverse(), "the order is antisymmetric");
    if a < b && b < c {
        reach("a chain");
        check(a < c, "the order is transitive");
    }
    let d = a.clone();
    check(same(a, d), "a copy is the same handle");
    if a == b {
        reach("equal handles");
        let x = feed(&a);
        let y = feed(&b);
        check(x == y, "equal handles hash alike");
    }
}
/// A hasher that depends on everything it is fed: alike under it, for all inputs, means fed alike.
fn feed(h: &Index<u32>) -> u64 {
    let mut s = Sum(0);
    h.hash(&mut s);
    s.finish()
}
pub struct Sum(pub u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(9) ^ (*x as u64);
        }
        self.0 = self.0.wrapping_add(b.len() as u64);
    }
}
