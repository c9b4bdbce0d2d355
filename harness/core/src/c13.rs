//! C13–C16: channels, tweens and time arithmetic.
use crate::c09::{for_type, ForType};
use crate::types::*;
use keyframe::CanTween;
use symapi::*;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::time::{ChannelTime, RealmTime, Ticks, TimeScale, TimeWarp};

// ---- C13 ----

/// Does the channel hold exactly the keyframes (i, times[i]), each once?
fn holds(c: &Channel<u32>, times: &[f64]) {
    let k = c.keyframes();
    check(k.len() == times.len(), "as many keyframes as were given");
    let mut seen = 0u64;
    for f in k {
        let id = *f.value() as u64;
        check(id < times.len() as u64, "every keyframe was given");
        let mut ok = false;
        for (i, t) in times.iter().enumerate() {
            ok |= (id == i as u64) & (t.to_bits() == f.time().to_bits());
        }
        check(ok, "every keyframe keeps its own time");
        let bit = 1u64 << (id & 63);
        check(seen & bit == 0, "no keyframe occurs twice");
        seen |= bit;
    }
}
fn ordered(c: &Channel<u32>) {
    let k = c.keyframes();
    for i in 1..k.len() {
        check(k[i - 1].time() <= k[i].time(), "keyframes are in time order");
    }
}
fn channel(times: &[f64]) -> Channel<u32> {
    Channel::new(times.iter().enumerate().map(|(i, t)| Keyframe::new(i as u32, *t)))
}
fn sorted(max: usize) {
    let n = choose(max + 1);
    let times: Vec<f64> = (0..n).map(|_| any()).collect();
    for t in &times {
        assume(!t.is_nan());
    }
    let c = channel(&times);
    holds(&c, &times);
    ordered(&c);
    if n >= 2 {
        if times[0] == times[1] {
            reach("equal times");
        } else if times[0] > times[1] {
            reach("reordered");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c13_sorted4() {
    sorted(4)
}
#[no_mangle]
pub extern "C" fn h_c13_sorted5() {
    sorted(5)
}
#[no_mangle]
pub extern "C" fn h_c13_sorted6() {
    sorted(6)
}
/// Long channels (sorted by another algorithm): fixed patterns of times with two arbitrary ones among them.
fn long(n: usize, free: usize) {
    let pattern = choose(4);
    let mut times: Vec<f64> = (0..n)
        .map(|i| match pattern {
            0 => i as f64,
            1 => (n - i) as f64,
            2 => ((i * 7) % n) as f64,
            _ => (i % 3) as f64,
        })
        .collect();
    let places = [0, n / 2, n - 1];
    let p = choose(3);
    for j in 0..free {
        let t: f64 = any();
        assume(!t.is_nan());
        times[places[(p + j) % 3]] = t;
    }
    let c = channel(&times);
    holds(&c, &times);
    ordered(&c);
    reach("sorted");
}
#[no_mangle]
pub extern "C" fn h_c13_long1() {
    long(24, 1)
}
#[no_mangle]
pub extern "C" fn h_c13_long2() {
    long(40, 2)
}
/// Keyframes that may be alike in everything: each is kept as many times as it was given.
fn repeats(max: usize) {
    let n = 2 + choose(max - 1);
    let given: Vec<(u8, f64)> = (0..n).map(|_| (any(), any())).collect();
    for (_, t) in &given {
        assume(!t.is_nan());
    }
    let c = Channel::new(given.iter().map(|(v, t)| Keyframe::new(*v, *t)));
    let k = c.keyframes();
    check(k.len() == n, "as many keyframes as were given");
    for (v, t) in &given {
        let was: u32 = given.iter().map(|(w, u)| ((w == v) & (u.to_bits() == t.to_bits())) as u32).sum();
        let is: u32 = k.iter().map(|f| ((f.value() == v) & (f.time().to_bits() == t.to_bits())) as u32).sum();
        check(was == is, "every keyframe is kept as often as it was given");
    }
    for i in 1..n {
        check(k[i - 1].time() <= k[i].time(), "keyframes are in time order");
    }
    if (given[0].0 == given[1].0) & (given[0].1 == given[1].1) {
        reach("twice the same");
    }
}
#[no_mangle]
pub extern "C" fn h_c13_repeats3() {
    repeats(3)
}
#[no_mangle]
pub extern "C" fn h_c13_repeats4() {
    repeats(4)
}
/// Times that are no numbers have no place in the order, but their keyframes are kept.
#[no_mangle]
pub extern "C" fn h_c13_any_time() {
    let n = choose(4) + 1;
    let times: Vec<f64> = (0..n).map(|_| any()).collect();
    let c = channel(&times);
    holds(&c, &times);
    if times[0].is_nan() {
        reach("not a number");
    }
}
/// An edit through the mutable view shows in its own keyframe only.
#[no_mangle]
pub extern "C" fn h_c13_edit() {
    let n = 1 + choose(3);
    let times: Vec<f64> = (0..n).map(|_| any()).collect();
    let mut c = channel(&times);
    let before: Vec<(u32, u64)> = c.keyframes().iter().map(|k| (*k.value(), k.time().to_bits())).collect();
    let at = choose(n);
    let (v, t): (u32, f64) = (any(), any());
    {
        let k = c.keyframes_mut();
        check(k.len() == n, "the mutable view shows every keyframe");
        for i in 0..n {
            check((*k[i].value() == before[i].0) & (k[i].time().to_bits() == before[i].1), "the mutable view shows the same keyframes");
        }
        k[at] = Keyframe::new(v, t);
    }
    for (i, k) in c.keyframes().iter().enumerate() {
        if i == at {
            check((*k.value() == v) & (k.time().to_bits() == t.to_bits()), "an edit is kept");
        } else {
            check((*k.value() == before[i].0) & (k.time().to_bits() == before[i].1), "an edit leaves the others alone");
        }
    }
    reach("edited");
}
struct OfType;
impl ForType<()> for OfType {
    fn on<T: Ty>(self) {
        let (a, b, c) = (T::any(), T::any(), T::plain());
        let (ta, tb): (f64, f64) = (any(), any());
        assume((ta < tb) | (tb < ta));
        let ch = Channel::new(vec![Keyframe::new(a.clone(), ta), Keyframe::new(b.clone(), tb)].into_iter());
        let k = ch.keyframes();
        check(k.len() == 2, "as many keyframes as were given");
        let first = if ta < tb { (&a, ta) } else { (&b, tb) };
        let last = if ta < tb { (&b, tb) } else { (&a, ta) };
        check(k[0].time().to_bits() == first.1.to_bits() && k[0].value().same(first.0), "the earlier keyframe comes first, with its value");
        check(k[1].time().to_bits() == last.1.to_bits() && k[1].value().same(last.0), "the later keyframe comes last, with its value");
        let mut ch = ch;
        ch.keyframes_mut()[0] = Keyframe::new(c.clone(), 0.5);
        check(ch.keyframes()[0].value().same(&c), "an edit is kept");
        check(ch.keyframes()[1].value().same(last.0), "an edit leaves the others alone");
        if ta < tb {
            reach("in order");
        } else {
            reach("out of order");
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c13_types() {
    for_type(choose(NT), OfType)
}
/// The order survives storing the channel in an object.
#[no_mangle]
pub extern "C" fn h_c13_stored() {
    set_shape(0, vec![], vec![tp(2)]);
    let mut b = Baseline::new(BaselineKind::Fork);
    let c = register(&mut b, 0).unwrap();
    let times: Vec<f64> = (0..3).map(|_| any()).collect();
    for t in &times {
        assume(!t.is_nan());
    }
    let o = b.object_create(&K::<0>(c), [].into_iter(), [u32::make_dyn_chan(channel(&times))].into_iter()).ok().unwrap();
    let h = b.bind_channel(ChannelId::<u32>::new(0, c), o).ok().unwrap();
    let ch = b.channel(h).ok().unwrap();
    holds(ch, &times);
    ordered(ch);
    reach("stored");
}

// ---- C14 ----

macro_rules! jump {
    ($t:ty, $time:ty) => {{
        let (a, b) = (<$t as V>::plain(), <$t as V>::plain());
        let t: $time = any();
        assume(t >= 0.0);
        let r = JumpTweenable::ease(JumpTweenable(a.clone()), JumpTweenable(b.clone()), t).0;
        if t < 1.0 {
            reach("before the jump");
            check(r.same(&a), "before 1 the start value is kept");
        } else {
            reach("after the jump");
            check(r.same(&b), "from 1 on the target is reached");
        }
    }};
}
#[no_mangle]
pub extern "C" fn h_c14_jump() {
    match choose(12) {
        0 => jump!(u8, f64),
        1 => jump!(i64, f64),
        2 => jump!(f64, f64),
        3 => jump!(String, f64),
        4 => jump!(bool, f64),
        5 => jump!(Vec<u16>, f64),
        6 => jump!(u8, f32),
        7 => jump!(u64, f32),
        8 => jump!(f32, f32),
        9 => jump!(String, f32),
        10 => jump!(Vec<bool>, f32),
        _ => jump!(tp_client::object::ObjectHandle, f32),
    }
}
macro_rules! ends {
    ($t:ty, $time:ty) => {{
        let (a, b): ($t, $t) = (any(), any());
        let e = |t: $time| IntTweenable::ease(IntTweenable(a), IntTweenable(b), t).0;
        check(e(0.0) == a, "progress 0 is the start");
        check(e(1.0) == b, "progress 1 is the target");
        if a > b {
            reach("downwards");
        } else if a < b {
            reach("upwards");
        }
    }};
}
#[no_mangle]
pub extern "C" fn h_c14_ends() {
    match choose(16) {
        0 => ends!(u8, f64),
        1 => ends!(u16, f64),
        2 => ends!(u32, f64),
        3 => ends!(u64, f64),
        4 => ends!(i8, f64),
        5 => ends!(i16, f64),
        6 => ends!(i32, f64),
        7 => ends!(i64, f64),
        8 => ends!(u8, f32),
        9 => ends!(u16, f32),
        10 => ends!(u32, f32),
        11 => ends!(u64, f32),
        12 => ends!(i8, f32),
        13 => ends!(i16, f32),
        14 => ends!(i32, f32),
        _ => ends!(i64, f32),
    }
}
macro_rules! between {
    ($t:ty, $time:ty) => {{
        let (a, b): ($t, $t) = (any(), any());
        let t: $time = any();
        assume((t >= 0.0) & (t <= 1.0));
        let r = IntTweenable::ease(IntTweenable(a), IntTweenable(b), t).0;
        check(((a <= r) & (r <= b)) | ((b <= r) & (r <= a)), "a tween stays between start and target");
        if a > b {
            reach("downwards");
        } else if a < b {
            reach("upwards");
        }
    }};
}
#[no_mangle]
pub extern "C" fn h_c14_between8() {
    match choose(4) {
        0 => between!(u8, f64),
        1 => between!(i8, f64),
        2 => between!(u8, f32),
        _ => between!(i8, f32),
    }
}
#[no_mangle]
pub extern "C" fn h_c14_between() {
    match choose(6) {
        0 => between!(u16, f64),
        1 => between!(u32, f64),
        2 => between!(u64, f64),
        3 => between!(i16, f64),
        4 => between!(i32, f64),
        _ => between!(i64, f64),
    }
}
/// Later progress is never further back.
macro_rules! monotone_all {
    ($t:ty, $time:ty) => {{
        let (a, b): ($t, $t) = (any(), any());
        let (t1, t2): ($time, $time) = (any(), any());
        assume((t1 >= 0.0) & (t1 <= t2) & (t2 <= 1.0));
        let e = |t: $time| IntTweenable::ease(IntTweenable(a), IntTweenable(b), t).0;
        let (r1, r2) = (e(t1), e(t2));
        check(((a <= r1) & (r1 <= r2) & (r2 <= b)) | ((a >= r1) & (r1 >= r2) & (r2 >= b)), "a tween never moves back or leaves the interval");
        reach("compared");
    }};
}
#[no_mangle]
pub extern "C" fn h_c14_monotone_narrow() {
    match choose(8) {
        0 => monotone_all!(u8, f64),
        1 => monotone_all!(u16, f64),
        2 => monotone_all!(i8, f64),
        3 => monotone_all!(i16, f64),
        4 => monotone_all!(u8, f32),
        5 => monotone_all!(u16, f32),
        6 => monotone_all!(i8, f32),
        _ => monotone_all!(i16, f32),
    }
}
#[no_mangle]
pub extern "C" fn h_c14_monotone_32() {
    match choose(4) {
        0 => monotone_all!(u32, f64),
        1 => monotone_all!(i32, f64),
        2 => monotone_all!(u32, f32),
        _ => monotone_all!(i32, f32),
    }
}
#[no_mangle]
pub extern "C" fn h_c14_monotone_64() {
    match choose(2) {
        0 => monotone_all!(u64, f64),
        _ => monotone_all!(i64, f64),
    }
}
/// Progresses at which the product rounds, for every pair of ends: the encoding stays exact, with one factor known.
macro_rules! rounding {
    ($t:ty, $time:ty, $p:expr) => {{
        let (a, b): ($t, $t) = (any(), any());
        let r = IntTweenable::ease(IntTweenable(a), IntTweenable(b), $p as $time).0;
        check(((a <= r) & (r <= b)) | ((b <= r) & (r <= a)), "a tween stays within its interval");
        reach("compared");
    }};
}
const PROGRESS: [f64; 6] = [1.0 - f64::EPSILON / 2.0, 0.5, 0.75, 1.0 / 3.0, f64::EPSILON, 1.0 - 1.0 / 16777216.0];
#[no_mangle]
pub extern "C" fn h_c14_rounding() {
    let p = PROGRESS[choose(PROGRESS.len())];
    match choose(6) {
        0 => rounding!(u64, f64, p),
        1 => rounding!(i64, f64, p),
        2 => rounding!(i32, f64, p),
        3 => rounding!(u64, f32, p),
        4 => rounding!(i64, f32, p),
        _ => rounding!(u32, f32, p),
    }
}
// ---- C15 ----

fn clamp(v: i128) -> i128 {
    if v > i32::MAX as i128 {
        i32::MAX as i128
    } else if v < i32::MIN as i128 {
        i32::MIN as i128
    } else {
        v
    }
}
fn ticks(v: i32) -> Ticks {
    if flag() {
        Ticks::new(v)
    } else {
        Ticks::from(v)
    }
}
fn is(t: Ticks, v: i128) -> bool {
    (t.as_millis() as i128 == v) & (t.as_millis_i64() as i128 == v)
}
#[no_mangle]
pub extern "C" fn h_c15_add() {
    let (x, y): (i32, i32) = (any(), any());
    let (a, b) = (ticks(x), ticks(y));
    let want = clamp(x as i128 + y as i128);
    check(is(a + b, want), "a sum of ticks is clamped");
    let mut c = a;
    c += b;
    check(is(c, want), "in-place addition agrees");
    if x as i64 + y as i64 > i32::MAX as i64 {
        reach("above the range");
    }
    if (x as i64 + y as i64) < i32::MIN as i64 {
        reach("below the range");
    }
}
#[no_mangle]
pub extern "C" fn h_c15_sub() {
    let (x, y): (i32, i32) = (any(), any());
    let (a, b) = (ticks(x), ticks(y));
    let want = clamp(x as i128 - y as i128);
    check(is(a - b, want), "a difference of ticks is clamped");
    let mut c = a;
    c -= b;
    check(is(c, want), "in-place subtraction agrees");
    if x as i64 - y as i64 > i32::MAX as i64 {
        reach("above the range");
    }
    if (x as i64 - (y as i64)) < i32::MIN as i64 {
        reach("below the range");
    }
}
#[no_mangle]
pub extern "C" fn h_c15_scale() {
    let (x, y): (i32, i32) = (any(), any());
    let a = ticks(x);
    let s = TimeScale::from(y);
    check((s.numerator() == y) & (s.numerator_as_i64() == y as i64), "a scale keeps its numerator");
    check((TimeScale::denominator() as u32 == 1 << TimeScale::denominator_as_log2()) & (TimeScale::denominator() == 1024), "the declared denominator");
    // rounded down
    let p = x as i64 * y as i64;
    let want = clamp(p.div_euclid(1024) as i128);
    check(is(a * s, want), "scaled ticks are the product rounded down, clamped");
    let mut c = a;
    c *= s;
    check(is(c, want), "in-place scaling agrees");
    if want == i32::MAX as i128 {
        reach("above the range");
    }
    if want == i32::MIN as i128 {
        reach("below the range");
    }
    if (x == -1) & (y == 1) {
        reach("rounded down from a negative fraction");
    }
}
#[no_mangle]
pub extern "C" fn h_c15_unit() {
    let x: i32 = any();
    check(TimeScale::default().numerator() == TimeScale::denominator() as i32, "the default scale is one");
    check(is(ticks(x) * TimeScale::default(), x as i128), "the default scale changes nothing");
    check(is(Ticks::default(), 0), "default ticks are none");
    reach("unit");
}
#[no_mangle]
pub extern "C" fn h_c15_secs() {
    let x: i32 = any();
    let t = ticks(x);
    check(is(t, x as i128), "milliseconds are kept exactly");
    check(Ticks::ticks_per_second() == 1000, "a tick is a millisecond");
    let tps = Ticks::ticks_per_second();
    check(t.as_secs() == x / tps, "whole seconds are truncated");
    if x == -1 {
        reach("truncated from a negative");
    }
    let f = t.as_secs_f32();
    let want = x as f32 / tps as f32;
    let close = (f as f64 - x as f64 / 1000.0).abs() <= (x as f64 / 1000.0).abs() * 1e-6;
    check((f.to_bits() == want.to_bits()) || close, "seconds as a float");
}
#[no_mangle]
pub extern "C" fn h_c15_scale_float() {
    let y: i32 = any();
    let s = TimeScale::from(y);
    check(s.as_f64() * 1024.0 == y as f64, "a scale as a float is its exact value");
    let f = s.as_f32();
    let want = y as f32 / 1024.0;
    check((f.to_bits() == want.to_bits()) || (f as f64 * 1024.0 - y as f64).abs() <= (y as f64).abs() * 1e-6, "a scale as a short float");
    reach("converted");
}
/// Ordering and equality of ticks and times are those of the numbers.
#[no_mangle]
pub extern "C" fn h_c15_order() {
    let (x, y): (i32, i32) = (any(), any());
    let (a, b) = (ticks(x), ticks(y));
    check((a < b) == (x < y) && (a == b) == (x == y) && (a > b) == (x > y), "ticks are ordered like numbers");
    let (c, d) = (ChannelTime::from(a), ChannelTime::from(b));
    check((c < d) == (x < y) && (c == d) == (x == y), "channel times are ordered like numbers");
    let (e, f) = (RealmTime::from(a), RealmTime::from(b));
    check((e < f) == (x < y) && (e == f) == (x == y), "realm times are ordered like numbers");
    check(is(c.ticks(), x as i128) & is(e.ticks(), x as i128), "a time keeps its ticks");
    check((TimeScale::from(x) == TimeScale::from(y)) == (x == y), "scales are equal like numbers");
    reach("compared");
}

// ---- C16 ----

fn warp_oracle(p: i32, o: i32, s: i32) -> i128 {
    let d = clamp(p as i128 - o as i128) as i64;
    clamp((d * s as i64).div_euclid(1024) as i128)
}
#[no_mangle]
pub extern "C" fn h_c16_warp() {
    let (p, o, s): (i32, i32, i32) = (any(), any(), any());
    let w = if flag() {
        TimeWarp::from((Ticks::new(o), TimeScale::from(s)))
    } else {
        let mut w = TimeWarp::default();
        w.offset = Ticks::new(o);
        w.scale = TimeScale::from(s);
        w
    };
    let t = ChannelTime::from(Ticks::new(p));
    let (a, b) = (t.warp(&w), w.apply(t));
    let want = warp_oracle(p, o, s);
    check(is(a.ticks(), want), "a warped time is (parent - offset) x scale");
    check(is(b.ticks(), want), "both ways to warp agree");
    check(is(w.clone().apply(t).ticks(), want), "a copied warp is the same warp");
    if s < 0 {
        reach("negative scale");
    }
    if want == i32::MAX as i128 {
        reach("above the range");
    }
    if p as i64 - (o as i64) < i32::MIN as i64 {
        reach("difference below the range");
    }
}
/// New objects are not warped, whatever else their store did.
#[no_mangle]
pub extern "C" fn h_c16_identity() {
    set_shape(0, vec![tp(0)], vec![tp(4)]);
    let p: i32 = any();
    let t = ChannelTime::from(Ticks::new(p));
    check(is(TimeWarp::default().apply(t).ticks(), p as i128), "the default warp changes nothing");
    let mut b = Baseline::new(BaselineKind::Fork);
    let c = register(&mut b, 0).unwrap();
    let n = 1 + choose(2);
    let mut os = vec![];
    for _ in 0..n {
        os.push(create(&mut b, 0, c, &[Val::plain(0)], &[Val::plain(4)]).unwrap());
    }
    if flag() {
        // a warp set on a removed object does not come back with its slot
        let (x, y): (i32, i32) = (any(), any());
        b.object_mut(os[0]).unwrap().time_warp_mut().offset = Ticks::new(x);
        b.object_mut(os[0]).unwrap().time_warp_mut().scale = TimeScale::from(y);
        check(remove(&mut b, 0, os[0]), "a live object can be removed");
        os[0] = create(&mut b, 0, c, &[Val::plain(0)], &[Val::plain(4)]).unwrap();
        reach("slot reused");
    }
    for o in os {
        let w = b.object(o).unwrap().time_warp();
        check((w.offset.as_millis() == 0) & (w.scale.numerator() == 1024), "a new object has no offset and unit scale");
        check(is(t.warp(w).ticks(), p as i128), "an unwarped object runs in its parent's time");
    }
}
/// The warp set on an object is the one used, and no other object's.
#[no_mangle]
pub extern "C" fn h_c16_object() {
    set_shape(0, vec![], vec![]);
    let mut b = Baseline::new(BaselineKind::Fork);
    let c = register(&mut b, 0).unwrap();
    let o1 = create(&mut b, 0, c, &[], &[]).unwrap();
    let o2 = create(&mut b, 0, c, &[], &[]).unwrap();
    let (p, o, s): (i32, i32, i32) = (any(), any(), any());
    {
        let w = b.object_mut(o1).unwrap().time_warp_mut();
        w.offset = Ticks::new(o);
        w.scale = TimeScale::from(s);
    }
    let t = ChannelTime::from(Ticks::new(p));
    check(is(t.warp(b.object(o1).unwrap().time_warp()).ticks(), warp_oracle(p, o, s)), "an object's warp is the one set");
    check(is(t.warp(b.object(o2).unwrap().time_warp()).ticks(), p as i128), "other objects keep their time");
    reach("warped");
}
const SCALES: [i32; 8] = [0, 1, 2, 512, 1024, 2048, 0x10000, 0x4000_0000];
#[no_mangle]
pub extern "C" fn h_c16_monotone() {
    let (p1, p2, o): (i32, i32, i32) = (any(), any(), any());
    let s = SCALES[choose(SCALES.len())];
    assume(p1 <= p2);
    let w = TimeWarp::from((Ticks::new(o), TimeScale::from(s)));
    let a = ChannelTime::from(Ticks::new(p1)).warp(&w);
    let b = ChannelTime::from(Ticks::new(p2)).warp(&w);
    check(a <= b, "later parent times never give earlier channel times");
    reach("compared");
}
