//! What a store should contain, kept next to the real one.
use crate::types::*;
use symapi::*;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::ChannelId;
use tp_client::contract::properties::states::StateId;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use tp_client::time::{Ticks, TimeScale, TimeWarp};

pub type Slot = (usize, u64);
pub struct Obj {
    pub h: ObjectHandle,
    pub c: usize, // index into cons
    pub st: Vec<(Val, Slot)>,
    pub ch: Vec<(Val, Slot)>,
    pub warp: (i32, i32),
    pub live: bool,
}
pub struct Con {
    pub h: ContractDataHandle,
    pub k: usize,
    pub live: bool,
}
pub struct Model {
    pub shapes: Vec<(Vec<usize>, Vec<usize>)>,
    pub cons: Vec<Con>,
    pub objs: Vec<Obj>,
    /// How values are made.
    pub full: bool,
}
impl Model {
    pub fn new(shapes: &[(&[usize], &[usize])]) -> Model {
        let shapes: Vec<(Vec<usize>, Vec<usize>)> = shapes.iter().map(|(s, c)| (s.to_vec(), c.to_vec())).collect();
        for (k, (s, c)) in shapes.iter().enumerate() {
            set_shape(k, s.iter().map(|n| tp(*n)).collect(), c.iter().map(|n| tp(*n)).collect());
        }
        Model { shapes, cons: vec![], objs: vec![], full: false }
    }
    pub fn val(&self, n: usize) -> Val {
        if self.full {
            Val::any(n)
        } else {
            Val::plain(n)
        }
    }
    /// Contract kinds 0 and 3 share an identity.
    fn ident(k: usize) -> usize {
        k % 3
    }
    pub fn registered(&self, k: usize) -> bool {
        self.cons.iter().any(|c| c.live && Self::ident(c.k) == Self::ident(k))
    }
    pub fn live_objs(&self) -> usize {
        self.objs.iter().filter(|o| o.live).count()
    }

    pub fn register(&mut self, b: &mut Baseline, k: usize) {
        let was = self.registered(k);
        match register(b, k) {
            Some(h) => {
                check(!was, "an identity is registered at most once");
                for c in &self.cons {
                    check(raw(c.h) != raw(h), "a registration has a fresh handle");
                }
                self.cons.push(Con { h, k, live: true });
            }
            None => {
                check(was, "an unregistered identity can be registered");
                reach("refused registration");
            }
        }
    }
    pub fn unregister(&mut self, b: &mut Baseline, k: usize, c: usize) {
        let want = self.cons[c].live && Self::ident(self.cons[c].k) == Self::ident(k);
        let got = unregister(b, k, self.cons[c].h);
        check(got == want, "unregistering succeeds exactly for the right live handle");
        if want {
            self.cons[c].live = false;
            for o in self.objs.iter_mut() {
                if o.c == c {
                    if o.live {
                        reach("unregistered with objects");
                    }
                    o.live = false;
                }
            }
        } else {
            reach("refused unregistration");
        }
    }
    /// A creation with fields as contract kind `k` declares them, through handle number `c`.
    pub fn create(&mut self, b: &mut Baseline, k: usize, c: usize) {
        let st: Vec<Val> = self.shapes[k].0.clone().iter().map(|n| self.val(*n)).collect();
        let ch: Vec<Val> = self.shapes[k].1.clone().iter().map(|n| self.val(*n)).collect();
        let want = self.cons[c].live && Self::ident(self.cons[c].k) == Self::ident(k);
        match create(b, k, self.cons[c].h, &st, &ch) {
            Some(h) => {
                check(want, "an object is created only for a registered contract of its kind");
                for o in &self.objs {
                    check(raw(o.h) != raw(h), "a created object has a fresh handle");
                }
                let con = self.cons[c].h;
                let mut o = Obj { h, c, st: vec![], ch: vec![], warp: (0, 1024), live: true };
                for (i, v) in st.into_iter().enumerate() {
                    let s = v.state_slot(b, con, i, h);
                    check(s.is_some(), "every state field of a new object can be bound");
                    o.st.push((v, s.unwrap()));
                }
                for (i, v) in ch.into_iter().enumerate() {
                    let s = v.chan_slot(b, con, i, h);
                    check(s.is_some(), "every channel field of a new object can be bound");
                    o.ch.push((v, s.unwrap()));
                }
                self.objs.push(o);
            }
            None => {
                check(!want, "creation with matching fields succeeds");
                reach("refused creation");
            }
        }
    }
    pub fn remove(&mut self, b: &mut Baseline, k: usize, i: usize) {
        let c = &self.cons[self.objs[i].c];
        let want = self.objs[i].live && Self::ident(c.k) == Self::ident(k);
        let got = remove(b, k, self.objs[i].h);
        check(got == want, "removal succeeds exactly for a live object of the named contract");
        if want {
            self.objs[i].live = false;
        } else if self.objs[i].live {
            reach("removal as another contract");
        } else {
            reach("stale removal");
        }
    }
    pub fn write_state(&mut self, b: &mut Baseline, i: usize, f: usize) {
        let v = self.val(self.objs[i].st[f].0.n());
        let ok = v.write_state(b, self.objs[i].st[f].1);
        check(ok == self.objs[i].live, "a state can be written exactly while its object lives");
        if ok {
            self.objs[i].st[f].0 = v;
        }
    }
    pub fn write_chan(&mut self, b: &mut Baseline, i: usize, f: usize) {
        let v = self.val(self.objs[i].ch[f].0.n());
        let ok = v.write_chan(b, self.objs[i].ch[f].1);
        check(ok == self.objs[i].live, "a channel can be written exactly while its object lives");
        if ok {
            self.objs[i].ch[f].0 = v;
        }
    }
    pub fn warp(&mut self, b: &mut Baseline, i: usize) {
        let w: (i32, i32) = (any(), any());
        let h = self.objs[i].h;
        match b.object_mut(h) {
            Ok(o) => {
                check(self.objs[i].live, "a removed object cannot be edited");
                *o.time_warp_mut() = TimeWarp { offset: Ticks::new(w.0), scale: TimeScale::from(w.1) };
                self.objs[i].warp = w;
            }
            Err(_) => check(!self.objs[i].live, "a live object can be edited"),
        }
    }

    /// The store contains what the model says, as seen through every kind of query.
    pub fn verify(&self, b: &Baseline) {
        for (i, o) in self.objs.iter().enumerate() {
            let con = self.cons[o.c].h;
            match b.object(o.h) {
                Ok(x) => {
                    check(o.live, "a removed object does not resolve");
                    check(raw(x.contract()) == raw(con), "an object reports its contract");
                    let w = x.time_warp();
                    check((w.offset.as_millis() == o.warp.0) & (w.scale.numerator() == o.warp.1), "time warps stay as set");
                }
                Err(_) => check(!o.live, "a live object resolves"),
            }
            for (f, (v, s)) in o.st.iter().enumerate() {
                check(v.in_state(b, con, f, o.h) == o.live, "a live object's state field holds its value, a dead one's does not resolve");
                if o.live {
                    check(v.state_slot(b, con, f, o.h) == Some(*s), "a state field keeps its handle");
                } else {
                    check(v.state_slot(b, con, f, o.h).is_none(), "no state of a removed object can be bound");
                }
                check(v.at_state_slot(b, *s) == if o.live { Some(true) } else { None }, "a state handle reads its own value while live, nothing after");
            }
            for (f, (v, s)) in o.ch.iter().enumerate() {
                check(v.in_chan(b, con, f, o.h) == o.live, "a live object's channel field holds its value, a dead one's does not resolve");
                if o.live {
                    check(v.chan_slot(b, con, f, o.h) == Some(*s), "a channel field keeps its handle");
                } else {
                    check(v.chan_slot(b, con, f, o.h).is_none(), "no channel of a removed object can be bound");
                }
                check(v.at_chan_slot(b, *s) == if o.live { Some(true) } else { None }, "a channel handle reads its own value while live, nothing after");
            }
            if o.live {
                check(b.bind_state(StateId::<u8>::new(o.st.len(), con), o.h).is_err(), "no state beyond the last field");
                check(b.bind_channel(ChannelId::<u8>::new(o.ch.len(), con), o.h).is_err(), "no channel beyond the last field");
                for (j, c) in self.cons.iter().enumerate() {
                    if j != o.c {
                        check(b.bind_state(StateId::<u8>::new(0, c.h), o.h).is_err(), "another contract's state id is refused");
                        check(b.bind_channel(ChannelId::<u8>::new(0, c.h), o.h).is_err(), "another contract's channel id is refused");
                    }
                }
                for p in self.objs[..i].iter() {
                    if p.live {
                        for (v, s) in &o.st {
                            check(!p.st.iter().any(|(w, t)| w.n() == v.n() && s == t), "no two fields share a state");
                        }
                        for (v, s) in &o.ch {
                            check(!p.ch.iter().any(|(w, t)| w.n() == v.n() && s == t), "no two fields share a channel");
                        }
                    }
                }
            }
        }
        let mut n = 0;
        for (h, x) in b.iter_objects() {
            n += 1;
            let o = self.objs.iter().find(|o| raw(o.h) == raw(h));
            check(o.map_or(false, |o| o.live), "only live objects are listed");
            if let Some(o) = o {
                check(raw(x.contract()) == raw(self.cons[o.c].h), "a listed object is the one of its handle");
            }
        }
        check(n == self.live_objs(), "every live object is listed once");
        for (j, c) in self.cons.iter().enumerate() {
            match b.contract_data(c.h) {
                Ok(d) => {
                    check(c.live, "an unregistered contract does not resolve");
                    check(d.id() == IDS[c.k], "a contract keeps its identity");
                    let mine = self.objs.iter().filter(|o| o.live && o.c == j).count();
                    check(d.objects().len() == mine, "a contract lists exactly its live objects");
                    for o in self.objs.iter() {
                        check(d.objects().contains(&o.h) == (o.live && o.c == j), "a contract lists its own live objects");
                    }
                }
                Err(_) => check(!c.live, "a registered contract resolves"),
            }
        }
    }
}
