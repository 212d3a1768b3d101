//! S01, S02, S03, S04: every history of one MaskedStorage of every kind.
use goggles::join::IntoJoinExt;
use goggles::masked::MaskedStorage;
use goggles::storage::*;
use goggles::tracked::*;
use hibitset::BitSetLike;
use mcx::token::{self, Token};
use mcx::*;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Map,
    Drops,
    Slices,
    Tracking,
}
use Which::*;

/// One uniform face for every storage kind, over drop-tracked values.
trait St {
    fn insert(&mut self, i: u32, t: Token) -> Option<Token>;
    fn remove(&mut self, i: u32) -> Option<Token>;
    fn contains(&self, i: u32) -> bool;
    fn get(&self, i: u32) -> Option<i64>;
    /// through get_mut
    fn set(&mut self, i: u32, v: i64) -> Option<i64>;
    fn touch(&mut self, i: u32) -> bool;
    fn guard_read(&mut self, i: u32) -> Option<i64>;
    fn guard_set(&mut self, i: u32, v: i64) -> bool;
    fn goi(&mut self, i: u32, f: &mut dyn FnMut() -> Token, set: Option<i64>) -> i64;
    fn mask(&self) -> Vec<u32>;
    fn join_all(&self) -> Vec<i64>;
    fn join_mut(&mut self, f: &mut dyn FnMut(&mut Token));
    /// guards of every element: read each, write those the predicate selects
    fn join_guard(&mut self, f: &mut dyn FnMut(usize, i64) -> Option<i64>);
    fn slice(&self) -> Option<Vec<i64>>;
    fn slice_mut(&mut self, f: &mut dyn FnMut(usize, &mut Token)) -> bool;
    fn tracked(&self) -> bool;
    fn tracking(&self) -> bool;
    fn set_tracking(&mut self, b: bool);
    fn clear_modified(&mut self);
    fn mark(&self, i: u32);
    fn guard_mark(&mut self, i: u32) -> bool;
    fn modified(&self) -> Vec<u32>;
    fn modified_has(&self, i: u32) -> bool;
    fn modified_join(&self) -> Vec<Option<i64>>;
    fn modified_join_mut(&mut self, f: &mut dyn FnMut(Option<&mut Token>));
}

macro_rules! st {
    ($t:ty, { $($rest:tt)* }) => {
        impl St for MaskedStorage<$t> {
            fn insert(&mut self, i: u32, t: Token) -> Option<Token> { MaskedStorage::insert(self, i, t) }
            fn remove(&mut self, i: u32) -> Option<Token> { MaskedStorage::remove(self, i) }
            fn contains(&self, i: u32) -> bool { MaskedStorage::contains(self, i) }
            fn get(&self, i: u32) -> Option<i64> { MaskedStorage::get(self, i).map(|t| t.read()) }
            fn set(&mut self, i: u32, v: i64) -> Option<i64> {
                MaskedStorage::get_mut(self, i).map(|t| { let o = t.read(); t.set(v); o })
            }
            fn touch(&mut self, i: u32) -> bool { MaskedStorage::get_mut(self, i).is_some() }
            fn guard_read(&mut self, i: u32) -> Option<i64> { self.get_guard(i).map(|g| g.get().read()) }
            fn guard_set(&mut self, i: u32, v: i64) -> bool {
                self.get_guard(i).map(|mut g| g.get_mut().set(v)).is_some()
            }
            fn goi(&mut self, i: u32, f: &mut dyn FnMut() -> Token, set: Option<i64>) -> i64 {
                let t = self.get_or_insert_with(i, || f());
                let o = t.read();
                if let Some(v) = set { t.set(v) }
                o
            }
            fn mask(&self) -> Vec<u32> { MaskedStorage::mask(self).iter().collect() }
            fn join_all(&self) -> Vec<i64> { self.join().map(|t| t.read()).collect() }
            fn join_mut(&mut self, f: &mut dyn FnMut(&mut Token)) { for t in self.join() { f(t) } }
            fn join_guard(&mut self, f: &mut dyn FnMut(usize, i64) -> Option<i64>) {
                for (k, mut g) in self.guard().join().enumerate() {
                    if let Some(v) = f(k, g.get().read()) { g.get_mut().set(v) }
                }
            }
            $($rest)*
        }
    };
}
macro_rules! untracked {
    ($t:ty) => { st!($t, {
        fn slice(&self) -> Option<Vec<i64>> { None }
        fn slice_mut(&mut self, _: &mut dyn FnMut(usize, &mut Token)) -> bool { false }
        no_track!();
    }); };
}
macro_rules! no_track {
    () => {
        fn tracked(&self) -> bool { false }
        fn tracking(&self) -> bool { false }
        fn set_tracking(&mut self, _: bool) {}
        fn clear_modified(&mut self) {}
        fn mark(&self, _: u32) {}
        fn guard_mark(&mut self, _: u32) -> bool { false }
        fn modified(&self) -> Vec<u32> { vec![] }
        fn modified_has(&self, _: u32) -> bool { false }
        fn modified_join(&self) -> Vec<Option<i64>> { vec![] }
        fn modified_join_mut(&mut self, _: &mut dyn FnMut(Option<&mut Token>)) {}
    };
}
macro_rules! tracked {
    ($t:ty) => { st!($t, {
        fn slice(&self) -> Option<Vec<i64>> { None }
        fn slice_mut(&mut self, _: &mut dyn FnMut(usize, &mut Token)) -> bool { false }
        fn tracked(&self) -> bool { true }
        fn tracking(&self) -> bool { self.tracking_modified() }
        fn set_tracking(&mut self, b: bool) { self.set_track_modified(b) }
        fn clear_modified(&mut self) { MaskedStorage::clear_modified(self) }
        fn mark(&self, i: u32) { self.mark_modified(i) }
        fn guard_mark(&mut self, i: u32) -> bool { self.get_guard(i).map(|g| g.mark_modified()).is_some() }
        fn modified(&self) -> Vec<u32> { self.modified_indexes().iter().collect() }
        fn modified_has(&self, i: u32) -> bool { self.modified_indexes().contains(i) }
        fn modified_join(&self) -> Vec<Option<i64>> { MaskedStorage::modified(self).join().map(|o| o.map(|t| t.read())).collect() }
        fn modified_join_mut(&mut self, f: &mut dyn FnMut(Option<&mut Token>)) { for o in self.modified_mut().join() { f(o) } }
    }); };
}
untracked!(VecStorage<Token>);
untracked!(HashMapStorage<Token>);
st!(DenseVecStorage<Token>, {
    fn slice(&self) -> Option<Vec<i64>> { Some(self.as_slice().iter().map(|t| t.read()).collect()) }
    fn slice_mut(&mut self, f: &mut dyn FnMut(usize, &mut Token)) -> bool {
        for (k, t) in self.as_mut_slice().iter_mut().enumerate() { f(k, t) }
        true
    }
    no_track!();
});
tracked!(Flagged<VecStorage<Token>>);
tracked!(Flagged<DenseVecStorage<Token>>);
tracked!(Flagged<HashMapStorage<Token>>);

/// A user's storage, which holds its caller to the contract of `RawStorage`.
pub struct Custom<T>(BTreeMap<u32, UnsafeCell<T>>);
impl<T> Default for Custom<T> {
    fn default() -> Self {
        Custom(BTreeMap::new())
    }
}
unsafe impl<T: Sync> Sync for Custom<T> {}
thread_local! {
    static INSERT_PANICS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl<T: From<Token>> Custom<T> {
    fn cell(&self, i: u32, what: &str) -> *mut T {
        match self.0.get(&i) {
            Some(c) => c.get(),
            None => {
                token::complain(format!("RawStorage::{what}({i}) although nothing is stored there"));
                // something must be returned
                Box::leak(Box::new(T::from(Token::new(-1))))
            }
        }
    }
}
impl<T: From<Token>> RawStorage for Custom<T> {
    type Item = T;
    unsafe fn get(&self, i: u32) -> &T {
        &*self.cell(i, "get")
    }
    unsafe fn get_mut(&self, i: u32) -> &mut T {
        &mut *self.cell(i, "get_mut")
    }
    unsafe fn insert(&mut self, i: u32, t: T) {
        if INSERT_PANICS.get() {
            panic!("injected panic in RawStorage::insert");
        }
        if self.0.insert(i, UnsafeCell::new(t)).is_some() {
            token::complain(format!("RawStorage::insert({i}) over a stored value"));
        }
    }
    unsafe fn remove(&mut self, i: u32) -> T {
        match self.0.remove(&i) {
            Some(c) => c.into_inner(),
            None => {
                token::complain(format!("RawStorage::remove({i}) although nothing is stored there"));
                T::from(Token::new(-1))
            }
        }
    }
}
impl<T> Drop for Custom<T> {
    fn drop(&mut self) {
        if !self.0.is_empty() {
            token::complain(format!("a raw storage dropped while it holds values at {:?}", self.0.keys().collect::<Vec<_>>()));
        }
    }
}
untracked!(Custom<Token>);
tracked!(Flagged<Custom<Token>>);
pub const KINDS: [&str; 8] = ["VecStorage", "DenseVecStorage", "HashMapStorage", "Flagged<Vec>", "Flagged<DenseVec>", "Flagged<HashMap>", "a user's RawStorage", "Flagged<a user's RawStorage>"];
fn make(k: usize) -> Box<dyn St> {
    match k {
        0 => Box::<MaskedStorage<VecStorage<Token>>>::default(),
        1 => Box::<MaskedStorage<DenseVecStorage<Token>>>::default(),
        2 => Box::<MaskedStorage<HashMapStorage<Token>>>::default(),
        3 => Box::<MaskedStorage<Flagged<VecStorage<Token>>>>::default(),
        4 => Box::<MaskedStorage<Flagged<DenseVecStorage<Token>>>>::default(),
        5 => Box::<MaskedStorage<Flagged<HashMapStorage<Token>>>>::default(),
        6 => Box::<MaskedStorage<Custom<Token>>>::default(),
        _ => Box::<MaskedStorage<Flagged<Custom<Token>>>>::default(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Insert,
    Remove,
    Set,
    Touch,
    GetOrInsert,
    GetOrInsertSet,
    GuardRead,
    GuardSet,
    GuardMark,
    Mark,
    /// observations as operations of the history: they may not influence it
    Contains,
    Get,
    // not on one index
    JoinMut,
    JoinGuard,
    SliceMut,
    TrackOn,
    TrackOff,
    Clear,
    ModMut,
    JoinRead,
    SliceRead,
    ModRead,
}
use Op::*;
impl Op {
    fn indexed(self) -> bool {
        !matches!(self, JoinMut | JoinGuard | SliceMut | TrackOn | TrackOff | Clear | ModMut | JoinRead | SliceRead | ModRead)
    }
    fn needs_tracked(self) -> bool {
        matches!(self, GuardMark | Mark | TrackOn | TrackOff | Clear | ModMut | ModRead)
    }
}

struct M {
    which: Which,
    s: Box<dyn St>,
    map: BTreeMap<u32, i64>,
    modified: BTreeSet<u32>,
    tracking: bool,
    next: i64,
    /// indexes to look at besides the occupied ones
    look: Vec<u32>,
    kept: Vec<Token>,
    /// values that a second storage accounts for
    others: Vec<i64>,
}
impl M {
    fn new(which: Which, kind: usize, look: Vec<u32>) -> M {
        M { which, s: make(kind), map: Default::default(), modified: Default::default(), tracking: false, next: 100, look, kept: vec![], others: vec![] }
    }
    fn val(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    fn mark(&mut self, i: u32) {
        if self.tracking {
            self.modified.insert(i);
        }
    }
    fn op(&mut self, op: Op, i: u32) -> Res {
        step();
        let v = self.val();
        note(|| if op.indexed() { format!("{op:?} {i} (value {v})") } else { format!("{op:?}") });
        let present = self.map.contains_key(&i);
        match op {
            Insert => {
                let old = self.s.insert(i, Token::new(v));
                ensure_eq!(old.as_ref().map(|t| t.read()), self.map.insert(i, v), "insert({i}) returned");
                self.mark(i);
            }
            Remove => {
                let old = self.s.remove(i);
                ensure_eq!(old.as_ref().map(|t| t.read()), self.map.remove(&i), "remove({i}) returned");
                if old.is_some() {
                    self.mark(i);
                }
                // a removed value stays with the caller
                self.kept.extend(old);
            }
            Set => {
                let old = self.s.set(i, v);
                ensure_eq!(old, self.map.get(&i).copied(), "get_mut({i})");
                if present {
                    self.map.insert(i, v);
                    self.mark(i);
                }
            }
            Touch => {
                ensure_eq!(self.s.touch(i), present, "get_mut({i}).is_some()");
                if present {
                    self.mark(i);
                }
            }
            GetOrInsert | GetOrInsertSet => {
                let w = v + 1_000_000;
                let mut called = 0;
                let got = self.s.goi(
                    i,
                    &mut || {
                        called += 1;
                        Token::new(v)
                    },
                    (op == GetOrInsertSet).then_some(w),
                );
                ensure_eq!(called, !present as i32, "initialiser calls");
                let e = self.map.entry(i).or_insert(v);
                ensure_eq!(got, *e, "get_or_insert_with({i})");
                if op == GetOrInsertSet {
                    *e = w;
                }
                self.mark(i);
            }
            Contains => ensure_eq!(self.s.contains(i), present, "contains({i})"),
            Get => ensure_eq!(self.s.get(i), self.map.get(&i).copied(), "get({i})"),
            JoinRead => ensure_eq!(self.s.join_all(), self.map.values().copied().collect::<Vec<_>>(), "shared join"),
            SliceRead => {
                let (mut sl, mut v) = (self.s.slice().unwrap_or_default(), self.map.values().copied().collect::<Vec<_>>());
                sl.sort();
                v.sort();
                ensure_eq!(sl, v, "contents of the slice (sorted)");
            }
            ModRead => {
                ensure_eq!(self.s.modified(), self.modified.iter().copied().collect::<Vec<_>>(), "modified indexes");
                let exp: Vec<Option<i64>> = self.modified.iter().map(|i| self.map.get(i).copied()).collect();
                ensure_eq!(self.s.modified_join(), exp, "modified()");
            }
            GuardRead => {
                ensure_eq!(self.s.guard_read(i), self.map.get(&i).copied(), "guard({i}).get()");
            }
            GuardSet => {
                ensure_eq!(self.s.guard_set(i, v), present, "get_guard({i}).is_some()");
                if present {
                    self.map.insert(i, v);
                    self.mark(i);
                }
            }
            GuardMark => {
                ensure_eq!(self.s.guard_mark(i), present, "get_guard({i}).is_some()");
                if present {
                    self.modified.insert(i);
                }
            }
            Mark => {
                self.s.mark(i);
                self.modified.insert(i);
            }
            JoinMut => {
                let mut seen = vec![];
                let mut n = v;
                self.next += 100_000;
                self.s.join_mut(&mut |t| {
                    seen.push(t.read());
                    t.set(n);
                    n += 1;
                });
                let exp: Vec<i64> = self.map.values().copied().collect();
                ensure_eq!(seen, exp, "mutable join");
                for (k, x) in self.map.values_mut().enumerate() {
                    *x = v + k as i64;
                }
                for i in self.map.keys().copied().collect::<Vec<_>>() {
                    self.mark(i);
                }
            }
            JoinGuard => {
                let mut seen = vec![];
                self.s.join_guard(&mut |k, x| {
                    seen.push(x);
                    (k % 2 == 1).then_some(v)
                });
                let exp: Vec<i64> = self.map.values().copied().collect();
                ensure_eq!(seen, exp, "guarded join");
                for (k, i) in self.map.keys().copied().collect::<Vec<_>>().into_iter().enumerate() {
                    if k % 2 == 1 {
                        self.map.insert(i, v);
                        self.mark(i);
                    }
                }
            }
            SliceMut => {
                let mut m: BTreeMap<i64, i64> = BTreeMap::new();
                let mut n = v;
                self.next += 100_000;
                self.s.slice_mut(&mut |_, t| {
                    m.insert(t.read(), n);
                    t.set(n);
                    n += 1;
                });
                // every stored value is distinct: the slice tells where each went
                for x in self.map.values_mut() {
                    match m.remove(x) {
                        Some(n) => *x = n,
                        None => return Err(format!("value {x} is stored but not in the slice")),
                    }
                }
                ensure!(m.is_empty(), "the slice holds {m:?}, which is not stored");
            }
            TrackOn | TrackOff => {
                self.tracking = op == TrackOn;
                self.s.set_tracking(self.tracking);
            }
            Clear => {
                self.s.clear_modified();
                self.modified.clear();
            }
            ModMut => {
                let mut seen = vec![];
                let mut n = v;
                self.next += 100_000;
                self.s.modified_join_mut(&mut |o| {
                    seen.push(o.as_ref().map(|t| t.read()));
                    if let Some(t) = o {
                        t.set(n);
                    }
                    n += 1;
                });
                let exp: Vec<Option<i64>> = self.modified.iter().map(|i| self.map.get(i).copied()).collect();
                ensure_eq!(seen, exp, "modified_mut");
                for (k, i) in self.modified.clone().into_iter().enumerate() {
                    if let Some(x) = self.map.get_mut(&i) {
                        *x = v + k as i64;
                    }
                }
            }
        }
        Ok(())
    }
    fn check_modified(&self) -> Res {
        ensure_eq!(self.s.tracking(), self.tracking, "tracking_modified()");
        let exp: Vec<u32> = self.modified.iter().copied().collect();
        ensure_eq!(self.s.modified(), exp, "modified indexes");
        for &i in &self.look {
            ensure_eq!(self.s.modified_has(i), self.modified.contains(&i), "modified_indexes().contains({i})");
        }
        Ok(())
    }
    fn check(&mut self) -> Res {
        if !fresh() {
            return Ok(());
        }
        if self.which == Tracking {
            self.check_modified()?;
        }
        let keys: Vec<u32> = self.map.keys().copied().collect();
        let vals: Vec<i64> = self.map.values().copied().collect();
        ensure_eq!(self.s.mask(), keys, "occupied indexes");
        for i in self.look.iter().chain(keys.iter()).copied() {
            ensure_eq!(self.s.contains(i), self.map.contains_key(&i), "contains({i})");
            ensure_eq!(self.s.get(i), self.map.get(&i).copied(), "get({i})");
        }
        ensure_eq!(self.s.join_all(), vals, "shared join");
        if let Some(mut sl) = self.s.slice() {
            sl.sort();
            let mut v = vals.clone();
            v.sort();
            ensure_eq!(sl, v, "contents of the slice (sorted)");
        }
        if self.which == Tracking {
            let exp: Vec<Option<i64>> = self.modified.iter().map(|i| self.map.get(i).copied()).collect();
            ensure_eq!(self.s.modified_join(), exp, "modified()");
            for &i in &self.look {
                self.s.guard_read(i);
            }
            self.s.join_guard(&mut |_, _| None);
            self.check_modified().map_err(|m| format!("after reading only: {m}"))?;
        }
        self.accounts()?;
        if keys.len() > 1000 {
            state(fp(&(&keys, &self.modified, self.tracking)));
            return Ok(());
        }
        state(fp(&(&keys, &self.modified, self.tracking, self.s.slice().map(|s| s.iter().map(|x| vals.iter().position(|v| v == x)).collect::<Vec<_>>()))));
        Ok(())
    }
    /// Every value is stored, or with the caller, or dropped.
    fn accounts(&self) -> Res {
        if let Some(e) = token::error() {
            return Err(e);
        }
        let mut exp: Vec<i64> = self.map.values().copied().chain(self.kept.iter().map(|t| t.val)).chain(self.others.iter().copied()).collect();
        exp.sort();
        let mut got = token::live_vals();
        got.sort();
        ensure_eq!(got, exp, "values that are neither dropped nor lost");
        Ok(())
    }
    fn end(self) -> Res {
        self.end_by(false)
    }
    /// The storage goes away, normally or while unwinding from somebody else's panic.
    fn end_by(self, unwinding: bool) -> Res {
        let M { s, kept, map, others, .. } = self;
        outcome(fp(&(map, kept.len())));
        if unwinding {
            note(|| "drop the storage while unwinding from an unrelated panic".into());
            mcx::drop_unwinding(s);
        } else {
            drop(s);
        }
        if let Some(e) = token::error() {
            return Err(e);
        }
        ensure_eq!(token::live(), kept.len() + others.len(), "values left when the storage was dropped");
        drop(kept);
        ensure_eq!(token::live(), others.len(), "values left at the end");
        match token::error() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}

fn prefill(m: &mut M, n: u32, holes: bool) -> Res {
    for i in 0..n {
        let v = m.val();
        m.s.insert(i, Token::new(v));
        m.map.insert(i, v);
    }
    if holes {
        for i in [0, 63, n / 2] {
            if let Some(t) = m.s.remove(i) {
                ensure_eq!(t.read(), m.map[&i], "remove({i})");
                m.map.remove(&i);
            }
        }
    }
    Ok(())
}

struct Space {
    label: &'static str,
    kinds: &'static [usize],
    ops: &'static [Op],
    idx: &'static [u32],
    look: &'static [u32],
    depth: usize,
    fill: &'static [(u32, bool)],
    track: bool,
}
fn space(c: &mut Ctx, which: Which, sp: Space) {
    let rule = format!(
        "kinds {:?}, every sequence of {} operations of {:?} on indexes {:?}, prefill {:?}; full comparison with a map after every operation",
        sp.kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>(), sp.depth, sp.ops, sp.idx, sp.fill
    );
    let sp = &sp;
    c.explore(sp.label, &rule, move || {
        let kind = sp.kinds[choose(sp.kinds.len())];
        let (n, holes) = sp.fill[choose(sp.fill.len())];
        note(|| format!("{} prefilled with {n}{}", KINDS[kind], if holes { " then holes" } else { "" }));
        let mut m = M::new(which, kind, sp.idx.iter().chain(sp.look).copied().collect());
        prefill(&mut m, n, holes)?;
        if sp.track && m.s.tracked() {
            m.s.set_tracking(true);
            m.tracking = true;
        }
        let (tr, de) = (m.s.tracked(), m.s.slice().is_some());
        let mut menu: Vec<(Op, u32)> = vec![];
        for &o in sp.ops {
            if (o.needs_tracked() && !tr) || (matches!(o, SliceMut | SliceRead) && !de) {
                continue;
            }
            if o.indexed() {
                menu.extend(sp.idx.iter().map(|&i| (o, i)));
            } else {
                menu.push((o, sp.idx[0]));
            }
        }
        m.check()?;
        for _ in 0..sp.depth {
            let (o, i) = *pick(&menu);
            m.op(o, i)?;
            m.check()?;
        }
        m.end()
    });
}

/// Two storages used in turns: neither may know of the other.
fn twins(c: &mut Ctx, which: Which, sp: Space) {
    let looks = sp.label.contains("looks");
    let rule = format!(
        "two storages side by side, both of the same kind or of neighbouring kinds of {:?}, each prefilled with any of {:?}, every sequence of {} operations of {:?} on indexes {:?} of either; {}",
        sp.kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>(), sp.fill, sp.depth, sp.ops, sp.idx,
        if looks { "comparison with two maps at the end" } else { "full comparison with two maps after every operation" }
    );
    let sp = &sp;
    c.explore(sp.label, &rule, move || {
        let k = choose(sp.kinds.len());
        let kinds = [sp.kinds[k], sp.kinds[(k + choose(2)) % sp.kinds.len()]];
        let mut ms: Vec<M> = vec![];
        let mut menu: Vec<(usize, Op, u32)> = vec![];
        for (t, &kind) in kinds.iter().enumerate() {
            let (n, holes) = sp.fill[choose(sp.fill.len())];
            note(|| format!("{}: {} prefilled with {n}{}", ["first", "second"][t], KINDS[kind], if holes { " then holes" } else { "" }));
            let mut m = M::new(which, kind, sp.idx.iter().chain(sp.look).copied().collect());
            m.next += 1_000_000 * t as i64;
            prefill(&mut m, n, holes)?;
            if sp.track && m.s.tracked() {
                m.s.set_tracking(true);
                m.tracking = true;
            }
            let (tr, de) = (m.s.tracked(), m.s.slice().is_some());
            for &o in sp.ops {
                if (o.needs_tracked() && !tr) || (matches!(o, SliceMut | SliceRead) && !de) {
                    continue;
                }
                if o.indexed() {
                    menu.extend(sp.idx.iter().map(|&i| (t, o, i)));
                } else {
                    menu.push((t, o, sp.idx[0]));
                }
            }
            ms.push(m);
        }
        let check = |ms: &mut Vec<M>| -> Res {
            for t in [0, 1] {
                let o: Vec<i64> = ms[1 - t].map.values().copied().chain(ms[1 - t].kept.iter().map(|x| x.val)).collect();
                ms[t].others = o;
                ms[t].check()?;
            }
            Ok(())
        };
        for _ in 0..sp.depth {
            let (t, o, i) = *pick(&menu);
            note(|| format!("{}:", ["first", "second"][t]));
            ms[t].op(o, i)?;
            if !looks {
                check(&mut ms)?;
            }
        }
        check(&mut ms)?;
        let mut second = ms.pop().unwrap();
        let first = ms.pop().unwrap();
        first.end()?;
        second.others.clear();
        second.check()?;
        second.end()
    });
}

const ALLK: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];
const TRK: &[usize] = &[3, 4, 5, 7];
const NOFILL: &[(u32, bool)] = &[(0, false)];
const LOOK: &[u32] = &[0, 1, 2, 3, 62, 63, 64, 65, 4094, 4095, 4096, 4097, 262143, 262144, (1 << 24) - 1];
const TOP: u32 = (1 << 24) - 1;

pub fn run(c: &mut Ctx, which: Which) {
    let t = c.thorough as usize;
    match which {
        Map => {
            space(c, which, Space { label: "all ops", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsert, GetOrInsertSet, GuardRead, GuardSet, JoinMut, JoinGuard, SliceMut], idx: &[0, 1, 2], look: &[3, 4, 63, 64, TOP], depth: 4 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "deep", kinds: &[0, 1, 2], ops: &[Insert, Remove], idx: &[0, 1, 2, 3], look: &[4, 64], depth: 6 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "spread", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsertSet], idx: &[0, 63, 64, 65, 4095, 4096], look: LOOK, depth: 3 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "prefilled", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsert], idx: &[0, 63, 64, 65], look: LOOK, depth: 2 + t, fill: &[(64, false), (65, true), (130, true)], track: false });
            space(c, which, Space { label: "far", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsert], idx: &[5, 262143, 262144], look: LOOK, depth: 2 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "top", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsert], idx: &[0, TOP], look: LOOK, depth: 2 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "many", kinds: ALLK, ops: &[Insert, Remove], idx: &[0, 255, 65535, 65536, 65537], look: LOOK, depth: 2, fill: &[(257, false), (65537, true)], track: false });
            bits(c, which, ALLK, &[Insert, Remove, Set, GetOrInsertSet, JoinMut], 1 + t);
            space(c, which, Space { label: "looks", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert, Contains, Get, GuardRead, JoinRead], idx: &[0, 1], look: &[2], depth: 4 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "looks, deep", kinds: &[0, 1, 2], ops: &[Insert, Remove, GetOrInsert, Contains, Get], idx: &[0, 64], look: &[1], depth: 5 + t, fill: NOFILL, track: false });
            beyond(c);
        }
        Slices => {
            let k: &[usize] = &[1];
            space(c, which, Space { label: "slices", kinds: k, ops: &[Insert, Remove, Set, GetOrInsertSet, SliceMut, JoinMut], idx: &[0, 1, 2, 3], look: &[4], depth: 5 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "deep", kinds: k, ops: &[Insert, Remove, SliceMut], idx: &[0, 1, 2, 3], look: &[4], depth: 7 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "spread", kinds: k, ops: &[Insert, Remove, SliceMut], idx: &[0, 63, 64, 4095, 4096, 262144], look: LOOK, depth: 5 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "prefilled", kinds: k, ops: &[Insert, Remove, SliceMut], idx: &[0, 63, 64, 65], look: LOOK, depth: 4 + t, fill: &[(64, false), (65, true), (130, true)], track: false });
            bits(c, which, k, &[Insert, Remove, Set, SliceMut], 2 + t);
            space(c, which, Space { label: "looks", kinds: k, ops: &[Insert, Remove, SliceMut, SliceRead, Get, JoinRead], idx: &[0, 1, 64], look: &[2], depth: 5 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "many", kinds: k, ops: &[Insert, Remove, SliceMut], idx: &[0, 255, 256, 65535, 65536, 65537], look: LOOK, depth: 2, fill: &[(257, false), (65537, true)], track: false });
        }
        Tracking => {
            let all: &[Op] = &[Insert, Remove, Set, Touch, GetOrInsert, GuardRead, GuardSet, GuardMark, Mark, JoinMut, JoinGuard, TrackOn, TrackOff, Clear, ModMut];
            space(c, which, Space { label: "untracked start", kinds: TRK, ops: all, idx: &[0, 1], look: &[2, 63, 64, TOP], depth: 4 + t, fill: &[(0, false), (2, false)], track: false });
            space(c, which, Space { label: "tracked start", kinds: TRK, ops: all, idx: &[0, 1], look: &[2, 63, 64, TOP], depth: 4 + t, fill: &[(0, false), (2, false)], track: true });
            space(c, which, Space { label: "core", kinds: &[3, 4], ops: &[Insert, Remove, Set, Mark, TrackOff, TrackOn, Clear, ModMut], idx: &[0, 64], look: &[1, 2, 63], depth: 5 + t, fill: &[(2, false)], track: true });
            space(c, which, Space { label: "spread", kinds: TRK, ops: &[Insert, Remove, Set, GuardSet, Mark, Clear, ModMut, JoinMut], idx: &[0, 63, 64, 4095, 4096, 262144], look: LOOK, depth: 3 + t, fill: &[(0, false), (130, true)], track: true });
            space(c, which, Space { label: "top", kinds: TRK, ops: &[Insert, Remove, Set, Mark, Clear, ModMut], idx: &[0, TOP], look: LOOK, depth: 3 + t, fill: NOFILL, track: true });
            bits(c, which, TRK, all, 2);
            space(c, which, Space { label: "looks", kinds: &[3, 4, 5], ops: &[Insert, Remove, Set, Mark, Clear, ModMut, Contains, Get, ModRead, TrackOff, TrackOn], idx: &[0, 1], look: &[2], depth: 4 + t, fill: &[(0, false), (2, false)], track: true });
            space(c, which, Space { label: "many", kinds: &[3, 4, 5], ops: &[Insert, Remove, Set, JoinMut, Clear, ModMut], idx: &[0, 65535, 65537], look: LOOK, depth: 2, fill: &[(65537, true)], track: true });
        }
        Drops => {
            space(c, which, Space { label: "ops", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert, SliceMut, JoinMut], idx: &[0, 1, 2], look: &[], depth: 4 + t, fill: NOFILL, track: true });
            space(c, which, Space { label: "spread", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert], idx: &[0, 63, 64, 4095, 4096], look: &[], depth: 3 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "looks", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert, Contains, Get, JoinRead], idx: &[0, 1], look: &[], depth: 4 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "prefilled", kinds: ALLK, ops: &[Insert, Remove], idx: &[0, 63, 64, 65], look: LOOK, depth: 2 + t, fill: &[(64, false), (65, true), (130, true), (4097, false)], track: false });
            space(c, which, Space { label: "many", kinds: ALLK, ops: &[Insert, Remove], idx: &[0, 65535, 65537], look: LOOK, depth: 2, fill: &[(65537, true)], track: false });
            faults(c);
        }
    }
    const TWO: &[(u32, bool)] = &[(0, false), (2, false)];
    match which {
        Map => {
            twins(c, which, Space { label: "two side by side", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsert, JoinMut], idx: &[0, 1], look: &[2, 64], depth: 3 + t, fill: TWO, track: false });
            twins(c, which, Space { label: "two side by side, looks", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert, Contains, Get, GuardRead, JoinRead], idx: &[0, 1], look: &[2], depth: 3 + t, fill: TWO, track: false });
        }
        Slices => {
            twins(c, which, Space { label: "two side by side", kinds: &[1], ops: &[Insert, Remove, Set, SliceMut, JoinMut], idx: &[0, 1], look: &[2, 64], depth: 4 + t, fill: TWO, track: false });
            twins(c, which, Space { label: "two side by side, looks", kinds: &[1], ops: &[Insert, Remove, SliceMut, SliceRead, Get], idx: &[0, 1], look: &[2], depth: 4 + t, fill: TWO, track: false });
        }
        Tracking => {
            twins(c, which, Space { label: "two side by side", kinds: TRK, ops: &[Insert, Remove, Set, Mark, Clear, TrackOff, TrackOn], idx: &[0, 1], look: &[2, 64], depth: 3 + t, fill: TWO, track: true });
            twins(c, which, Space { label: "two side by side, looks", kinds: TRK, ops: &[Insert, Remove, Set, Mark, Clear, Get, ModRead, ModMut], idx: &[0, 1], look: &[2], depth: 3 + t, fill: TWO, track: true });
        }
        Drops => {
            twins(c, which, Space { label: "two side by side", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert], idx: &[0, 1], look: &[], depth: 3 + t, fill: TWO, track: true });
        }
    }
    c.watched(|c| match which {
        Map => {
            space(c, which, Space { label: "all ops", kinds: ALLK, ops: &[Insert, Remove, Set, GetOrInsert, GuardSet, JoinMut, SliceMut], idx: &[0, 1], look: &[2, 64], depth: 4 + t, fill: NOFILL, track: false });
            space(c, which, Space { label: "spread", kinds: ALLK, ops: &[Insert, Remove, Set], idx: &[0, 64, 4096], look: LOOK, depth: 4 + t, fill: NOFILL, track: false });
        }
        Slices => {
            space(c, which, Space { label: "slices", kinds: &[1], ops: &[Insert, Remove, Set, SliceMut, JoinMut], idx: &[0, 1, 2], look: &[3], depth: 5 + t, fill: NOFILL, track: false });
        }
        Tracking => {
            space(c, which, Space { label: "tracked start", kinds: TRK, ops: &[Insert, Remove, Set, Touch, GuardMark, Mark, JoinMut, TrackOn, TrackOff, Clear, ModMut], idx: &[0, 1], look: &[2, 63, 64], depth: 4 + t, fill: &[(0, false), (2, false)], track: true });
        }
        Drops => {
            space(c, which, Space { label: "ops", kinds: ALLK, ops: &[Insert, Remove, GetOrInsert], idx: &[0, 1], look: &[], depth: 4 + t, fill: NOFILL, track: true });
        }
    });
    crate::plain::run(c, which);
}

/// Two indexes which differ in one bit: no bit of an index may be left out anywhere.
fn bits(c: &mut Ctx, which: Which, kinds: &'static [usize], ops: &'static [Op], depth: usize) {
    c.explore(
        "one bit apart",
        &format!("kinds {:?}, values at 0 and 2^k, or at 2^24-1 and 2^24-1-2^k, for every k below 24, inserted in either order, then every sequence of {depth} operations of {ops:?} on the two indexes", kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()),
        || {
            let kind = *pick(kinds);
            let (k, base, flip) = (choose(24), *pick(&[0, TOP]), choose(2) == 1);
            let two = [base, base ^ (1 << k)];
            let mut m = M::new(which, kind, LOOK.iter().chain(&two).copied().collect());
            note(|| format!("{} with values at {two:?}", KINDS[kind]));
            for i in 0..2 {
                m.op(Insert, two[i ^ flip as usize])?;
            }
            if m.s.tracked() && matches!(which, Tracking) {
                m.s.set_tracking(true);
                m.tracking = true;
            }
            let (tr, de) = (m.s.tracked(), m.s.slice().is_some());
            let mut menu: Vec<(Op, u32)> = vec![];
            for &o in ops {
                if (o.needs_tracked() && !tr) || (matches!(o, SliceMut | SliceRead) && !de) {
                    continue;
                }
                menu.extend(two[..1 + o.indexed() as usize].iter().map(|i| (o, *i)));
            }
            m.check()?;
            for _ in 0..depth {
                let (o, i) = *pick(&menu);
                m.op(o, i)?;
                m.check()?;
            }
            m.end()
        },
    );
}

/// Indexes past the capacity are refused, and nothing changes.
fn beyond(c: &mut Ctx) {
    c.explore("beyond", "every kind, storage empty / with {0} / with {0, 2^24-1}: insert and get-or-insert at 2^24, +1, +63, +64, 2^25, 2^32-1 panic without effect, the other accesses find nothing", || {
        let kind = choose(8);
        let n = choose(3);
        let mut m = M::new(Map, kind, LOOK.to_vec());
        for i in [0, TOP].iter().take(n) {
            m.op(Insert, *i)?;
        }
        let i = *pick(&[1u32 << 24, (1 << 24) + 1, (1 << 24) + 63, (1 << 24) + 64, 1 << 25, u32::MAX]);
        let how = choose(2);
        note(|| format!("{} with {n} values, {} at {i}", KINDS[kind], ["insert", "get_or_insert_with"][how]));
        step();
        let r = match how {
            0 => catch(|| drop(m.s.insert(i, Token::new(1)))),
            _ => catch(|| drop(m.s.goi(i, &mut || Token::new(1), None))),
        };
        ensure!(r.is_err(), "index {i} beyond the capacity was accepted");
        m.look.push(i);
        m.check()?;
        ensure!(m.s.remove(i).is_none() && m.s.set(i, 1).is_none() && m.s.guard_read(i).is_none(), "something found at {i}");
        m.check()?;
        m.op(Remove, 0)?;
        m.check()?;
        m.op(Insert, 0)?;
        m.check()?;
        m.end()
    });
}

/// A user callback panics: the initialiser, or the k-th destructor, at every position.
fn faults(c: &mut Ctx) {
    let d = c.q(3, 4);
    c.explore(
        "faults",
        &format!("every kind, every sequence of up to {d} operations (insert, remove, get-or-insert on 3 indexes, or prefilled), then a panic injected into every callback position of: get-or-insert's initialiser, dropping the storage with every k-th destructor, replacing or removing a value whose destructor panics, a user's RawStorage panicking when asked to insert; or the storage dropped while unwinding from an unrelated panic; afterwards every value was dropped exactly once or is still stored"),
        move || {
            let kind = choose(8);
            let mut m = M::new(Drops, kind, vec![0, 1, 64]);
            let idx = [0u32, 1, 64];
            let n = choose(d + 1);
            for _ in 0..n {
                let o = *pick(&[Insert, Remove, GetOrInsert]);
                let i = *pick(&idx);
                m.op(o, i)?;
            }
            m.check()?;
            m.kept.clear();
            let what = choose(if kind >= 6 { 5 } else { 4 });
            if what == 3 {
                step();
                return m.end_by(true);
            }
            let i = *pick(&idx);
            step();
            match what {
                0 => {
                    let absent = !m.map.contains_key(&i);
                    let r = catch(|| {
                        m.s.goi(i, &mut || panic!("injected panic in the initialiser"), None);
                    });
                    note(|| format!("get_or_insert_with({i}) with a panicking initialiser -> {r:?}"));
                    ensure_eq!(r.is_err(), absent, "initialiser ran");
                    m.check()?;
                    // and the index is usable afterwards
                    m.op(GetOrInsert, i)?;
                    m.check()?;
                }
                1 => {
                    // the replaced or removed value is returned, so its destructor runs here
                    let v = m.val();
                    let replace = choose(2) == 0;
                    token::set_fuse(Some(0));
                    let r = catch(|| {
                        let old = if replace { m.s.insert(i, Token::new(v)) } else { m.s.remove(i) };
                        old.is_some()
                    });
                    token::set_fuse(None);
                    note(|| format!("{} {i}, destructor of the old value panics -> {r:?}", if replace { "insert" } else { "remove" }));
                    ensure_eq!(r.is_err(), m.map.contains_key(&i), "a value was returned");
                    if replace {
                        m.map.insert(i, v);
                    } else {
                        m.map.remove(&i);
                    }
                    m.check()?;
                }
                4 => {
                    let absent = !m.map.contains_key(&i);
                    let v = m.val();
                    let goi = choose(2) == 0;
                    INSERT_PANICS.set(true);
                    let r = catch(|| {
                        if goi {
                            m.s.goi(i, &mut || Token::new(v), None);
                        } else {
                            drop(m.s.insert(i, Token::new(v)));
                        }
                    });
                    INSERT_PANICS.set(false);
                    note(|| format!("{}({i}) with a raw storage panicking on insertion -> {r:?}", if goi { "get_or_insert_with" } else { "insert" }));
                    ensure_eq!(r.is_err(), absent, "the raw storage was asked to insert");
                    if !absent && !goi {
                        m.map.insert(i, v);
                    }
                    // the mark of an insertion that failed may or may not be there
                    m.check()?;
                    m.op(Insert, i)?;
                    m.check()?;
                }
                _ => {
                    let k = choose(m.map.len().max(1)) as u32;
                    let exp = m.map.len();
                    note(|| format!("drop the storage, destructor {k} of {exp} panics"));
                    token::set_fuse(Some(k));
                    let s = std::mem::replace(&mut m.s, make(0));
                    let r = catch(move || drop(s));
                    token::set_fuse(None);
                    ensure_eq!(r.is_err(), exp > 0, "destructor panic propagates");
                    m.map.clear();
                    m.accounts()?;
                }
            }
            m.end()
        },
    );
    c.explore("big drop", "every kind, 66..130 values over several words, every destructor position panics while the storage is dropped", || {
        let kind = choose(8);
        let n = *pick(&[65u32, 66, 130]);
        let mut m = M::new(Drops, kind, vec![]);
        let far = [4095, 4096, 262144];
        prefill(&mut m, n, true)?;
        for i in far {
            m.op(Insert, i)?;
        }
        let k = choose(m.map.len()) as u32;
        note(|| format!("{} with {} values; destructor {k} panics", KINDS[kind], m.map.len()));
        step();
        m.kept.clear();
        token::set_fuse(Some(k));
        let s = std::mem::replace(&mut m.s, make(0));
        let r = catch(move || drop(s));
        token::set_fuse(None);
        ensure!(r.is_err(), "destructor panic propagates");
        m.map.clear();
        m.accounts()?;
        state(fp(&(kind, n, k)));
        m.end()
    });
}
