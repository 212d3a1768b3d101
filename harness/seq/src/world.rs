//! W01, W02, W03 (and the world part of S02): every history of one World.
use goggles::entity::Entity;
use goggles::join::IntoJoinExt;
use goggles::masked::MaskedStorage;
use goggles::storage::*;
use goggles::tracked::Flagged;
use goggles::world::{ReadComponent, World, WriteComponent};
use goggles::world_common::Component;
use hibitset::BitSetLike;
use crate::res::Twin;
use mcx::token::{self, Token};
use mcx::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    /// W01
    Die,
    /// W02
    Dead,
    /// W03
    Registry,
    /// S02
    Drops,
}
use Which::*;

macro_rules! comps {
    ($($sel:ident $n:ident: $s:ty;)*) => { $(
        pub struct $sel;
        pub type $n = <$sel as Twin>::T;
        const _: () = {
            /// All of these have the same name (`type_name` is equal for them).
            pub struct Same(pub Token);
            impl Twin for $sel { type T = Same; }
            impl Component for Same { type Storage = $s; }
            impl From<Token> for Same { fn from(t: Token) -> Self { Same(t) } }
            impl Default for Same { fn default() -> Self { Same(Token::new(DEF)) } }
            impl Clone for Same { fn clone(&self) -> Self { Same(self.0.clone()) } }
            impl Val for Same {
                fn tok(&self) -> &Token { &self.0 }
                fn tok_mut(&mut self) -> &mut Token { &mut self.0 }
                fn into_tok(self) -> Token { self.0 }
            }
        };
    )* };
}
/// Value made by `Default` (several may exist).
pub const DEF: i64 = -7;
pub trait Val: From<Token> + Default + Clone + Send + Sync + 'static {
    fn tok(&self) -> &Token;
    fn tok_mut(&mut self) -> &mut Token;
    fn into_tok(self) -> Token;
}
comps! {
    SelA A: VecStorage<Same>;
    SelB B: DenseVecStorage<Same>;
    SelC C: HashMapStorage<Same>;
    SelD D: Flagged<DenseVecStorage<Same>>;
}
pub const NAMES: [&str; 4] = ["A (VecStorage)", "B (DenseVecStorage)", "C (HashMapStorage)", "D (Flagged<DenseVecStorage>)"];
#[macro_export]
macro_rules! each {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = $crate::world::A; $e }
            1 => { type $t = $crate::world::B; $e }
            2 => { type $t = $crate::world::C; $e }
            _ => { type $t = $crate::world::D; $e }
        }
    };
}

pub fn es(e: Entity) -> String {
    format!("{}v{}", e.index(), e.generation())
}
fn storage_vals<C: Val + Component>(s: &MaskedStorage<C::Storage>) -> Vec<(u32, i64)> {
    s.mask().iter().map(|i| (i, s.get(i).map(|c| c.tok().read()).unwrap_or(-1))).collect()
}

pub struct M {
    pub which: Which,
    pub w: World,
    pub live: BTreeMap<u32, Entity>,
    pub named: Vec<Entity>,
    pub pending: BTreeSet<Entity>,
    /// None: not registered
    pub comps: [Option<BTreeMap<Entity, i64>>; 4],
    /// resources A and C (the component types themselves, used as resources)
    pub res: [Option<i64>; 2],
    /// change marks of D, when tracking
    marks: BTreeSet<u32>,
    tracking: bool,
    next: i64,
    pub kept: Vec<Token>,
    /// values that a second world accounts for
    others: Vec<i64>,
}
impl M {
    pub fn new(which: Which, regs: &[usize]) -> M {
        let mut m = M {
            which,
            w: World::new(),
            live: Default::default(),
            named: vec![],
            pending: Default::default(),
            comps: Default::default(),
            res: Default::default(),
            marks: Default::default(),
            tracking: false,
            next: 100,
            kept: vec![],
            others: vec![],
        };
        for &k in regs {
            each!(k, T => { m.w.insert_component::<T>(); });
            m.comps[k] = Some(Default::default());
        }
        m
    }
    pub fn val(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    pub fn is_live(&self, e: Entity) -> bool {
        self.live.get(&e.index()) == Some(&e)
    }
    pub fn create(&mut self, atomic: bool, name: bool) -> Res {
        let e = if atomic { self.w.entities().create() } else { self.w.create_entity() };
        note(|| format!("create{} -> {}", if atomic { " atomically" } else { "" }, es(e)));
        ensure!(self.live.insert(e.index(), e).is_none(), "index of a live entity reused");
        if name {
            self.named.push(e);
        }
        Ok(())
    }
    fn bury(&mut self, e: Entity) {
        self.live.remove(&e.index());
        self.pending.remove(&e);
        for k in 0..4 {
            if let Some(c) = &mut self.comps[k] {
                if c.remove(&e).is_some() && k == 3 && self.tracking {
                    self.marks.insert(e.index());
                }
                // a deletion may or may not mark an index that held nothing
            }
        }
    }
    pub fn delete(&mut self, e: Entity) -> Res {
        let exp = self.is_live(e);
        let r = self.w.delete_entity(e).is_ok();
        note(|| format!("delete {} -> {r}", es(e)));
        ensure_eq!(r, exp, "result of deleting {}", es(e));
        if exp {
            self.bury(e);
        }
        Ok(())
    }
    pub fn defer(&mut self, e: Entity) -> Res {
        let exp = self.is_live(e);
        let r = self.w.entities().delete(e).is_ok();
        note(|| format!("deferred delete {} -> {r}", es(e)));
        ensure_eq!(r, exp, "result of deferred deletion of {}", es(e));
        if exp {
            self.pending.insert(e);
        }
        Ok(())
    }
    pub fn merge(&mut self) -> Res {
        note(|| "merge".into());
        self.w.merge();
        for e in self.pending.clone() {
            self.bury(e);
        }
        Ok(())
    }
    pub fn insert(&mut self, k: usize, e: Entity, how: usize) -> Res {
        let v = self.val();
        let alive = self.is_live(e);
        let r = each!(k, T => match how {
            0 => self.w.write_component::<T>().insert(e, Token::new(v).into()),
            1 => self.w.get_component_mut::<T>().insert(e, Token::new(v).into()),
            _ => self.w.fetch::<WriteComponent<T>>().insert(e, Token::new(v).into()),
        }.map(|o| o.map(|c| c.into_tok())));
        note(|| format!("insert {} into {} of {} -> {r:?}", v, NAMES[k], es(e)));
        let old = self.comps[k].as_ref().unwrap().get(&e).copied();
        match r {
            Err(_) => ensure!(!alive, "insert on live {} failed", es(e)),
            Ok(o) => {
                ensure!(alive, "insert on dead {} succeeded", es(e));
                ensure_eq!(o.as_ref().map(|t| t.read()), old, "value replaced by insert on {}", es(e));
                self.kept.extend(o);
                self.comps[k].as_mut().unwrap().insert(e, v);
                self.mark(k, e);
            }
        }
        Ok(())
    }
    fn mark(&mut self, k: usize, e: Entity) {
        if k == 3 && self.tracking {
            self.marks.insert(e.index());
        }
    }
    pub fn remove(&mut self, k: usize, e: Entity, how: usize) -> Res {
        let alive = self.is_live(e);
        let r = each!(k, T => match how {
            0 => self.w.write_component::<T>().remove(e),
            1 => self.w.get_component_mut::<T>().remove(e),
            _ => self.w.fetch::<WriteComponent<T>>().remove(e),
        }.map(|o| o.map(|c| c.into_tok())));
        note(|| format!("remove {} of {} -> {r:?}", NAMES[k], es(e)));
        let old = self.comps[k].as_ref().unwrap().get(&e).copied();
        match r {
            Err(_) => ensure!(!alive, "remove on live {} failed", es(e)),
            Ok(o) => {
                ensure!(alive, "remove on dead {} succeeded", es(e));
                ensure_eq!(o.as_ref().map(|t| t.read()), old, "value removed from {}", es(e));
                self.kept.extend(o);
                if self.comps[k].as_mut().unwrap().remove(&e).is_some() {
                    self.mark(k, e);
                }
            }
        }
        Ok(())
    }
    /// get_mut, get_guard, get_or_insert_with, get_or_default
    pub fn access(&mut self, k: usize, e: Entity, how: usize) -> Res {
        let v = self.val();
        let alive = self.is_live(e);
        let old = self.comps[k].as_ref().unwrap().get(&e).copied();
        let mut ran = 0;
        let (name, r): (_, Option<i64>) = each!(k, T => {
            let exclusive = how % 2 == 1;
            macro_rules! go { ($s:expr) => {{ let mut s = $s; match how / 2 {
                0 => ("get_mut", s.get_mut(e).map(|c| { let o = c.tok().read(); c.tok_mut().set(v); o })),
                1 => ("get_guard+get_mut", s.get_guard(e).map(|mut g| { let o = g.get().tok().read(); g.get_mut().tok_mut().set(v); o })),
                2 => ("get_guard", s.get_guard(e).map(|g| g.get().tok().read())),
                3 => ("get_or_insert_with", s.get_or_insert_with(e, || { ran += 1; Token::new(v).into() }).ok().map(|c| c.tok().read())),
                _ => ("get_or_default", s.get_or_default(e).ok().map(|c| c.tok().read())),
            } }} }
            if exclusive { go!(self.w.get_component_mut::<T>()) } else { go!(self.w.write_component::<T>()) }
        });
        note(|| format!("{name} {} of {} -> {r:?}", NAMES[k], es(e)));
        let m = self.comps[k].as_mut().unwrap();
        let exp = match how / 2 {
            0 | 1 => {
                if let Some(o) = m.get_mut(&e) {
                    *o = v;
                }
                old
            }
            2 => old,
            3 | 4 if alive => {
                let n = if how / 2 == 3 { v } else { DEF };
                Some(*m.entry(e).or_insert(n))
            }
            _ => None,
        };
        ensure_eq!(r, exp, "{name} on {} {}", if alive { "live" } else { "dead" }, es(e));
        if how / 2 == 3 {
            ensure_eq!(ran, (alive && old.is_none()) as u32, "calls of the initialiser for {}", es(e));
        }
        if exp.is_some() && how / 2 != 2 {
            self.mark(k, e);
        }
        Ok(())
    }
    /// mark_modified through the access handle (D only)
    pub fn touch(&mut self, e: Entity) -> Res {
        let alive = self.is_live(e);
        let r = self.w.read_component::<D>().mark_modified(e).is_ok();
        note(|| format!("mark_modified {} -> {r}", es(e)));
        ensure_eq!(r, alive, "mark_modified on {}", es(e));
        if alive {
            self.marks.insert(e.index());
        }
        Ok(())
    }
    pub fn track(&mut self) {
        self.w.write_component::<D>().set_track_modified(true);
        self.tracking = true;
    }
    pub fn register(&mut self, k: usize) -> Res {
        let got = each!(k, T => self.w.insert_component::<T>().map(|s| storage_vals::<T>(&s)));
        note(|| format!("register {} -> {got:?}", NAMES[k]));
        let exp: Option<Vec<(u32, i64)>> = self.comps[k].take().map(|m| m.into_iter().map(|(e, v)| (e.index(), v)).collect());
        ensure_eq!(got, exp, "previous storage of {}", NAMES[k]);
        self.comps[k] = Some(Default::default());
        if k == 3 {
            self.tracking = false;
            self.marks.clear();
        }
        Ok(())
    }
    pub fn unregister(&mut self, k: usize) -> Res {
        let got = each!(k, T => self.w.remove_component::<T>().map(|s| storage_vals::<T>(&s)));
        note(|| format!("unregister {} -> {got:?}", NAMES[k]));
        let exp: Option<Vec<(u32, i64)>> = self.comps[k].take().map(|m| m.into_iter().map(|(e, v)| (e.index(), v)).collect());
        ensure_eq!(got, exp, "unregistered storage of {}", NAMES[k]);
        if k == 3 {
            self.tracking = false;
            self.marks.clear();
        }
        Ok(())
    }
    pub fn resource(&mut self, r: usize, insert: bool) -> Res {
        let v = self.val();
        let got = match (r, insert) {
            (0, true) => self.w.insert_resource(A::from(Token::new(v))).map(|x| x.into_tok()),
            (0, false) => self.w.remove_resource::<A>().map(|x| x.into_tok()),
            (_, true) => self.w.insert_resource(C::from(Token::new(v))).map(|x| x.into_tok()),
            (_, false) => self.w.remove_resource::<C>().map(|x| x.into_tok()),
        };
        note(|| format!("{} resource {} -> {got:?}", if insert { "insert" } else { "remove" }, ["A", "C"][r]));
        ensure_eq!(got.as_ref().map(|t| t.read()), self.res[r], "previous resource");
        self.kept.extend(got);
        self.res[r] = insert.then_some(v);
        Ok(())
    }

    pub fn check(&mut self) -> Res {
        if !fresh() {
            return Ok(());
        }
        self.look()
    }
    fn look(&mut self) -> Res {
        for k in 0..4 {
            let reg = self.comps[k].is_some();
            each!(k, T => {
                ensure_eq!(self.w.contains_component::<T>(), reg, "contains_component::<{}>", NAMES[k]);
                if reg { self.look_comp::<T>(k)? } else if self.which == Registry {
                    ensure!(catch(|| { self.w.read_component::<T>(); }).is_err(), "read_component of unregistered {} succeeded", NAMES[k]);
                    ensure!(catch(|| { self.w.write_component::<T>(); }).is_err(), "write_component of unregistered {} succeeded", NAMES[k]);
                    ensure!(catch(|| { self.w.get_component_mut::<T>(); }).is_err(), "get_component_mut of unregistered {} succeeded", NAMES[k]);
                    ensure!(catch(|| { self.w.fetch::<ReadComponent<T>>(); }).is_err(), "fetch of unregistered {} succeeded", NAMES[k]);
                }
            });
        }
        if self.which == Registry {
            ensure_eq!(self.w.contains_resource::<A>(), self.res[0].is_some(), "contains_resource::<A>");
            ensure_eq!(self.w.contains_resource::<C>(), self.res[1].is_some(), "contains_resource::<C>");
            ensure_eq!(catch(|| self.w.read_resource::<A>().tok().read()).ok(), self.res[0], "resource A");
            ensure_eq!(catch(|| self.w.write_resource::<C>().tok().read()).ok(), self.res[1], "resource C");
            ensure_eq!(catch(|| self.w.get_resource_mut::<C>().tok().read()).ok(), self.res[1], "resource C exclusively");
        }
        // entities are unaffected by anything but creation and deletion
        let exp: Vec<Entity> = self.live.values().copied().collect();
        let ents = self.w.entities();
        let got: Vec<Entity> = ents.join().collect();
        ensure_eq!(got, exp, "live entities");
        for &e in &self.named {
            ensure_eq!(ents.is_alive(e), self.is_live(e), "is_alive({})", es(e));
        }
        self.accounts()?;
        let f: Vec<_> = self.comps.iter().map(|c| c.as_ref().map(|c| c.keys().map(|e| (e.index(), e.generation())).collect::<Vec<_>>())).collect();
        let l: Vec<_> = self.live.values().rev().take(9).map(|e| (e.index(), e.generation(), self.pending.contains(e))).collect();
        state(fp(&(f, l, self.res.map(|r| r.is_some()))));
        Ok(())
    }
    fn look_comp<T>(&mut self, k: usize) -> Res
    where
        T: Component + Val,
        T::Storage: Send + Sync + Default,
    {
        let m = self.comps[k].as_ref().unwrap();
        let idx: Vec<u32> = m.keys().map(|e| e.index()).collect();
        let vals: Vec<(Entity, i64)> = m.iter().map(|(e, v)| (*e, *v)).collect();
        macro_rules! see {
            ($s:expr, $how:expr) => {{
                let s = $s;
                for e in self.named.iter().chain(self.live.values().rev().take(6)).copied() {
                    let exp = m.get(&e).copied();
                    let st = if self.live.get(&e.index()) == Some(&e) { "live" } else { "dead" };
                    ensure_eq!(s.contains(e), exp.is_some(), "{}: contains({st} {}) on {}", $how, es(e), NAMES[k]);
                    ensure_eq!(s.get(e).map(|c| c.tok().read()), exp, "{}: get({st} {}) on {}", $how, es(e), NAMES[k]);
                }
                let got: Vec<u32> = s.mask().iter().collect();
                ensure_eq!(got, idx, "{}: occupied indexes of {}", $how, NAMES[k]);
            }};
        }
        see!(self.w.read_component::<T>(), "read_component");
        see!(self.w.fetch::<ReadComponent<T>>(), "fetched");
        {
            let s = self.w.read_component::<T>();
            let got: Vec<(Entity, i64)> = (&self.w.entities(), &s).join().map(|(e, c)| (e, c.tok().read())).collect();
            ensure_eq!(got, vals, "join of the entities and {}", NAMES[k]);
        }
        if self.which != Registry {
            // every refusal on a dead handle leaves no trace (later looks would see it)
            for e in self.named.clone() {
                if self.is_live(e) {
                    continue;
                }
                let (n, mut s) = (es(e), self.w.write_component::<T>());
                ensure!(s.get_mut(e).is_none(), "get_mut on dead {n} found something in {}", NAMES[k]);
                ensure!(s.get_guard(e).is_none(), "get_guard on dead {n} found something in {}", NAMES[k]);
                let mut ran = false;
                ensure!(s.get_or_insert_with(e, || { ran = true; Token::new(1).into() }).is_err() && !ran, "get_or_insert_with on dead {n} succeeded in {}", NAMES[k]);
                ensure!(s.get_or_default(e).is_err(), "get_or_default on dead {n} succeeded in {}", NAMES[k]);
                ensure!(s.insert(e, Token::new(2).into()).is_err(), "insert on dead {n} succeeded in {}", NAMES[k]);
                ensure!(s.remove(e).is_err(), "remove on dead {n} succeeded in {}", NAMES[k]);
            }
            see!(self.w.get_component_mut::<T>(), "get_component_mut");
            see!(self.w.write_component::<T>(), "write_component");
        }
        if k == 3 && self.which == Dead {
            let s = self.w.read_component::<D>();
            for e in self.named.iter().copied() {
                if !self.is_live(e) {
                    ensure!(s.mark_modified(e).is_err(), "mark_modified on dead {} succeeded", es(e));
                }
            }
            ensure_eq!(s.tracking_modified(), self.tracking, "tracking");
            let got: Vec<u32> = s.modified_indexes().iter().collect();
            let exp: Vec<u32> = self.marks.iter().copied().collect();
            // deleting an entity that never had the component may mark its index
            let got: Vec<u32> = got.into_iter().filter(|i| self.marks.contains(i) || self.live.contains_key(i)).collect();
            ensure_eq!(got, exp, "modified indexes of live entities");
        }
        Ok(())
    }
    fn values(&self) -> Vec<i64> {
        self.comps.iter().flatten().flat_map(|m| m.values().copied()).chain(self.res.iter().flatten().copied()).chain(self.kept.iter().map(|t| t.val)).collect()
    }
    /// Every value is stored, or with the caller, or dropped.
    pub fn accounts(&self) -> Res {
        if let Some(e) = token::error() {
            return Err(e);
        }
        let mut exp = self.values();
        exp.extend(&self.others);
        exp.sort();
        let mut got = token::live_vals();
        got.sort();
        ensure_eq!(got, exp, "values that are neither dropped nor lost");
        Ok(())
    }
    pub fn end(self) -> Res {
        self.end_by(false)
    }
    /// The world goes away, normally or while unwinding from somebody else's panic.
    pub fn end_by(self, unwinding: bool) -> Res {
        let M { w, kept, comps, live, others, .. } = self;
        outcome(fp(&format!("{:?}{:?}", comps, live.values().rev().take(9).collect::<Vec<_>>())));
        if unwinding {
            note(|| "drop the world while unwinding from an unrelated panic".into());
            mcx::drop_unwinding(w);
        } else {
            drop(w);
        }
        if let Some(e) = token::error() {
            return Err(e);
        }
        ensure_eq!(token::live(), kept.len() + others.len(), "values left when the world was dropped");
        drop(kept);
        match token::error() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Create,
    CreateAtomic,
    Merge,
    Delete,
    Defer,
    Insert,
    Remove,
    Access(usize),
    Touch,
    Reg,
    Unreg,
    InsertResource,
    RemoveResource,
}
use Op::*;

struct Space {
    label: &'static str,
    /// component types and whether each starts registered
    regs: &'static [(usize, bool)],
    ops: &'static [Op],
    depth: usize,
    /// entities before the history; those named
    prefill: &'static [(u32, &'static [u32])],
    /// most handles that operations may name
    handles: usize,
    hows: usize,
    track: bool,
}
fn space(c: &mut Ctx, which: Which, sp: Space) {
    let rule = format!(
        "component types {:?} (true: registered at the start), every sequence of {} operations of {:?} over up to {} named entity handles, alive or dead, starting with {:?} (entities, named ones); full comparison with a map keyed by entity after every operation",
        sp.regs.iter().map(|(k, r)| (NAMES[*k], *r)).collect::<Vec<_>>(), sp.depth, sp.ops, sp.handles, sp.prefill
    );
    let sp = &sp;
    c.explore(sp.label, &rule, move || {
        let regs: Vec<usize> = sp.regs.iter().filter(|r| r.1).map(|r| r.0).collect();
        let mut m = M::new(which, &regs);
        if sp.track {
            m.track();
        }
        let (n, name) = sp.prefill[choose(sp.prefill.len())];
        for i in 0..n {
            let e = m.w.create_entity();
            m.live.insert(i, e);
            if name.contains(&i) {
                m.named.push(e);
            }
            for &k in &regs {
                if (i as usize + k) % 3 != 0 {
                    m.insert(k, e, 0)?;
                }
            }
        }
        m.check()?;
        for _ in 0..sp.depth {
            one(&mut m, sp)?;
            m.check()?;
        }
        m.end()
    });
}
/// Two worlds used in turns: neither may know of the other.
fn twins(c: &mut Ctx, which: Which, sp: Space) {
    let rule = format!(
        "two worlds side by side with component types {:?} (true: registered at the start), each starting with any of {:?} (entities, named ones), every sequence of {} operations of {:?} on either, over up to {} named entity handles each; full comparison of both after every operation",
        sp.regs.iter().map(|(k, r)| (NAMES[*k], *r)).collect::<Vec<_>>(), sp.prefill, sp.depth, sp.ops, sp.handles
    );
    let sp = &sp;
    c.explore(sp.label, &rule, move || {
        let regs: Vec<usize> = sp.regs.iter().filter(|r| r.1).map(|r| r.0).collect();
        let mut ms: Vec<M> = vec![];
        for t in 0..2 {
            let mut m = M::new(which, &regs);
            m.next += 1_000_000 * t;
            if sp.track {
                m.track();
            }
            let (n, name) = sp.prefill[choose(sp.prefill.len())];
            for i in 0..n {
                let e = m.w.create_entity();
                m.live.insert(i, e);
                if name.contains(&i) {
                    m.named.push(e);
                }
                for &k in &regs {
                    if (i as usize + k + t as usize) % 2 == 0 {
                        m.insert(k, e, 0)?;
                    }
                }
            }
            ms.push(m);
        }
        for _ in 0..sp.depth {
            let t = choose(2);
            note(|| format!("{}:", ["first", "second"][t]));
            one(&mut ms[t], sp)?;
            for t in [0, 1] {
                ms[t].others = ms[1 - t].values();
                ms[t].check()?;
            }
        }
        let mut second = ms.pop().unwrap();
        let mut first = ms.pop().unwrap();
        first.others = second.values();
        first.end()?;
        second.others.clear();
        second.check()?;
        second.end()
    });
}
fn one(m: &mut M, sp: &Space) -> Res {
    // (operation, component, entity)
    let mut menu: Vec<(Op, usize, usize)> = vec![];
    let full = m.named.len() >= sp.handles;
    for &o in sp.ops {
        match o {
            Create | CreateAtomic if full => {}
            Create | CreateAtomic | Merge => menu.push((o, 0, 0)),
            Delete | Defer => menu.extend((0..m.named.len()).map(|e| (o, 0, e))),
            Touch => menu.extend((0..m.named.len()).map(|e| (o, 3, e))),
            InsertResource | RemoveResource => menu.extend([(o, 0, 0), (o, 1, 0)]),
            Insert | Remove | Access(_) => {
                for &(k, _) in sp.regs {
                    if m.comps[k].is_some() {
                        menu.extend((0..m.named.len()).map(|e| (o, k, e)));
                    }
                }
            }
            Reg | Unreg => menu.extend(sp.regs.iter().map(|r| (o, r.0, 0))),
        }
    }
    let (o, k, e) = *pick(&menu);
    step();
    match o {
        Create => m.create(false, true),
        CreateAtomic => m.create(true, true),
        Merge => m.merge(),
        Delete => m.delete(m.named[e]),
        Defer => m.defer(m.named[e]),
        Insert => m.insert(k, m.named[e], choose(sp.hows)),
        Remove => m.remove(k, m.named[e], choose(sp.hows)),
        Access(h) => m.access(k, m.named[e], h),
        Touch => m.touch(m.named[e]),
        Reg => m.register(k),
        Unreg => m.unregister(k),
        InsertResource => m.resource(k, true),
        RemoveResource => m.resource(k, false),
    }
}

/// Many entities deleted and recreated at once.
fn mass(c: &mut Ctx, which: Which) {
    use crate::ents::{in_pattern, PATTERNS};
    let sizes: &[u32] = c.q(&[3, 65, 130, 300, 4097, 65537], &[3, 64, 65, 130, 257, 300, 1000, 4097, 65537]);
    // the subsets (immediately, deferred) tried with the largest sizes
    const LARGE: [(usize, usize); 4] = [(1, 0), (0, 1), (5, 7), (2, 3)];
    let large = c.q(1000, 5000);
    c.explore(
        "mass changes",
        &format!("worlds with 4 component types and {sizes:?} entities of which a subset {PATTERNS:?} is deleted immediately and another one deferred, then merged, then as many created again (exclusively or atomically) and half of those given components; full comparison after each phase; of the sizes above {large} only the pairs of subsets {LARGE:?}"),
        move || {
            let n = *pick(sizes);
            let (p1, p2) = if n > large { *pick(&LARGE) } else { (choose(9), choose(9)) };
            let atomic = choose(2) == 1;
            note(|| format!("{n} entities, deleted {}, deferred {}, merged, {n} more created{}", PATTERNS[p1], PATTERNS[p2], if atomic { " atomically" } else { "" }));
            let mut m = M::new(which, &[0, 1, 2, 3]);
            if which == Dead {
                m.track();
            }
            let give = |m: &mut M, i: u32, e: Entity| {
                for k in 0..4 {
                    if (i as usize + k) % 3 != 0 {
                        m.insert(k, e, 0)?;
                    }
                }
                Ok::<(), String>(())
            };
            for i in 0..n {
                m.create(false, true)?;
                let e = m.named[i as usize];
                give(&mut m, i, e)?;
            }
            for (i, e) in m.named.clone().into_iter().enumerate() {
                if in_pattern(p2, i as u32, n) {
                    m.defer(e)?;
                }
                if in_pattern(p1, i as u32, n) {
                    m.delete(e)?;
                }
            }
            step();
            m.check()?;
            m.merge()?;
            step();
            m.check()?;
            for i in 0..n {
                m.create(atomic, true)?;
                if i % 2 == 1 {
                    let e = *m.named.last().unwrap();
                    give(&mut m, i, e)?;
                }
            }
            step();
            m.check()?;
            m.end()
        },
    );
}
/// One index used again and again.
fn reuse(c: &mut Ctx, which: Which) {
    let top = c.q(16, 20);
    c.explore(
        "many reuses",
        &format!("one index deleted (immediately, deferred) and created again (exclusively, atomically) 2^{top}+1 times; at 2^k-1, 2^k and 2^k+1 the newest entity is given components or not and every handle kept from such a point is tried on every component"),
        move || {
            let (defer, atomic, give) = (choose(2) == 1, choose(2) == 1, choose(3));
            note(|| format!("deleted {}, created {}, components {}", ["immediately", "by a merge"][defer as usize], ["exclusively", "atomically"][atomic as usize], ["never given", "given at the noted points", "given always"][give]));
            let mut m = M::new(which, &[0, 1, 2, 3]);
            m.create(false, true)?;
            let mut e = m.named[0];
            for k in 1u32.. {
                let at = (k + 1).is_power_of_two() || k.is_power_of_two() || (k - 1).is_power_of_two();
                if give == 2 || give == 1 && at {
                    m.insert(0, e, 0)?;
                    m.insert(3, e, 0)?;
                }
                if at {
                    step();
                    if k > 1 {
                        m.named.push(e);
                    }
                    m.check()?;
                }
                if k > 1 << top {
                    break;
                }
                if defer {
                    m.defer(e)?;
                    m.merge()?;
                } else {
                    m.delete(e)?;
                }
                m.create(atomic, false)?;
                e = *m.live.values().next().unwrap();
            }
            m.end()
        },
    );
}

/// A component's destructor panics while an entity is deleted: afterwards the entity is gone from
/// every storage all the same, and what reuses its index starts empty.
fn faults(c: &mut Ctx, which: Which) {
    let d = c.q(3, 4);
    c.explore(
        "destructor panics",
        &format!("1 to 3 component types, every sequence of up to {d} operations (create, insert, deferred delete, immediate delete), then every k-th destructor panics during an immediate deletion or a merge (afterwards the world is consistent and reused indexes start empty){}", if which == Drops { ", or the world is dropped while unwinding from an unrelated panic" } else { "" }),
        move || {
            let regs: &[usize] = *pick(&[&[0usize][..], &[1, 3], &[0, 2], &[0, 1, 2], &[1, 2, 3]]);
            let mut m = M::new(which, regs);
            for i in 0..3 {
                m.create(i == 1, true)?;
            }
            for &k in regs {
                for e in 0..2 {
                    m.insert(k, m.named[e], 0)?;
                }
            }
            let n = choose(d + 1);
            for _ in 0..n {
                step();
                let e = *pick(&m.named);
                match choose(3 + regs.len()) {
                    0 => m.delete(e)?,
                    1 => m.defer(e)?,
                    2 => m.merge()?,
                    k => m.insert(regs[k - 3], e, 0)?,
                }
                m.check()?;
            }
            m.kept.clear();
            step();
            let e = *pick(&m.named[..2]);
            let held = |m: &M, e: Entity| m.comps.iter().flatten().filter(|c| c.contains_key(&e)).count();
            let what = choose(if which == Drops { 3 } else { 2 });
            if what == 2 {
                return m.end_by(true);
            }
            let dying = match what {
                0 if m.is_live(e) => held(&m, e),
                0 => 0,
                _ => m.pending.iter().map(|e| held(&m, *e)).sum(),
            };
            if dying > 0 {
                let k = choose(dying) as u32;
                token::set_fuse(Some(k));
                let r = match what {
                    0 => catch(|| m.w.delete_entity(e).is_ok()),
                    _ => catch(|| { m.w.merge(); true }),
                };
                token::set_fuse(None);
                note(|| format!("{}, destructor {k} of {dying} panics -> {r:?}", if what == 0 { format!("delete {}", es(e)) } else { "merge".into() }));
                ensure!(r.is_err(), "the destructor's panic was swallowed");
                if what == 0 {
                    m.bury(e);
                } else {
                    for e in m.pending.clone() {
                        m.bury(e);
                    }
                }
                m.check()?;
                // whatever reuses the indexes starts with nothing
                for _ in 0..2 {
                    m.create(false, true)?;
                    m.check()?;
                }
                m.merge()?;
                m.check()?;
            }
            m.end()
        },
    );
    if which == Drops {
        c.explore("storage goes away", "every kind of storage with 0..3 values of 0..3 entities, unregistered or replaced or removed resource dropped with every k-th destructor panicking: the remaining values of that storage are still dropped and nothing else is touched", move || {
            let k = choose(4);
            let other = choose(4);
            let mut m = M::new(which, &[k, other]);
            m.resource(0, true)?;
            for i in 0..3 {
                m.create(i == 1, true)?;
                for k in [k, other] {
                    if choose(2) == 1 {
                        m.insert(k, m.named[i], 0)?;
                    }
                }
            }
            m.kept.clear();
            m.check()?;
            step();
            let n = m.comps[k].as_ref().unwrap().len();
            let f = choose(n.max(1)) as u32;
            let un = choose(2) == 0;
            token::set_fuse(Some(f));
            let r = each!(k, T => catch(|| drop(if un { m.w.remove_component::<T>() } else { m.w.insert_component::<T>() })));
            token::set_fuse(None);
            note(|| format!("{} {} with {n} values, destructor {f} panics -> {r:?}", if un { "unregister" } else { "replace" }, NAMES[k]));
            ensure_eq!(r.is_err(), n > 0, "panic propagates");
            m.comps[k] = if un { None } else { Some(Default::default()) };
            m.check()?;
            m.delete(m.named[0])?;
            m.check()?;
            m.end()
        });
    }
}

const FRESH: &[(u32, &[u32])] = &[(0, &[])];
const LIFE: &[Op] = &[Create, CreateAtomic, Merge, Delete, Defer, Insert, Remove];

pub fn run(c: &mut Ctx, which: Which) {
    let t = c.thorough as usize;
    const TWO: &[(u32, &[u32])] = &[(1, &[0]), (2, &[0, 1])];
    let two = |c: &mut Ctx| match which {
        Die => {
            twins(c, which, Space { label: "two side by side", regs: &[(0, true), (1, true)], ops: LIFE, depth: 3 + t, prefill: TWO, handles: 3, hows: 1, track: false });
        }
        Dead => {
            twins(c, which, Space { label: "two side by side", regs: &[(3, true)], ops: &[Create, CreateAtomic, Merge, Delete, Defer, Insert, Remove, Access(0), Access(2), Access(5)], depth: 3 + t, prefill: TWO, handles: 3, hows: 1, track: true });
        }
        Registry => {
            twins(c, which, Space { label: "two side by side", regs: &[(0, false), (2, true)], ops: &[Delete, Insert, Reg, Unreg, InsertResource, RemoveResource], depth: 3 + t, prefill: TWO, handles: 2, hows: 1, track: false });
        }
        Drops => {
            twins(c, which, Space { label: "two side by side", regs: &[(0, true), (2, true)], ops: &[Create, Merge, Delete, Defer, Insert, Remove, Reg, Unreg], depth: 3, prefill: TWO, handles: 3, hows: 1, track: false });
        }
    };
    two(c);
    c.watched(two);
    match which {
        Die => {
            space(c, which, Space { label: "lifecycle", regs: &[(0, true), (1, true)], ops: LIFE, depth: 6 + t, prefill: FRESH, handles: 3, hows: 1, track: false });
            space(c, which, Space { label: "long", regs: &[(1, true)], ops: &[Create, CreateAtomic, Merge, Delete, Defer, Insert], depth: 7 + t, prefill: FRESH, handles: 3, hows: 1, track: false });
            space(c, which, Space { label: "all kinds", regs: &[(0, true), (1, true), (2, true), (3, true)], ops: LIFE, depth: 4 + t, prefill: &[(2, &[0, 1]), (3, &[1, 2])], handles: 4, hows: 1, track: false });
            space(c, which, Space { label: "registration", regs: &[(0, true), (2, false)], ops: &[Create, Merge, Delete, Defer, Insert, Reg, Unreg], depth: 5 + t, prefill: &[(2, &[0, 1])], handles: 3, hows: 1, track: false });
            space(c, which, Space { label: "words", regs: &[(0, true), (1, true), (2, true)], ops: &[Create, Merge, Delete, Defer, Insert], depth: 3 + t, prefill: &[(65, &[0, 63, 64]), (130, &[62, 64, 128]), (4098, &[4095, 4096])], handles: 4, hows: 1, track: false });
            c.watched(|c| {
                space(c, which, Space { label: "lifecycle", regs: &[(0, true), (3, true)], ops: LIFE, depth: 5 + t, prefill: FRESH, handles: 2, hows: 1, track: false });
                space(c, which, Space { label: "all kinds", regs: &[(1, true), (2, true)], ops: LIFE, depth: 4 + t, prefill: &[(2, &[0, 1]), (3, &[1, 2])], handles: 3, hows: 1, track: false });
            });
            faults(c, which);
            mass(c, which);
            reuse(c, which);
            crate::many::world(c);
        }
        Dead => {
            const ALL: &[Op] = &[Create, CreateAtomic, Merge, Delete, Defer, Insert, Remove, Access(0), Access(1), Access(2), Access(3), Access(4), Access(5), Access(6), Access(7), Access(8), Access(9)];
            space(c, which, Space { label: "all accesses", regs: &[(0, true)], ops: ALL, depth: 4 + t, prefill: &[(1, &[0]), (2, &[1])], handles: 3, hows: 3, track: false });
            space(c, which, Space { label: "tracked", regs: &[(3, true)], ops: &[CreateAtomic, Merge, Delete, Defer, Insert, Remove, Access(0), Access(2), Access(5), Access(6), Touch], depth: 4 + t, prefill: &[(1, &[0]), (2, &[1])], handles: 3, hows: 1, track: true });
            space(c, which, Space { label: "reuse", regs: &[(1, true), (2, true)], ops: &[Create, CreateAtomic, Merge, Delete, Defer, Insert], depth: 5 + t, prefill: &[(2, &[0, 1])], handles: 4, hows: 1, track: false });
            space(c, which, Space { label: "words", regs: &[(1, true)], ops: &[CreateAtomic, Merge, Delete, Defer, Insert, Remove, Access(0), Access(6)], depth: 3 + t, prefill: &[(65, &[0, 63, 64]), (4098, &[64, 4096])], handles: 4, hows: 2, track: false });
            c.watched(|c| {
                space(c, which, Space { label: "all accesses", regs: &[(0, true)], ops: &[Create, CreateAtomic, Merge, Delete, Defer, Insert, Remove, Access(0), Access(4)], depth: 4 + t, prefill: &[(1, &[0]), (2, &[1])], handles: 3, hows: 1, track: false });
                space(c, which, Space { label: "reuse", regs: &[(1, true), (3, true)], ops: &[Create, CreateAtomic, Merge, Delete, Defer, Insert], depth: 4 + t, prefill: &[(2, &[0, 1])], handles: 4, hows: 1, track: false });
            });
            mass(c, which);
            reuse(c, which);
        }
        Registry => {
            c.watched(|c| {
                space(c, which, Space { label: "registration", regs: &[(0, false), (1, true)], ops: &[Create, Delete, Insert, Reg, Unreg, InsertResource, RemoveResource], depth: 4 + t, prefill: &[(1, &[0])], handles: 2, hows: 1, track: false });
            });
            space(c, which, Space { label: "components", regs: &[(0, false), (1, true), (3, false)], ops: &[Merge, Delete, Defer, Insert, Reg, Unreg], depth: 5 + t, prefill: &[(2, &[0, 1])], handles: 2, hows: 1, track: false });
            space(c, which, Space { label: "with resources", regs: &[(0, false), (2, true)], ops: &[Create, Delete, Insert, Reg, Unreg, InsertResource, RemoveResource], depth: 5 + t, prefill: &[(1, &[0])], handles: 2, hows: 1, track: false });
            space(c, which, Space { label: "long", regs: &[(2, false)], ops: &[Create, Delete, Insert, Reg, Unreg, InsertResource, RemoveResource], depth: 6 + t, prefill: FRESH, handles: 2, hows: 1, track: false });
        }
        Drops => {
            space(c, which, Space { label: "world", regs: &[(0, true), (1, false), (2, true)], ops: &[Create, Merge, Delete, Defer, Insert, Remove, Reg, Unreg], depth: 4 + t, prefill: &[(2, &[0, 1])], handles: 3, hows: 1, track: false });
            faults(c, which);
            mass(c, which);
        }
    }
}
