//! A01 (and the dynamic-set part of S02): every history of AnyComponentSet and
//! AnyCloneComponentSet, alone and applied to a world.
use crate::each;
use crate::world::{Val, Which, M as Wm, NAMES};
use goggles::any_components::{AnyCloneComponentSet, AnyComponentSet};
use goggles::entity::Entity;
use goggles::world::World;
use mcx::token::{self, Token};
use mcx::*;
use std::collections::BTreeMap;

type Model = BTreeMap<usize, i64>;
/// Two sets of each sort, and what they hold.
struct Sets {
    any: [AnyComponentSet; 2],
    cl: [AnyCloneComponentSet; 2],
    ma: [Model; 2],
    mc: [Model; 2],
    next: i64,
    kept: Vec<Token>,
}
impl Sets {
    fn new() -> Sets {
        Sets {
            any: [AnyComponentSet::new(), AnyComponentSet::default()],
            cl: [AnyCloneComponentSet::new(), AnyCloneComponentSet::default()],
            ma: Default::default(),
            mc: Default::default(),
            next: 10,
            kept: vec![],
        }
    }
    fn val(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    fn insert(&mut self, cl: bool, s: usize, k: usize) -> Res {
        let v = self.val();
        let r = each!(k, T => if cl { self.cl[s].insert(T::from(Token::new(v))).map(|c| c.into_tok()) } else { self.any[s].insert(T::from(Token::new(v))).map(|c| c.into_tok()) });
        let m = if cl { &mut self.mc[s] } else { &mut self.ma[s] };
        note(|| format!("{}set {s}: insert {v} as {} -> {r:?}", if cl { "clonable " } else { "" }, NAMES[k]));
        ensure_eq!(r.as_ref().map(|t| t.read()), m.insert(k, v), "value replaced by insert of {}", NAMES[k]);
        self.kept.extend(r);
        Ok(())
    }
    fn remove(&mut self, s: usize, k: usize) -> Res {
        let r = each!(k, T => self.any[s].remove::<T>().map(|c| c.into_tok()));
        note(|| format!("set {s}: remove {} -> {r:?}", NAMES[k]));
        ensure_eq!(r.as_ref().map(|t| t.read()), self.ma[s].remove(&k), "value removed as {}", NAMES[k]);
        self.kept.extend(r);
        Ok(())
    }
    fn set(&mut self, cl: bool, s: usize, k: usize) -> Res {
        let v = self.val();
        let r = each!(k, T => {
            let c = if cl { self.cl[s].get_mut::<T>() } else { self.any[s].get_mut::<T>() };
            c.map(|c| { let o = c.tok().read(); c.tok_mut().set(v); o })
        });
        note(|| format!("{}set {s}: get_mut {} = {v} -> {r:?}", if cl { "clonable " } else { "" }, NAMES[k]));
        let m = if cl { &mut self.mc[s] } else { &mut self.ma[s] };
        ensure_eq!(r, m.get(&k).copied(), "get_mut of {}", NAMES[k]);
        if r.is_some() {
            m.insert(k, v);
        }
        Ok(())
    }
    fn look(&mut self, cl: bool, s: usize, k: usize) -> Res {
        note(|| format!("{}set {s}: look for {}", if cl { "clonable " } else { "" }, NAMES[k]));
        let exp = if cl { &self.mc[s] } else { &self.ma[s] }.get(&k).copied();
        each!(k, T => {
            let (h, g) = if cl { (self.cl[s].contains::<T>(), self.cl[s].get::<T>()) } else { (self.any[s].contains::<T>(), self.any[s].get::<T>()) };
            ensure_eq!(h, exp.is_some(), "contains {}", NAMES[k]);
            ensure_eq!(g.map(|c| c.tok().read()), exp, "get {}", NAMES[k]);
        });
        Ok(())
    }
    /// merges set 1-s into set s
    fn merge(&mut self, cl: bool, s: usize) -> Res {
        let (o, r) = if cl {
            let other = std::mem::take(&mut self.cl[1 - s]);
            let r = self.cl[s].merge(other);
            let o = std::mem::take(&mut self.mc[1 - s]);
            (o, r)
        } else {
            let other = std::mem::take(&mut self.any[1 - s]);
            let r = self.any[s].merge(other);
            let o = std::mem::take(&mut self.ma[1 - s]);
            (o, r)
        };
        let m = if cl { &mut self.mc[s] } else { &mut self.ma[s] };
        note(|| format!("{}set {}: merged into {s} -> {r}", if cl { "clonable " } else { "" }, 1 - s));
        let exp = o.keys().any(|k| m.contains_key(k));
        m.extend(o);
        ensure_eq!(r, exp, "whether the merge replaced a value");
        Ok(())
    }
    fn clone_into(&mut self, from: usize, to: usize) -> Res {
        let r = self.cl[from].clone_into_set(&mut self.any[to]);
        note(|| format!("clonable set {from} cloned into set {to} -> {r}"));
        let exp = self.mc[from].keys().any(|k| self.ma[to].contains_key(k));
        let src = self.mc[from].clone();
        self.ma[to].extend(src);
        ensure_eq!(r, exp, "whether cloning into the set replaced a value");
        Ok(())
    }
    fn check(&self, extra: &[i64]) -> Res {
        if !fresh() {
            return Ok(());
        }
        for s in 0..2 {
            ensure_eq!(self.any[s].len(), self.ma[s].len(), "len of set {s}");
            for k in 0..4 {
                let (a, c) = (self.ma[s].get(&k).copied(), self.mc[s].get(&k).copied());
                each!(k, T => {
                    ensure_eq!(self.any[s].contains::<T>(), a.is_some(), "set {s} contains {}", NAMES[k]);
                    ensure_eq!(self.any[s].get::<T>().map(|c| c.tok().read()), a, "set {s} get {}", NAMES[k]);
                    ensure_eq!(self.cl[s].contains::<T>(), c.is_some(), "clonable set {s} contains {}", NAMES[k]);
                    ensure_eq!(self.cl[s].get::<T>().map(|c| c.tok().read()), c, "clonable set {s} get {}", NAMES[k]);
                });
            }
        }
        if let Some(e) = token::error() {
            return Err(e);
        }
        let mut exp: Vec<i64> = self.ma.iter().chain(&self.mc).flat_map(|m| m.values().copied()).chain(self.kept.iter().map(|t| t.val)).chain(extra.iter().copied()).collect();
        exp.sort();
        let mut got = token::live_vals();
        got.sort();
        ensure_eq!(got, exp, "values that are neither dropped nor lost");
        let keys = |m: &Model| m.keys().copied().collect::<Vec<_>>();
        state(fp(&(self.ma.each_ref().map(keys), self.mc.each_ref().map(keys))));
        Ok(())
    }
}

fn maps(c: &mut Ctx, label: &str, types: usize, ops: &'static [u8], depth: usize) {
    c.explore(label, &format!("{types} component types, two sets of each sort, every sequence of {depth} operations out of insert, remove, get_mut, merge, clone_into_set, drop; complete comparison with maps after each"), move || {
        token::reset();
        let mut m = Sets::new();
        for _ in 0..depth {
            let op = *pick(ops);
            step();
            match op {
                0 => m.insert(false, choose(2), choose(types))?,
                1 => m.remove(choose(2), choose(types))?,
                2 => m.set(false, choose(2), choose(types))?,
                3 => m.merge(false, choose(2))?,
                4 => m.insert(true, choose(2), choose(types))?,
                5 => m.set(true, choose(2), choose(types))?,
                6 => m.merge(true, choose(2))?,
                7 => m.clone_into(choose(2), choose(2))?,
                9 => m.look(false, choose(2), choose(types))?,
                10 => m.look(true, choose(2), choose(types))?,
                _ => {
                    let s = choose(2);
                    m.any[s] = AnyComponentSet::new();
                    m.ma[s].clear();
                }
            }
            m.check(&[])?;
        }
        outcome(fp(&format!("{:?}{:?}", m.ma, m.mc)));
        let kept = std::mem::take(&mut m.kept);
        drop(m);
        ensure_eq!(token::live(), kept.len(), "values left when the sets were dropped");
        Ok(())
    });
}

/// Sets (subsets of the component types) applied to entities in every situation.
fn apply(c: &mut Ctx, faulty: bool) {
    let n = 4;
    let label = if faulty { "applying, panics" } else { "applying" };
    c.explore(
        label,
        &format!(
            "every subset of {n} component types as {}, applied to a live, atomically created, deferred-deleted, dead, reused or never used handle whose entity already has every subset of those components, twice for clonable sets{}",
            "dynamic set, clonable set, or dynamic set cloned from a clonable one",
            if faulty { "; every k-th clone or destructor, and every unregistered type, makes it panic" } else { "; the other entity keeps its components" }
        ),
        move || {
            token::reset();
            let mut w = Wm::new(Which::Die, &[0, 1, 2, 3]);
            w.create(false, true)?;
            w.create(false, true)?;
            let who = choose(6);
            let e: Entity = match who {
                0 => w.named[1],
                1 => {
                    w.create(true, true)?;
                    w.named[2]
                }
                2 => {
                    w.defer(w.named[1])?;
                    w.named[1]
                }
                3 => {
                    w.delete(w.named[1])?;
                    w.named[1]
                }
                4 => {
                    w.delete(w.named[1])?;
                    w.create(false, true)?;
                    w.named[2]
                }
                _ => {
                    // the stale handle of a reused index
                    w.delete(w.named[1])?;
                    w.create(true, true)?;
                    w.named[1]
                }
            };
            note(|| format!("target: {} ({})", crate::world::es(e), ["live", "atomic", "pending deletion", "dead", "reused index", "stale handle of a reused index"][who]));
            let has = choose(1 << n);
            let owner = if who == 5 { w.named[2] } else { e };
            for k in 0..n {
                if has >> k & 1 == 1 {
                    if w.is_live(owner) {
                        w.insert(k, owner, 1)?;
                    }
                    w.insert(k, w.named[0], 1)?;
                }
            }
            let subset = choose(1 << n);
            let sort = choose(3);
            let mut s = Sets::new();
            for k in 0..n {
                if subset >> k & 1 == 1 {
                    s.insert(sort > 0, 0, k)?;
                }
            }
            let alive = w.is_live(e);
            let size = subset.count_ones();
            let missing = if faulty { choose(n + 1) } else { n };
            if missing < n {
                w.unregister(missing)?;
            }
            step();
            let all = |w: &Wm, s: &Sets| -> Vec<i64> {
                let mut v: Vec<i64> = w.comps.iter().flatten().flat_map(|m| m.values().copied()).chain(w.kept.iter().chain(&s.kept).map(|t| t.val)).collect();
                v.extend(s.ma.iter().chain(&s.mc).flat_map(|m| m.values()));
                v.sort();
                v
            };
            if sort == 2 {
                if faulty && size > 0 {
                    token::set_fuse(Some(choose(size as usize) as u32));
                    let r = catch(|| s.cl[0].clone_into_set(&mut s.any[0]));
                    token::set_fuse(None);
                    note(|| format!("clone_into_set with a panicking clone -> {r:?}"));
                    ensure!(r.is_err(), "panic propagates");
                    if let Some(e) = token::error() {
                        return Err(e);
                    }
                    // whatever was cloned before is in the set; the clonable set is unchanged
                    for k in 0..n {
                        each!(k, T => ensure_eq!(s.cl[0].get::<T>().map(|c| c.tok().read()), s.mc[0].get(&k).copied(), "clonable set after the panic"));
                    }
                    s.any[0] = AnyComponentSet::new();
                }
                s.clone_into(0, 0)?;
                s.check(&w.comps.iter().flatten().flat_map(|m| m.values().copied()).chain(w.kept.iter().map(|t| t.val)).collect::<Vec<_>>())?;
            }
            let replaced = alive && (0..n).any(|k| subset >> k & 1 == 1 && has >> k & 1 == 1);
            let needs_missing = missing < n && subset >> missing & 1 == 1;
            // clones run, or values of dead targets are dropped
            let callbacks = if sort == 1 { size as usize } else if !alive { size as usize } else { replaced as usize };
            let fuse = if faulty && missing == n && callbacks > 0 { Some(choose(callbacks) as u32) } else { None };
            let go = |w: &mut World, s: &mut Sets| match sort {
                1 => s.cl[0].insert_into_world(w, e).ok(),
                _ => std::mem::take(&mut s.any[0]).insert_into_world(w, e).ok(),
            };
            let exp = if alive || size == 0 { Some(replaced) } else { None };
            if needs_missing || fuse.is_some() {
                token::set_fuse(fuse);
                let r = catch(|| go(&mut w.w, &mut s));
                token::set_fuse(None);
                note(|| format!("insert_into_world with {} -> {r:?}", if needs_missing { "an unregistered type".into() } else { format!("callback {fuse:?} panicking") }));
                if sort != 1 {
                    s.ma[0].clear();
                }
                if needs_missing && alive {
                    ensure!(r.is_err(), "applying an unregistered component succeeded: {r:?}");
                }
                if let Some(e) = token::error() {
                    return Err(e);
                }
                // nobody else is touched; every value still alive is stored, in the set, or ours
                if !alive {
                    look(&w)?;
                }
                let mut held: Vec<i64> = w.kept.iter().chain(&s.kept).map(|t| t.val).collect();
                held.extend(s.ma.iter().chain(&s.mc).flat_map(|m| m.values()));
                for k in 0..4 {
                    if w.comps[k].is_some() {
                        each!(k, T => {
                            let st = w.w.read_component::<T>();
                            ensure_eq!(st.get(w.named[0]).map(|c| c.tok().read()), w.comps[k].as_ref().unwrap().get(&w.named[0]).copied(), "component {} of the other entity", NAMES[k]);
                            let m = st.mask();
                            held.extend(hibitset::BitSetLike::iter(m).map(|i| st.storage().get(i).unwrap().tok().read()));
                        });
                    }
                }
                held.sort();
                let mut got = token::live_vals();
                got.sort();
                if fuse.is_some() && sort != 1 && !alive {
                    // the set's own map gives up on the rest when a destructor panics in it
                    for v in &held {
                        let i = got.iter().position(|g| g == v);
                        ensure!(i.is_some(), "value {v} was dropped although it is still held");
                        got.remove(i.unwrap());
                    }
                    return Ok(());
                }
                ensure_eq!(got, held, "values that are neither dropped nor lost");
                drop(s);
                drop(w);
                ensure_eq!(token::live(), 0, "values left at the end");
                return match token::error() {
                    Some(e) => Err(e),
                    None => Ok(()),
                };
            }
            for round in 0..if sort == 1 { 2 } else { 1 } {
                let r = go(&mut w.w, &mut s);
                note(|| format!("insert_into_world -> {r:?}"));
                let exp = if round == 1 && alive { Some(size > 0) } else { exp };
                ensure_eq!(r, exp, "result of insert_into_world (whether it replaced something; None: wrong generation)");
                let src = if sort == 1 { s.mc[0].clone() } else { std::mem::take(&mut s.ma[0]) };
                if alive {
                    for (k, v) in src {
                        w.comps[k].as_mut().unwrap().insert(e, v);
                    }
                }
                // what the world holds, and that nothing was lost
                let mut got = token::live_vals();
                got.sort();
                ensure_eq!(got, all(&w, &s), "values that are neither dropped nor lost");
                look(&w)?;
                s.check(&w.comps.iter().flatten().flat_map(|m| m.values().copied()).chain(w.kept.iter().map(|t| t.val)).collect::<Vec<_>>())?;
            }
            // the world goes on working: the target dies with what it was given
            if alive {
                w.delete(e)?;
                look(&w)?;
            }
            outcome(fp(&(who, has, subset, sort)));
            Ok(())
        },
    );
}
/// every component of every named handle
fn look(w: &Wm) -> Res {
    for k in 0..4 {
        let Some(m) = &w.comps[k] else { continue };
        each!(k, T => {
            let st = w.w.read_component::<T>();
            for &e in &w.named {
                ensure_eq!(st.get(e).map(|c| c.tok().read()), m.get(&e).copied(), "{} of {}", NAMES[k], crate::world::es(e));
            }
            ensure_eq!(hibitset::BitSetLike::iter(st.mask()).count(), m.len(), "number of {}", NAMES[k]);
        });
    }
    if let Some(e) = token::error() {
        return Err(e);
    }
    state(fp(&w.comps.iter().map(|c| c.as_ref().map(|c| c.keys().map(|e| e.index()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let t = c.thorough as usize;
    maps(c, "plain sets", 2, &[0, 1, 2, 3, 8], 5 + t);
    maps(c, "clonable sets", 2, &[4, 5, 6, 7, 8], 5 + t);
    maps(c, "four types", 4, &[0, 1, 3, 4, 7], 4 + t);
    maps(c, "plain sets, looks", 2, &[0, 1, 2, 3, 9], 4 + t);
    maps(c, "clonable sets, looks", 2, &[4, 5, 6, 7, 9, 10], 4 + t);
    c.watched(|c| {
        maps(c, "plain sets", 2, &[0, 1, 2, 3, 8], 4 + t);
        maps(c, "clonable sets", 2, &[4, 5, 6, 7, 8], 4 + t);
    });
    apply(c, false);
    crate::many::sets(c);
}
pub fn faults(c: &mut Ctx) {
    let t = c.thorough as usize;
    maps(c, "sets", 2, &[0, 1, 3, 4, 6, 7, 8], 5 + t);
    apply(c, true);
}
