//! Many types at once: worlds, containers and sets do not get different when they hold dozens of types.
use goggles::any_components::{AnyCloneComponentSet, AnyComponentSet};
use goggles::entity::Entity;
use goggles::resource_set::ResourceSet;
use goggles::resources::{Resources, RwResources};
use goggles::storage::VecStorage;
use goggles::world::World;
use goggles::world_common::Component;
use hibitset::BitSetLike;
use mcx::token::{self, Token};
use mcx::*;
use std::collections::BTreeSet;

#[derive(Clone)]
struct K<const N: usize>(Token);
impl<const N: usize> Component for K<N> {
    type Storage = VecStorage<K<N>>;
}
trait Held {}
impl<T> Held for T {}
/// A borrow of a resource of some type.
type Guard<'a> = Box<dyn Held + 'a>;
/// What can be done with one of the types.
struct Row {
    register: fn(&mut World) -> Option<usize>,
    unregister: fn(&mut World) -> Option<usize>,
    registered: fn(&World) -> bool,
    put: fn(&mut World, Entity, i64) -> Option<i64>,
    take: fn(&mut World, Entity) -> Option<i64>,
    get: fn(&World, Entity) -> Option<i64>,
    count: fn(&World) -> usize,
    any_insert: fn(&mut AnyComponentSet, i64) -> Option<i64>,
    any_remove: fn(&mut AnyComponentSet) -> Option<i64>,
    any_get: fn(&AnyComponentSet) -> Option<i64>,
    any_contains: fn(&AnyComponentSet) -> bool,
    cl_insert: fn(&mut AnyCloneComponentSet, i64) -> Option<i64>,
    cl_get: fn(&AnyCloneComponentSet) -> Option<i64>,
    res_insert: fn(&mut ResourceSet, i64) -> Option<i64>,
    res_remove: fn(&mut ResourceSet) -> Option<i64>,
    res_contains: fn(&ResourceSet) -> bool,
    res_read: fn(&ResourceSet) -> i64,
    res_write: fn(&ResourceSet, i64),
    wres_insert: fn(&mut World, i64) -> Option<i64>,
    wres_remove: fn(&mut World) -> Option<i64>,
    wres_read: fn(&World) -> i64,
}
const fn row<const N: usize>() -> Row {
    Row {
        register: |w| w.insert_component::<K<N>>().map(|s| s.mask().iter().count()),
        unregister: |w| w.remove_component::<K<N>>().map(|s| s.mask().iter().count()),
        registered: |w| w.contains_component::<K<N>>(),
        put: |w, e, v| w.write_component::<K<N>>().insert(e, K(Token::new(v))).unwrap().map(|c| c.0.read()),
        take: |w, e| w.write_component::<K<N>>().remove(e).unwrap().map(|c| c.0.read()),
        get: |w, e| w.read_component::<K<N>>().get(e).map(|c| c.0.read()),
        count: |w| w.read_component::<K<N>>().mask().iter().count(),
        any_insert: |s, v| s.insert(K::<N>(Token::new(v))).map(|c| c.0.read()),
        any_remove: |s| s.remove::<K<N>>().map(|c| c.0.read()),
        any_get: |s| s.get::<K<N>>().map(|c| c.0.read()),
        any_contains: |s| s.contains::<K<N>>(),
        cl_insert: |s, v| s.insert(K::<N>(Token::new(v))).map(|c| c.0.read()),
        cl_get: |s| s.get::<K<N>>().map(|c| c.0.read()),
        res_insert: |s, v| s.insert(K::<N>(Token::new(v))).map(|c| c.0.read()),
        res_remove: |s| s.remove::<K<N>>().map(|c| c.0.read()),
        res_contains: |s| s.contains::<K<N>>(),
        res_read: |s| s.borrow::<K<N>>().0.read(),
        res_write: |s, v| s.borrow_mut::<K<N>>().0.set(v),
        wres_insert: |w, v| w.insert_resource(K::<N>(Token::new(v))).map(|c| c.0.read()),
        wres_remove: |w| w.remove_resource::<K<N>>().map(|c| c.0.read()),
        wres_read: |w| w.read_resource::<K<N>>().0.read(),
    }
}
macro_rules! rows {
    ($($n:literal)*) => {
        const ROWS: &[Row] = &[$(row::<$n>()),*];
        /// Hold a borrow of the given type.
        fn hold(s: &ResourceSet, k: usize, write: bool) -> Guard<'_> {
            match k {
                $($n => if write {
                    Box::new(s.borrow_mut::<K<$n>>())
                } else {
                    Box::new(s.borrow::<K<$n>>())
                },)*
                _ => unreachable!(),
            }
        }
    };
}
rows! {0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65}
const SIZES: [usize; 6] = [5, 9, 17, 33, 65, 66];

fn ended() -> Res {
    if let Some(e) = token::error() {
        return Err(e);
    }
    ensure_eq!(token::live(), 0, "values that still exist");
    Ok(())
}

pub fn world(c: &mut Ctx) {
    c.explore(
        "many types",
        &format!("worlds with {SIZES:?} component types, two entities that have all of them; the first entity deleted immediately, by a merge, or both die; before that one type (every one) left alone, unregistered, registered again, or removed from the entity; then an entity at the same index"),
        || {
            token::reset();
            let n = *pick(&SIZES);
            let (p, what, how) = (choose(n), choose(4), choose(3));
            note(|| format!("{n} types, type {p} {}, {}", ["left alone", "unregistered", "registered again", "removed from the first entity"][what], ["the first entity deleted", "the first entity deleted by a merge", "both deleted by a merge"][how]));
            let mut w = World::new();
            for r in &ROWS[..n] {
                ensure!(!(r.registered)(&w), "a component is registered from the start");
                ensure_eq!((r.register)(&mut w), None, "storage replaced by the first registration");
            }
            let (e, f) = (w.create_entity(), w.create_entity());
            for (k, r) in ROWS[..n].iter().enumerate() {
                for (i, x) in [e, f].into_iter().enumerate() {
                    ensure_eq!((r.put)(&mut w, x, (k * 2 + i) as i64), None, "component {k} replaced for entity {i}");
                }
            }
            step();
            match what {
                0 => {}
                1 => ensure_eq!((ROWS[p].unregister)(&mut w), Some(2), "components in the storage that was unregistered"),
                2 => ensure_eq!((ROWS[p].register)(&mut w), Some(2), "components in the storage that was replaced"),
                _ => ensure_eq!((ROWS[p].take)(&mut w, e), Some(p as i64 * 2), "component removed"),
            }
            // who has component k
            let has = |k: usize, i: usize| !(k == p && (what == 1 || what == 2 || what == 3 && i == 0));
            let compare = |w: &World, es: &[(usize, Entity, bool)], when: &str| {
                for (k, r) in ROWS[..n].iter().enumerate() {
                    ensure_eq!((r.registered)(w), !(what == 1 && k == p), "whether type {k} is registered {when}");
                    if what == 1 && k == p {
                        continue;
                    }
                    let mut stored = 0;
                    for &(i, x, dead) in es {
                        let exp = if dead || !has(k, i) { None } else { Some((k * 2 + i) as i64) };
                        stored += exp.is_some() as usize;
                        ensure_eq!((r.get)(w, x), exp, "component {k} of entity {i} {when}");
                    }
                    ensure_eq!((r.count)(w), stored, "number of components {k} stored {when}");
                }
                Ok(())
            };
            compare(&w, &[(0, e, false), (1, f, false)], "before the deletion")?;
            match how {
                0 => w.delete_entity(e).map_err(|_| "deleting a live entity failed")?,
                h => {
                    w.entities().delete(e).map_err(|_| "deleting a live entity failed")?;
                    if h == 2 {
                        w.entities().delete(f).map_err(|_| "deleting a live entity failed")?;
                    }
                    compare(&w, &[(0, e, false), (1, f, false)], "before the merge")?;
                    w.merge();
                }
            }
            step();
            compare(&w, &[(0, e, true), (1, f, how == 2)], "after the deletion")?;
            let g = w.create_entity();
            for (k, r) in ROWS[..n].iter().enumerate() {
                if (r.registered)(&w) {
                    ensure_eq!((r.get)(&w, g), None, "component {k} of a new entity");
                }
            }
            state(fp(&(n, p, what, how)));
            outcome(fp(&(n, what, how)));
            drop(w);
            ended()
        },
    );
}

pub fn sets(c: &mut Ctx) {
    c.explore(
        "many types",
        &format!("sets of {SIZES:?} component types, plain and clonable: all inserted, one (every one) replaced or removed, a set of one or of all but one (every one) merged, cloned into or out of; applied to an entity that has none, one (every one) or all of them"),
        || {
            token::reset();
            let n = *pick(&SIZES);
            let (p, what) = (choose(n), choose(6));
            note(|| format!("{n} types, type {p}, {}", ["replaced", "removed", "a set of it merged", "merged into a set of it", "a set of all others merged", "cloned into a set of it"][what]));
            let mut s = AnyComponentSet::new();
            let mut cl = AnyCloneComponentSet::new();
            for (k, r) in ROWS[..n].iter().enumerate() {
                ensure_eq!((r.any_insert)(&mut s, k as i64), None, "value replaced by the first insert");
                ensure_eq!((r.cl_insert)(&mut cl, k as i64), None, "value replaced by the first insert");
            }
            // type -> expected value
            let mut m: Vec<Option<i64>> = (0..n).map(|k| Some(k as i64)).collect();
            step();
            let one = || {
                let mut o = AnyComponentSet::new();
                (ROWS[p].any_insert)(&mut o, 1000);
                o
            };
            match what {
                0 => {
                    ensure_eq!((ROWS[p].any_insert)(&mut s, 1000), m[p], "value replaced");
                    m[p] = Some(1000);
                }
                1 => {
                    ensure_eq!((ROWS[p].any_remove)(&mut s), m[p], "value removed");
                    m[p] = None;
                }
                2 => {
                    ensure_eq!(s.merge(one()), true, "whether merging one shared type replaced a value");
                    m[p] = Some(1000);
                }
                3 => {
                    let mut o = one();
                    ensure_eq!(o.merge(s), true, "whether merging into a set of one shared type replaced a value");
                    s = o;
                }
                4 => {
                    (ROWS[p].any_remove)(&mut s);
                    let mut o = AnyComponentSet::new();
                    (ROWS[p].any_insert)(&mut o, 1000);
                    ensure_eq!(o.merge(s), false, "whether merging a disjoint set replaced a value");
                    s = o;
                    m[p] = Some(1000);
                }
                _ => {
                    let mut o = one();
                    ensure_eq!(cl.clone_into_set(&mut o), true, "whether cloning into a set of one shared type replaced a value");
                    s = o;
                }
            }
            ensure_eq!(s.len(), m.iter().flatten().count(), "length of the set");
            for (k, r) in ROWS[..n].iter().enumerate() {
                ensure_eq!(((r.any_contains)(&s), (r.any_get)(&s)), (m[k].is_some(), m[k]), "value of type {k}");
                ensure_eq!((r.cl_get)(&cl), Some(k as i64), "value of type {k} in the clonable set");
            }
            // onto an entity
            let (before, clonable) = (choose(3), choose(2) == 1);
            note(|| format!("{} applied to an entity with {}", if clonable { "the clonable set" } else { "the set" }, ["nothing", "that type", "all types"][before]));
            let mut w = World::new();
            for r in &ROWS[..n] {
                (r.register)(&mut w);
            }
            let (e, other) = (w.create_entity(), w.create_entity());
            let had = |k: usize| before == 2 || before == 1 && k == p;
            for (k, r) in ROWS[..n].iter().enumerate() {
                if had(k) {
                    (r.put)(&mut w, e, 500);
                }
                (r.put)(&mut w, other, 600);
            }
            let m = if clonable { (0..n).map(|k| Some(k as i64)).collect() } else { m };
            step();
            let r = if clonable { cl.insert_into_world(&mut w, e) } else { std::mem::take(&mut s).insert_into_world(&mut w, e) };
            let exp = (0..n).any(|k| had(k) && m[k].is_some());
            ensure_eq!(r.ok(), Some(exp), "whether applying replaced a component");
            for (k, r) in ROWS[..n].iter().enumerate() {
                ensure_eq!((r.get)(&w, e), m[k].or(if had(k) { Some(500) } else { None }), "component {k} of the entity");
                ensure_eq!((r.get)(&w, other), Some(600), "component {k} of another entity");
            }
            state(fp(&(n, p, what, before, clonable)));
            outcome(fp(&(n, what, before, clonable)));
            drop((s, cl, w));
            ended()
        },
    );
}

pub fn containers(c: &mut Ctx) {
    c.explore(
        "many types",
        &format!("containers of {SIZES:?} types: one (every one) removed, replaced or borrowed (shared, exclusive) while every other one is read, written and replaced; resource set and world"),
        || {
            token::reset();
            let n = *pick(&SIZES);
            let (p, what) = (choose(n), choose(5));
            note(|| format!("{n} types, type {p} {}", ["removed", "replaced", "borrowed", "borrowed exclusively", "removed from and replaced in a world"][what]));
            if what == 4 {
                let mut w = World::new();
                for (k, r) in ROWS[..n].iter().enumerate() {
                    ensure_eq!((r.wres_insert)(&mut w, k as i64), None, "value replaced by the first insert");
                }
                ensure_eq!((ROWS[p].wres_insert)(&mut w, 1000), Some(p as i64), "value replaced");
                for (k, r) in ROWS[..n].iter().enumerate() {
                    ensure_eq!((r.wres_read)(&w), if k == p { 1000 } else { k as i64 }, "value of type {k}");
                }
                ensure_eq!((ROWS[p].wres_remove)(&mut w), Some(1000), "value removed");
                ensure_eq!((ROWS[p].wres_remove)(&mut w), None, "value removed again");
                for (k, r) in ROWS[..n].iter().enumerate() {
                    if k != p {
                        ensure_eq!((r.wres_remove)(&mut w), Some(k as i64), "value of type {k}");
                    }
                }
                state(fp(&(n, p, what)));
                outcome(fp(&(n, what)));
                drop(w);
                return ended();
            }
            let mut s = ResourceSet::new();
            for (k, r) in ROWS[..n].iter().enumerate() {
                ensure!(!(r.res_contains)(&s), "type {k} is there before it is inserted");
                ensure_eq!((r.res_insert)(&mut s, k as i64), None, "value replaced by the first insert");
            }
            step();
            match what {
                0 => ensure_eq!((ROWS[p].res_remove)(&mut s), Some(p as i64), "value removed"),
                1 => ensure_eq!((ROWS[p].res_insert)(&mut s, p as i64 + 100), Some(p as i64), "value replaced"),
                _ => {}
            }
            let g = (what >= 2).then(|| hold(&s, p, what == 3));
            for (k, r) in ROWS[..n].iter().enumerate() {
                ensure_eq!((r.res_contains)(&s), !(what == 0 && k == p), "whether type {k} is there");
                let read = catch(|| (r.res_read)(&s)).ok();
                let exp = if k == p { [None, Some(k as i64 + 100), Some(k as i64), None][what] } else { Some(k as i64) };
                ensure_eq!(read, exp, "value of type {k}");
                let wrote = catch(|| (r.res_write)(&s, k as i64 + 200)).is_ok();
                ensure_eq!(wrote, k != p || what == 1, "whether type {k} could be written");
            }
            drop(g);
            step();
            for (k, r) in ROWS[..n].iter().enumerate() {
                let exp = if k != p || what == 1 { Some(k as i64 + 200) } else if what == 0 { None } else { Some(k as i64) };
                ensure_eq!((r.res_remove)(&mut s), exp, "value of type {k} at the end");
            }
            state(fp(&(n, p, what)));
            outcome(fp(&(n, what)));
            drop(s);
            ended()
        },
    );
    c.explore(
        "many readers",
        "1, 2^k-1, 2^k and 2^k+1 (up to 2^17) shared borrows of one value outstanding: reading works, writing does not, until all (or all but one) are released, in either order",
        || {
            token::reset();
            let k = choose(18);
            let n = ((1usize << k) + choose(3)).saturating_sub(1).max(1);
            let (left, rev) = (choose(2), choose(2) == 1);
            note(|| format!("{n} shared borrows, {left} kept{}", if rev { ", released newest first" } else { "" }));
            let mut s = ResourceSet::new();
            (ROWS[0].res_insert)(&mut s, 5);
            (ROWS[1].res_insert)(&mut s, 6);
            let mut v: std::collections::VecDeque<_> = (0..n).map(|_| s.borrow::<K<0>>()).collect();
            step();
            ensure!(catch(|| (ROWS[0].res_write)(&s, 7)).is_err(), "written while {n} shared borrows are outstanding");
            (ROWS[1].res_write)(&s, 8);
            while v.len() > left {
                if rev {
                    v.pop_back();
                } else {
                    v.pop_front();
                }
            }
            step();
            let w = catch(|| (ROWS[0].res_write)(&s, 9)).is_ok();
            ensure_eq!(w, left == 0, "whether it can be written after releasing all but {left}");
            ensure_eq!((ROWS[0].res_read)(&s), if w { 9 } else { 5 }, "the value");
            state(fp(&(n, left)));
            outcome(fp(&left));
            drop(v);
            drop(s);
            ended()
        },
    );
}

/// Declared accesses to many resources.
pub fn accesses(c: &mut Ctx) {
    const N: [u32; 6] = [8, 9, 31, 64, 65, 300];
    const HOW: [&str; 4] = ["nothing", "reads", "writes", "both"];
    type R = RwResources<u32>;
    fn access(r: &mut R, how: usize, i: u32) {
        match how {
            0 => {}
            1 => r.add_read(i),
            2 => r.add_write(i),
            _ => {
                r.add_write(i);
                r.add_read(i);
            }
        }
    }
    c.explore(
        "large sets",
        &format!("two sets of {N:?} resources each read or written, disjoint but for one resource (the first, one in the middle, the last; or none) which each accesses in any way ({HOW:?}); conflict both ways, union both ways against every single access"),
        || {
            let (na, nb) = (*pick(&N), *pick(&N));
            let (wa, wb) = (choose(2) == 1, choose(2) == 1);
            let (ha, hb) = (choose(4), choose(4));
            let (pa, pb) = (choose(3), choose(3));
            note(|| format!("{na} {} and {nb} {} resources, a shared one: {} by the first as number {}, {} by the second as number {}", if wa { "written" } else { "read" }, if wb { "written" } else { "read" }, HOW[ha], [0, na / 2, na][pa], HOW[hb], [0, nb / 2, nb][pb]));
            let make = |n: u32, base: u32, w: bool, h: usize, p: usize| {
                let at = [0, n / 2, n][p];
                let mut r = R::new();
                for i in 0..=n {
                    if i == at {
                        access(&mut r, h, 7777);
                    }
                    if i < n {
                        access(&mut r, if w { 2 } else { 1 }, base + i);
                    }
                }
                r
            };
            let (a, b) = (make(na, 0, wa, ha, pa), make(nb, 1000, wb, hb, pb));
            step();
            let exp = ha >= 2 && hb >= 1 || hb >= 2 && ha >= 1;
            ensure_eq!(a.conflicts_with(&b), exp, "conflict");
            ensure_eq!(b.conflicts_with(&a), exp, "conflict the other way");
            for (x, y, what) in [(&a, &b, "first with second"), (&b, &a, "second with first")] {
                let mut u = x.clone();
                u.union(y);
                let look: BTreeSet<u32> = [0, na / 2, na - 1, na, 1000, 1000 + nb / 2, 1000 + nb - 1, 1000 + nb, 7777].into();
                for i in look {
                    let how = match i {
                        7777 => (ha.max(1) >= 2 || hb >= 2, ha >= 1 || hb >= 1),
                        i if i < 1000 => (i < na && wa, i < na),
                        i => (i < 1000 + nb && wb, i < 1000 + nb),
                    };
                    ensure_eq!(u.conflicts_with(&R::new().write(i)), how.1, "union of {what}: whether {i} is accessed");
                    ensure_eq!(u.conflicts_with(&R::new().read(i)), how.0, "union of {what}: whether {i} is written");
                }
                let writes: BTreeSet<u32> = u.writes().copied().collect();
                let all: BTreeSet<u32> = u.reads().chain(u.writes()).copied().collect();
                let e = |w: bool| -> BTreeSet<u32> {
                    let mut s = BTreeSet::new();
                    if wa || !w {
                        s.extend(0..na);
                    }
                    if wb || !w {
                        s.extend(1000..1000 + nb);
                    }
                    if if w { ha >= 2 || hb >= 2 } else { ha >= 1 || hb >= 1 } {
                        s.insert(7777);
                    }
                    s
                };
                ensure!(writes == e(true), "union of {what}: writes {writes:?}");
                ensure!(all == e(false), "union of {what}: accesses {all:?}");
            }
            state(fp(&(na, nb, wa, wb, ha, hb)));
            outcome(fp(&exp));
            Ok(())
        },
    );
}
