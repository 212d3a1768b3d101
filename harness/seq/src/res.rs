//! R01 (sequential part), R02, R03: resource containers, resource sets, fetching.
use goggles::fetch_resources::{FetchNone, FetchResources};
use goggles::resource_set::{Read, ResourceSet, Write};
use goggles::resources::{ResourceConflict, Resources, RwResources};
use goggles::storage::{HashMapStorage, VecStorage};
use goggles::world::{Entities, ReadComponent, ReadResource, World, WriteComponent, WriteResource};
use goggles::world_common::{Component, WorldResourceId, WorldResources};
use goggles::{Entity, MaskedStorage};
use mcx::token::{self, Token};
use mcx::*;
use std::cell::Cell;
use std::collections::BTreeMap;

/// Two different types of the same name (`type_name` is equal for them): identity must be the type's.
pub trait Twin {
    type T;
}
macro_rules! twins {
    ($($sel:ident $n:ident: $s:ident;)*) => { $(
        pub struct $sel;
        pub type $n = <$sel as Twin>::T;
        const _: () = {
            pub struct Same(pub Token);
            impl Twin for $sel { type T = Same; }
            impl Component for Same { type Storage = $s<Same>; }
            impl Val for Same {
                fn mk(v: i64) -> Self { Same(Token::new(v)) }
                fn tok(&self) -> &Token { &self.0 }
                fn tok_mut(&mut self) -> &mut Token { &mut self.0 }
            }
        };
    )* };
}
twins! {
    SelA A: VecStorage;
    SelB B: HashMapStorage;
}
/// Send but not Sync: only mutable access exists.
pub struct C(pub Token, #[allow(dead_code)] Cell<u8>);
impl Component for C {
    type Storage = VecStorage<C>;
}
trait Val: Send + 'static {
    fn mk(v: i64) -> Self;
    fn tok(&self) -> &Token;
    fn tok_mut(&mut self) -> &mut Token;
}
macro_rules! val {
    ($t:ident $(, $x:expr)*) => {
        impl Val for $t {
            fn mk(v: i64) -> Self { $t(Token::new(v) $(, $x)*) }
            fn tok(&self) -> &Token { &self.0 }
            fn tok_mut(&mut self) -> &mut Token { &mut self.0 }
        }
    };
}
val!(C, Cell::new(0));

/// A held borrow.
trait Held {
    fn read(&self) -> i64;
    fn write(&mut self, _: i64) {
        unreachable!()
    }
}
struct Sh<G>(G);
struct Ex<G>(G);
impl<T: Val, G: std::ops::Deref<Target = T>> Held for Sh<G> {
    fn read(&self) -> i64 {
        self.0.tok().read()
    }
}
impl<T: Val, G: std::ops::DerefMut<Target = T>> Held for Ex<G> {
    fn read(&self) -> i64 {
        self.0.tok().read()
    }
    fn write(&mut self, v: i64) {
        self.0.tok_mut().set(v)
    }
}
struct ShC<G>(G, Entity);
struct ExC<G>(G, Entity);
impl<'a, T: Val + Component> Held for ShC<ReadComponent<'a, T>>
where
    T::Storage: Send + Sync,
{
    fn read(&self) -> i64 {
        self.0.get(self.1).unwrap().tok().read()
    }
}
impl<'a, T: Val + Component> Held for ExC<WriteComponent<'a, T>>
where
    T::Storage: Send,
{
    fn read(&self) -> i64 {
        self.0.get(self.1).unwrap().tok().read()
    }
    fn write(&mut self, v: i64) {
        self.0.get_mut(self.1).unwrap().tok_mut().set(v)
    }
}

/// The storage of component A, as a resource.
type SA = MaskedStorage<VecStorage<A>>;
fn sa(v: i64) -> SA {
    let mut s = SA::default();
    s.insert(2, A::mk(v));
    s
}
struct ShS<G>(G);
struct ExS<G>(G);
impl<G: std::ops::Deref<Target = SA>> Held for ShS<G> {
    fn read(&self) -> i64 {
        self.0.get(2).unwrap().0.read()
    }
}
impl<G: std::ops::DerefMut<Target = SA>> Held for ExS<G> {
    fn read(&self) -> i64 {
        self.0.get(2).unwrap().0.read()
    }
    fn write(&mut self, v: i64) {
        self.0.get_mut(2).unwrap().0.set(v)
    }
}

/// One uniform face: a container with numbered slots.
trait Box_ {
    fn name(&self, s: usize) -> &'static str;
    fn slots(&self) -> usize;
    fn sync(&self, s: usize) -> bool;
    /// which container a slot belongs to
    fn group(&self, _: usize) -> usize {
        0
    }
    fn insert(&mut self, s: usize, v: i64) -> Option<i64>;
    fn remove(&mut self, s: usize) -> Option<i64>;
    fn contains(&self, s: usize) -> bool;
    fn exclusive(&mut self, s: usize, v: i64) -> i64;
    /// # Safety: the result must not outlive the container.
    unsafe fn shared(&self, s: usize, fetch: bool) -> Box<dyn Held>;
    unsafe fn unique(&self, s: usize, fetch: bool) -> Box<dyn Held>;
}
/// Two containers side by side: the slots of the first, then those of the second.
struct Two<T>(T, T, &'static [&'static str]);
impl<T: Box_> Two<T> {
    fn at(&self, s: usize) -> (&T, usize) {
        let n = self.0.slots();
        if s < n { (&self.0, s) } else { (&self.1, s - n) }
    }
    fn at_mut(&mut self, s: usize) -> (&mut T, usize) {
        let n = self.0.slots();
        if s < n { (&mut self.0, s) } else { (&mut self.1, s - n) }
    }
}
impl<T: Box_> Box_ for Two<T> {
    fn name(&self, s: usize) -> &'static str {
        self.2[s]
    }
    fn slots(&self) -> usize {
        2 * self.0.slots()
    }
    fn group(&self, s: usize) -> usize {
        s / self.0.slots()
    }
    fn sync(&self, s: usize) -> bool {
        let (b, s) = self.at(s);
        b.sync(s)
    }
    fn insert(&mut self, s: usize, v: i64) -> Option<i64> {
        let (b, s) = self.at_mut(s);
        b.insert(s, v)
    }
    fn remove(&mut self, s: usize) -> Option<i64> {
        let (b, s) = self.at_mut(s);
        b.remove(s)
    }
    fn contains(&self, s: usize) -> bool {
        let (b, s) = self.at(s);
        b.contains(s)
    }
    fn exclusive(&mut self, s: usize, v: i64) -> i64 {
        let (b, s) = self.at_mut(s);
        b.exclusive(s, v)
    }
    unsafe fn shared(&self, s: usize, fetch: bool) -> Box<dyn Held> {
        let (b, s) = self.at(s);
        b.shared(s, fetch)
    }
    unsafe fn unique(&self, s: usize, fetch: bool) -> Box<dyn Held> {
        let (b, s) = self.at(s);
        b.unique(s, fetch)
    }
}
const TWO_SETS: &[&str] = &["first's A", "first's B", "first's C", "second's A", "second's B", "second's C"];
const TWO_WORLDS: &[&str] = &[
    "first's resource A", "first's resource B", "first's component A", "first's component B", "first's component C", "first's storage resource",
    "second's resource A", "second's resource B", "second's component A", "second's component B", "second's component C", "second's storage resource",
];
struct Rs(ResourceSet);
impl Box_ for Rs {
    fn slots(&self) -> usize {
        3
    }
    fn name(&self, s: usize) -> &'static str {
        ["A", "B", "C (not Sync)"][s]
    }
    fn sync(&self, s: usize) -> bool {
        s < 2
    }
    fn insert(&mut self, s: usize, v: i64) -> Option<i64> {
        match s {
            0 => self.0.insert(A::mk(v)).map(|x| x.0.read()),
            1 => self.0.insert(B::mk(v)).map(|x| x.0.read()),
            _ => self.0.insert(C::mk(v)).map(|x| x.0.read()),
        }
    }
    fn remove(&mut self, s: usize) -> Option<i64> {
        match s {
            0 => self.0.remove::<A>().map(|x| x.0.read()),
            1 => self.0.remove::<B>().map(|x| x.0.read()),
            _ => self.0.remove::<C>().map(|x| x.0.read()),
        }
    }
    fn contains(&self, s: usize) -> bool {
        match s {
            0 => self.0.contains::<A>(),
            1 => self.0.contains::<B>(),
            _ => self.0.contains::<C>(),
        }
    }
    fn exclusive(&mut self, s: usize, v: i64) -> i64 {
        let t = match s {
            0 => &mut self.0.get_mut::<A>().0,
            1 => &mut self.0.get_mut::<B>().0,
            _ => &mut self.0.get_mut::<C>().0,
        };
        let o = t.read();
        t.set(v);
        o
    }
    unsafe fn shared(&self, s: usize, fetch: bool) -> Box<dyn Held> {
        let r: &'static ResourceSet = &*(&self.0 as *const _);
        match (s, fetch) {
            (0, false) => Box::new(Sh(r.borrow::<A>())),
            (1, false) => Box::new(Sh(r.borrow::<B>())),
            (0, true) => Box::new(Sh(r.fetch::<Read<A>>())),
            _ => Box::new(Sh(r.fetch::<Read<B>>())),
        }
    }
    unsafe fn unique(&self, s: usize, fetch: bool) -> Box<dyn Held> {
        let r: &'static ResourceSet = &*(&self.0 as *const _);
        match (s, fetch) {
            (0, false) => Box::new(Ex(r.borrow_mut::<A>())),
            (1, false) => Box::new(Ex(r.borrow_mut::<B>())),
            (_, false) => Box::new(Ex(r.borrow_mut::<C>())),
            (0, true) => Box::new(Ex(r.fetch::<Write<A>>())),
            (1, true) => Box::new(Ex(r.fetch::<Write<B>>())),
            (_, true) => Box::new(Ex(r.fetch::<Write<C>>())),
        }
    }
}
struct Wo(World, Entity);
impl Wo {
    fn new() -> Wo {
        let mut w = World::new();
        let e = w.create_entity();
        Wo(w, e)
    }
    fn comp<T: Component + Val>(&mut self, v: i64) -> Option<i64>
    where
        T::Storage: Default + Send,
    {
        let old = self.0.insert_component::<T>().map(|s| s.get(self.1.index()).unwrap().tok().read());
        assert!(self.0.get_component_mut::<T>().insert(self.1, T::mk(v)).unwrap().is_none(), "fresh storage is not empty");
        old
    }
}
impl Box_ for Wo {
    fn slots(&self) -> usize {
        6
    }
    fn name(&self, s: usize) -> &'static str {
        ["resource A", "resource B", "component A", "component B", "component C (not Sync)", "resource of the type of component A's storage"][s]
    }
    fn sync(&self, s: usize) -> bool {
        s != 4
    }
    fn insert(&mut self, s: usize, v: i64) -> Option<i64> {
        match s {
            0 => self.0.insert_resource(A::mk(v)).map(|x| x.0.read()),
            1 => self.0.insert_resource(B::mk(v)).map(|x| x.0.read()),
            2 => self.comp::<A>(v),
            3 => self.comp::<B>(v),
            4 => self.comp::<C>(v),
            _ => self.0.insert_resource(sa(v)).map(|s| s.get(2).unwrap().0.read()),
        }
    }
    fn remove(&mut self, s: usize) -> Option<i64> {
        let i = self.1.index();
        match s {
            0 => self.0.remove_resource::<A>().map(|x| x.0.read()),
            1 => self.0.remove_resource::<B>().map(|x| x.0.read()),
            2 => self.0.remove_component::<A>().map(|s| s.get(i).unwrap().0.read()),
            3 => self.0.remove_component::<B>().map(|s| s.get(i).unwrap().0.read()),
            5 => self.0.remove_resource::<SA>().map(|s| s.get(2).unwrap().0.read()),
            _ => self.0.remove_component::<C>().map(|s| s.get(i).unwrap().0.read()),
        }
    }
    fn contains(&self, s: usize) -> bool {
        match s {
            0 => self.0.contains_resource::<A>(),
            1 => self.0.contains_resource::<B>(),
            2 => self.0.contains_component::<A>(),
            3 => self.0.contains_component::<B>(),
            5 => self.0.contains_resource::<SA>(),
            _ => self.0.contains_component::<C>(),
        }
    }
    fn exclusive(&mut self, s: usize, v: i64) -> i64 {
        let e = self.1;
        fn sw(t: &mut Token, v: i64) -> i64 {
            let o = t.read();
            t.set(v);
            o
        }
        match s {
            0 => sw(&mut self.0.get_resource_mut::<A>().0, v),
            1 => sw(&mut self.0.get_resource_mut::<B>().0, v),
            2 => sw(&mut self.0.get_component_mut::<A>().get_mut(e).unwrap().0, v),
            3 => sw(&mut self.0.get_component_mut::<B>().get_mut(e).unwrap().0, v),
            5 => sw(&mut self.0.get_resource_mut::<SA>().get_mut(2).unwrap().0, v),
            _ => sw(&mut self.0.get_component_mut::<C>().get_mut(e).unwrap().0, v),
        }
    }
    unsafe fn shared(&self, s: usize, fetch: bool) -> Box<dyn Held> {
        let w: &'static World = &*(&self.0 as *const _);
        let e = self.1;
        match (s, fetch) {
            (0, false) => Box::new(Sh(w.read_resource::<A>())),
            (1, false) => Box::new(Sh(w.read_resource::<B>())),
            (2, false) => Box::new(ShC(w.read_component::<A>(), e)),
            (3, false) => Box::new(ShC(w.read_component::<B>(), e)),
            (0, true) => Box::new(Sh(w.fetch::<ReadResource<A>>())),
            (1, true) => Box::new(Sh(w.fetch::<ReadResource<B>>())),
            (2, true) => Box::new(ShC(w.fetch::<ReadComponent<A>>(), e)),
            (5, false) => Box::new(ShS(w.read_resource::<SA>())),
            (5, true) => Box::new(ShS(w.fetch::<ReadResource<SA>>())),
            _ => Box::new(ShC(w.fetch::<ReadComponent<B>>(), e)),
        }
    }
    unsafe fn unique(&self, s: usize, fetch: bool) -> Box<dyn Held> {
        let w: &'static World = &*(&self.0 as *const _);
        let e = self.1;
        match (s, fetch) {
            (0, false) => Box::new(Ex(w.write_resource::<A>())),
            (1, false) => Box::new(Ex(w.write_resource::<B>())),
            (2, false) => Box::new(ExC(w.write_component::<A>(), e)),
            (3, false) => Box::new(ExC(w.write_component::<B>(), e)),
            (4, false) => Box::new(ExC(w.write_component::<C>(), e)),
            (0, true) => Box::new(Ex(w.fetch::<WriteResource<A>>())),
            (1, true) => Box::new(Ex(w.fetch::<WriteResource<B>>())),
            (2, true) => Box::new(ExC(w.fetch::<WriteComponent<A>>(), e)),
            (3, true) => Box::new(ExC(w.fetch::<WriteComponent<B>>(), e)),
            (5, false) => Box::new(ExS(w.write_resource::<SA>())),
            (5, true) => Box::new(ExS(w.fetch::<WriteResource<SA>>())),
            _ => Box::new(ExC(w.fetch::<WriteComponent<C>>(), e)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Insert,
    Remove,
    GetMut,
    Contains,
    Shared,
    Unique,
    FetchShared,
    FetchUnique,
    /// release the oldest / newest outstanding borrow
    ReleaseOld,
    ReleaseNew,
    /// borrow, then unwind while holding it
    UnwindShared,
    UnwindUnique,
    WriteNew,
}
use Op::*;

fn history(mut b: Box<dyn Box_>, slots: &[usize], ops: &[Op], depth: usize) -> Res {
    let mut map: BTreeMap<usize, i64> = Default::default();
    // outstanding borrows, oldest first
    let mut held: Vec<(usize, bool, Box<dyn Held>)> = vec![];
    let mut next = 0;
    let mut menu: Vec<(Op, usize)> = vec![];
    for &o in ops {
        if matches!(o, ReleaseOld | ReleaseNew | WriteNew) {
            menu.push((o, 0));
        } else {
            menu.extend(slots.iter().filter(|&&s| b.sync(s) || !matches!(o, Shared | FetchShared | UnwindShared)).map(|&s| (o, s)));
        }
    }
    // a non-trivial start: the first slot is filled
    ensure!(b.insert(slots[0], 1).is_none(), "insert into a new container returned something");
    map.insert(slots[0], 1);
    for _ in 0..depth {
        let (o, s) = *pick(&menu);
        step();
        next += 1;
        let v = 100 + next;
        let can_mut = held.iter().all(|h| b.group(h.0) != b.group(s));
        let readers = held.iter().filter(|h| h.0 == s && !h.1).count();
        let writer = held.iter().any(|h| h.0 == s && h.1);
        note(|| format!("{o:?} {} (value {v}; {} borrows outstanding)", b.name(s), held.len()));
        match o {
            Insert if can_mut => ensure_eq!(b.insert(s, v), map.insert(s, v), "insert {} returned", b.name(s)),
            Remove if can_mut => ensure_eq!(b.remove(s), map.remove(&s), "remove {} returned", b.name(s)),
            GetMut if can_mut => {
                let r = catch(|| b.exclusive(s, v));
                ensure_eq!(r.as_ref().ok(), map.get(&s), "exclusive access to {}", b.name(s));
                if r.is_ok() {
                    map.insert(s, v);
                }
            }
            Contains => ensure_eq!(b.contains(s), map.contains_key(&s), "contains {}", b.name(s)),
            Insert | Remove | GetMut => return Ok(()), // the borrow checker forbids it
            Shared | FetchShared => {
                let r = catch(|| unsafe { b.shared(s, o == FetchShared) });
                let ok = map.contains_key(&s) && !writer;
                ensure!(r.is_ok() == ok, "shared borrow of {} with {readers} readers, writer {writer}, present {}: {}", b.name(s), map.contains_key(&s), if ok { "panicked" } else { "succeeded" });
                if let Ok(g) = r {
                    ensure_eq!(g.read(), map[&s], "value read through the borrow of {}", b.name(s));
                    held.push((s, false, g));
                }
            }
            Unique | FetchUnique => {
                let r = catch(|| unsafe { b.unique(s, o == FetchUnique) });
                let ok = map.contains_key(&s) && !writer && readers == 0;
                ensure!(r.is_ok() == ok, "exclusive borrow of {} with {readers} readers, writer {writer}, present {}: {}", b.name(s), map.contains_key(&s), if ok { "panicked" } else { "succeeded" });
                if let Ok(mut g) = r {
                    ensure_eq!(g.read(), map[&s], "value read through the borrow of {}", b.name(s));
                    g.write(v);
                    map.insert(s, v);
                    held.push((s, true, g));
                }
            }
            WriteNew => match held.last_mut() {
                Some((s, true, g)) => {
                    g.write(v);
                    map.insert(*s, v);
                }
                _ => return Ok(()),
            },
            ReleaseOld | ReleaseNew => {
                if held.is_empty() || (o == ReleaseNew && held.len() == 1) {
                    return Ok(()); // nothing new
                }
                drop(if o == ReleaseOld { held.remove(0) } else { held.pop().unwrap() });
            }
            UnwindShared => {
                let r = catch(|| {
                    let g = unsafe { b.shared(s, false) };
                    let _g = g;
                    if true {
                        panic!("mine");
                    }
                });
                let ok = map.contains_key(&s) && !writer;
                ensure!((r.as_ref().err().map(|m| m.as_str()) == Some("mine")) == ok, "shared borrow of {}: {r:?}", b.name(s));
            }
            UnwindUnique => {
                let r = catch(|| {
                    let mut g = unsafe { b.unique(s, false) };
                    g.write(v);
                    if true {
                        panic!("mine");
                    }
                });
                let ok = map.contains_key(&s) && !writer && readers == 0;
                ensure!((r.as_ref().err().map(|m| m.as_str()) == Some("mine")) == ok, "exclusive borrow of {}: {r:?}", b.name(s));
                if ok {
                    map.insert(s, v);
                }
            }
        }
        if fresh() {
            for &s in slots {
                ensure_eq!(b.contains(s), map.contains_key(&s), "contains {}", b.name(s));
            }
            for (s, _, g) in &held {
                ensure_eq!(g.read(), map[s], "value seen through the outstanding borrow of {}", b.name(*s));
            }
            if let Some(e) = token::error() {
                return Err(e);
            }
            ensure_eq!(token::live(), map.len(), "values alive");
            state(fp(&(&map.keys().collect::<Vec<_>>(), held.iter().map(|h| (h.0, h.1)).collect::<Vec<_>>())));
        }
    }
    let n = held.len();
    held.clear();
    // everything is released again
    for &s in slots {
        let r = catch(|| drop(unsafe { b.unique(s, false) }));
        ensure_eq!(r.is_ok(), map.contains_key(&s), "exclusive borrow of {} at the end", b.name(s));
        if map.contains_key(&s) {
            ensure_eq!(b.exclusive(s, 0), map[&s], "final value of {}", b.name(s));
        }
    }
    outcome(fp(&(map.len(), n)));
    drop(b);
    ensure_eq!(token::live(), 0, "values left when the container was dropped");
    match token::error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn r01(c: &mut Ctx) {
    const ALL: &[Op] = &[Insert, Remove, GetMut, Shared, Unique, FetchShared, FetchUnique, ReleaseOld, ReleaseNew, UnwindShared, UnwindUnique, WriteNew];
    const CORE: &[Op] = &[Insert, Remove, Shared, Unique, ReleaseOld, ReleaseNew];
    let (d, e) = c.q((4, 6), (5, 8));
    c.explore("set, all operations", &format!("ResourceSet with types A, B and a non-Sync C: every history of {d} of {ALL:?}; values, membership and every outstanding borrow compared with a map plus reader/writer counts"), move || {
        history(Box::new(Rs(ResourceSet::new())), &[0, 1, 2], ALL, d)
    });
    c.explore("set, deep", &format!("ResourceSet with A and B: every history of {e} of {CORE:?}"), move || {
        history(Box::new(Rs(ResourceSet::new())), &[0, 1], CORE, e)
    });
    c.explore("world, all operations", &format!("World, resource and component of the same type A, and non-Sync component C: every history of {d} of {ALL:?}"), move || {
        history(Box::new(Wo::new()), &[0, 2, 4], ALL, d)
    });
    c.explore("world, storage as resource", &format!("World, resource A, component A and a resource whose type is the storage of component A: every history of {d} of {ALL:?}"), move || {
        history(Box::new(Wo::new()), &[2, 0, 5], ALL, d)
    });
    c.explore("world, deep", &format!("World, resources A, B and components A, B: every history of {} of {CORE:?}", e - 1), move || {
        history(Box::new(Wo::new()), &[0, 1, 2, 3], CORE, e - 1)
    });
    const LOOKS: &[Op] = &[Insert, Remove, GetMut, Contains, UnwindShared, UnwindUnique];
    let l = c.q(5, 6);
    c.explore("set, looks", &format!("ResourceSet with A and B: every history of {l} of {LOOKS:?}"), move || history(Box::new(Rs(ResourceSet::new())), &[0, 1], LOOKS, l));
    c.explore("world, looks", &format!("World, resource and component A: every history of {l} of {LOOKS:?}"), move || history(Box::new(Wo::new()), &[0, 2], LOOKS, l));
    let w = c.q(4, 5);
    c.explore("two sets side by side", &format!("two ResourceSets, types A and B in the first, A in the second: every history of {w} of {ALL:?}"), move || history(Box::new(Two(Rs(ResourceSet::new()), Rs(ResourceSet::new()), TWO_SETS)), &[0, 3, 1], ALL, w));
    c.explore("two worlds side by side", &format!("two Worlds, resource A and component A in each: every history of {w} of {CORE:?} and looks"), move || history(Box::new(Two(Wo::new(), Wo::new(), TWO_WORLDS)), &[0, 6, 2, 8], &[Insert, Remove, Contains, Shared, Unique, ReleaseOld, ReleaseNew], w));
    c.explore("two sets side by side, looks", &format!("two ResourceSets, type A in each: every history of {l} of {LOOKS:?}"), move || history(Box::new(Two(Rs(ResourceSet::new()), Rs(ResourceSet::new()), TWO_SETS)), &[0, 3], LOOKS, l));
    c.watched(|c| {
        let (d, e) = c.q((3, 5), (4, 6));
        c.explore("set, all operations", &format!("ResourceSet with types A, B and a non-Sync C: every history of {d} of {ALL:?}"), move || history(Box::new(Rs(ResourceSet::new())), &[0, 1, 2], ALL, d));
        c.explore("world, deep", &format!("World, resource and component A, resource B: every history of {e} of {CORE:?}"), move || history(Box::new(Wo::new()), &[0, 2, 1], CORE, e));
    });
    crate::many::containers(c);
}

// ---------------------------------------------------------------------------------- R02

type R = RwResources<u8>;
/// reads, writes as declared: bit masks
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, Debug)]
struct Acc {
    r: u8,
    w: u8,
}
impl Acc {
    fn any(self) -> u8 {
        self.r | self.w
    }
    fn conflicts(self, o: Acc) -> bool {
        self.w & o.any() != 0 || o.w & self.any() != 0
    }
    fn union(self, o: Acc) -> Acc {
        Acc { r: self.r | o.r, w: self.w | o.w }
    }
}
fn bits_of<'a>(i: impl Iterator<Item = &'a u8>) -> u8 {
    i.fold(0, |a, x| a | 1 << x)
}
fn same(r: &R, a: Acc, what: &str) -> Res {
    let (rd, wr) = (bits_of(r.reads()), bits_of(r.writes()));
    ensure!(wr == a.w, "{what}: writes {wr:#b}, declared {:#b}", a.w);
    ensure!(rd | wr == a.any(), "{what}: accesses {:#b}, declared {:#b}", rd | wr, a.any());
    Ok(())
}
const STYLES: usize = 6;
/// Builds a set with this access by one of several API styles (each in both orders).
fn build(a: Acc, n: u8, style: usize) -> R {
    let rs = || (0..n).filter(move |i| a.r >> i & 1 == 1);
    let ws = || (0..n).filter(move |i| a.w >> i & 1 == 1);
    let mut x = R::new();
    match style {
        0 => RwResources::from_iters(rs(), ws()),
        1 => {
            rs().for_each(|i| x.add_read(i));
            ws().for_each(|i| x.add_write(i));
            x
        }
        2 => {
            ws().for_each(|i| x.add_write(i));
            rs().for_each(|i| x.add_read(i));
            x
        }
        3 => {
            x.add_reads(rs().collect::<Vec<_>>().into_iter().rev());
            x.add_writes(ws());
            x
        }
        4 => {
            for i in 0..n {
                if a.w >> i & 1 == 1 {
                    x = x.write(i);
                }
                if a.r >> i & 1 == 1 {
                    x = x.read(i);
                }
            }
            x
        }
        _ => {
            // by union of single declarations
            for i in (0..n).rev() {
                if a.r >> i & 1 == 1 {
                    x.union(&R::new().read(i));
                }
                if a.w >> i & 1 == 1 {
                    x.union(&R::new().write(i));
                }
            }
            x
        }
    }
}
fn acc(n: u8) -> Acc {
    Acc { r: choose(1 << n) as u8, w: choose(1 << n) as u8 }
}
fn conflict(x: &R, y: &R, a: Acc, b: Acc, what: &str) -> Res {
    let e = a.conflicts(b);
    ensure!(x.conflicts_with(y) == e, "{what}: {a:?} against {b:?}: conflict expected {e}");
    ensure!(y.conflicts_with(x) == e, "{what}: {b:?} against {a:?}: not symmetric");
    Ok(())
}
pub fn r02(c: &mut Ctx) {
    let n: u8 = c.q(2, 3);
    c.explore("conflicts", &format!("every pair of declared accesses over {} resources, built in {STYLES} ways each: declared sets, conflict both ways, union both ways, union against every single access", n + 1), move || {
        let n = n + 1;
        let (a, b) = (acc(n), acc(n));
        let (sa, sb) = (choose(STYLES), choose(STYLES));
        let (x, y) = (build(a, n, sa), build(b, n, sb));
        note(|| format!("{a:?} (style {sa}) and {b:?} (style {sb})"));
        step();
        same(&x, a, "declared set")?;
        conflict(&x, &y, a, b, "sets")?;
        for (x, y, a, b) in [(&x, &y, a, b), (&y, &x, b, a)] {
            let mut u = x.clone();
            u.union(y);
            same(&u, a.union(b), "union")?;
            for i in 0..n {
                for one in [Acc { r: 1 << i, w: 0 }, Acc { r: 0, w: 1 << i }] {
                    conflict(&u, &build(one, n, 1), a.union(b), one, "union against one access")?;
                }
            }
            let mut v = u.clone();
            v.union(&u);
            same(&v, a.union(b), "union with itself")?;
        }
        state(fp(&(a, b)));
        outcome(a.conflicts(b) as u64);
        Ok(())
    });
    c.explore("unions", &format!("every three declared accesses over {n} resources, two orders of union, against every fourth; then one more declaration on top of the union"), move || {
        let (a, b, d) = (acc(n), acc(n), acc(n));
        let mut u = build(a, n, 0);
        u.union(&build(b, n, 0));
        u.union(&build(d, n, 5));
        let mut v = build(b, n, 0);
        v.union(&build(d, n, 0));
        let mut w = build(a, n, 0);
        w.union(&v);
        let m = a.union(b).union(d);
        note(|| format!("{a:?} + {b:?} + {d:?}"));
        step();
        same(&u, m, "(a+b)+c")?;
        same(&w, m, "a+(b+c)")?;
        for k in 0..1u16 << (2 * n) {
            let o = Acc { r: (k & ((1 << n) - 1)) as u8, w: (k >> n) as u8 };
            conflict(&u, &build(o, n, 2), m, o, "(a+b)+c")?;
            conflict(&w, &build(o, n, 1), m, o, "a+(b+c)")?;
        }
        let mut p = u.clone();
        p.add_read(0);
        same(&p, m.union(Acc { r: 1, w: 0 }), "union then add_read")?;
        let mut p = u.clone();
        p.add_write(0);
        same(&p, m.union(Acc { r: 0, w: 1 }), "union then add_write")?;
        state(fp(&(a, b, d)));
        Ok(())
    });
    let d = c.q(5, 7);
    c.explore("declarations", &format!("every sequence of {d} declarations (add_read, add_write, read, write, add_reads, add_writes, union) over 2 resources, compared after each"), move || {
        let mut x = R::new();
        let mut a = Acc::default();
        for _ in 0..d {
            let i = choose(2) as u8;
            let one = std::iter::once(i);
            let w = choose(2) == 1;
            match (choose(4), w) {
                (0, false) => x.add_read(i),
                (0, true) => x.add_write(i),
                (1, false) => x = x.read(i),
                (1, true) => x = x.write(i),
                (2, false) => x.add_reads(one),
                (2, true) => x.add_writes(one),
                (_, false) => x.union(&R::new().read(i)),
                (_, true) => x.union(&R::new().write(i)),
            }
            step();
            a = a.union(if w { Acc { r: 0, w: 1 << i } } else { Acc { r: 1 << i, w: 0 } });
            if fresh() {
                note(|| format!("-> {a:?}"));
                same(&x, a, "declared set")?;
                for k in 0..16u8 {
                    let o = Acc { r: k & 3, w: k >> 2 };
                    conflict(&x, &build(o, 2, 0), a, o, "declared set")?;
                }
                state(fp(&a));
            }
        }
        Ok(())
    });
    c.explore("map", "every declared access over 3 resources, mapped by every function to 3 resources, compared and checked for conflicts with every single access", || {
        let a = acc(3);
        let f = [choose(3) as u8, choose(3) as u8, choose(3) as u8];
        let x: R = build(a, 3, 0).map(|i| f[*i as usize]);
        let im = |s: u8| (0..3).filter(|i| s >> i & 1 == 1).fold(0u8, |m, i| m | 1 << f[i]);
        let m = Acc { r: im(a.r), w: im(a.w) };
        note(|| format!("{a:?} mapped by {f:?}"));
        step();
        same(&x, m, "mapped set")?;
        for i in 0..3 {
            for o in [Acc { r: 1 << i, w: 0 }, Acc { r: 0, w: 1 << i }] {
                conflict(&x, &build(o, 3, 0), m, o, "mapped set")?;
            }
        }
        state(fp(&(a, f)));
        Ok(())
    });
    crate::many::accesses(c);
}

// ---------------------------------------------------------------------------------- R03

thread_local! {
    static KIND: Cell<[u8; 32]> = const { Cell::new([0; 32]) };
}
fn kind(n: usize) -> u8 {
    KIND.with(|k| k.get()[n])
}
fn set_kinds(ks: &[u8]) {
    let mut a = [0; 32];
    a[..ks.len()].copy_from_slice(ks);
    KIND.with(|k| k.set(a));
}
/// Position N of a tuple: which handle it is, is chosen at run time; its declaration and its fetch
/// are the real handle's.
struct P<'a, const N: usize>(#[allow(dead_code)] Box<dyn Any2 + 'a>);
trait Any2 {}
impl<T> Any2 for T {}
const SET_KINDS: [&str; 7] = ["None", "Read<A>", "Write<A>", "Read<B>", "Write<B>", "Write<C>", "(Read<A>, Write<B>)"];
/// (what, write) pairs declared; what: 0 entities, 1.. slots
fn set_acc(k: u8) -> Acc {
    match k {
        0 => Acc::default(),
        1 => Acc { r: 1, w: 0 },
        2 => Acc { r: 0, w: 1 },
        3 => Acc { r: 2, w: 0 },
        4 => Acc { r: 0, w: 2 },
        5 => Acc { r: 0, w: 4 },
        _ => Acc { r: 1, w: 2 },
    }
}
type SetRes = <Read<'static, A> as FetchResources<'static, ResourceSet>>::Resources;
impl<'a, const N: usize> FetchResources<'a, ResourceSet> for P<'a, N> {
    type Resources = SetRes;
    fn check_resources() -> Result<SetRes, ResourceConflict> {
        match kind(N) {
            0 => FetchNone::<ResourceSet, SetRes>::check_resources(),
            1 => Read::<A>::check_resources(),
            2 => Write::<A>::check_resources(),
            3 => Read::<B>::check_resources(),
            4 => Write::<B>::check_resources(),
            5 => Write::<C>::check_resources(),
            _ => <(Read<A>, Write<B>)>::check_resources(),
        }
    }
    fn fetch(s: &'a ResourceSet) -> Self {
        match kind(N) {
            0 => P(Box::new(s.fetch::<FetchNone<ResourceSet, SetRes>>())),
            1 => P(Box::new(s.fetch::<Read<A>>())),
            2 => P(Box::new(s.fetch::<Write<A>>())),
            3 => P(Box::new(s.fetch::<Read<B>>())),
            4 => P(Box::new(s.fetch::<Write<B>>())),
            5 => P(Box::new(s.fetch::<Write<C>>())),
            _ => P(Box::new(s.fetch::<(Read<A>, Write<B>)>())),
        }
    }
}
const WORLD_KINDS: [&str; 11] = [
    "None", "Entities", "ReadResource<A>", "WriteResource<A>", "ReadComponent<A>", "WriteComponent<A>", "ReadComponent<B>", "WriteComponent<B>",
    "WriteResource<B>", "WriteComponent<C>", "(Entities, ReadComponent<A>)",
];
fn world_acc(k: u8) -> Acc {
    // bit 0 entities, 1 resource A, 2 component A, 3 component B, 4 resource B, 5 component C
    let (r, w) = match k {
        0 => (0, 0),
        1 => (1, 0),
        2 => (2, 0),
        3 => (0, 2),
        4 => (1 | 4, 0),
        5 => (1, 4),
        6 => (1 | 8, 0),
        7 => (1, 8),
        8 => (0, 16),
        9 => (1, 32),
        _ => (1 | 4, 0),
    };
    Acc { r, w }
}
impl<'a, const N: usize> FetchResources<'a, World> for P<'a, N> {
    type Resources = WorldResources;
    fn check_resources() -> Result<WorldResources, ResourceConflict> {
        match kind(N) {
            0 => FetchNone::<World, WorldResources>::check_resources(),
            1 => Entities::check_resources(),
            2 => ReadResource::<A>::check_resources(),
            3 => WriteResource::<A>::check_resources(),
            4 => ReadComponent::<A>::check_resources(),
            5 => WriteComponent::<A>::check_resources(),
            6 => ReadComponent::<B>::check_resources(),
            7 => WriteComponent::<B>::check_resources(),
            8 => WriteResource::<B>::check_resources(),
            9 => WriteComponent::<C>::check_resources(),
            _ => <(Entities, ReadComponent<A>)>::check_resources(),
        }
    }
    fn fetch(s: &'a World) -> Self {
        match kind(N) {
            0 => P(Box::new(s.fetch::<FetchNone<World, WorldResources>>())),
            1 => P(Box::new(s.fetch::<Entities>())),
            2 => P(Box::new(s.fetch::<ReadResource<A>>())),
            3 => P(Box::new(s.fetch::<WriteResource<A>>())),
            4 => P(Box::new(s.fetch::<ReadComponent<A>>())),
            5 => P(Box::new(s.fetch::<WriteComponent<A>>())),
            6 => P(Box::new(s.fetch::<ReadComponent<B>>())),
            7 => P(Box::new(s.fetch::<WriteComponent<B>>())),
            8 => P(Box::new(s.fetch::<WriteResource<B>>())),
            9 => P(Box::new(s.fetch::<WriteComponent<C>>())),
            _ => P(Box::new(s.fetch::<(Entities, ReadComponent<A>)>())),
        }
    }
}
/// A source of either kind.
trait Src: Sized + 'static {
    type Rs: Resources + 'static;
    const KINDS: &'static [&'static str];
    const SLOTS: usize;
    fn acc(k: u8) -> Acc;
    /// with slot `missing` (bit) left out
    fn source(missing: u8) -> Self;
    /// every present slot can be borrowed exclusively
    fn all_free(&self, missing: u8) -> bool;
    fn single(bit: usize, write: bool) -> Self::Rs;
    fn get<'a, F: FetchResources<'a, Self, Resources = Self::Rs>>(&'a self) -> F {
        F::fetch(self)
    }
}
impl Src for ResourceSet {
    type Rs = SetRes;
    const KINDS: &'static [&'static str] = &SET_KINDS;
    const SLOTS: usize = 3;
    fn acc(k: u8) -> Acc {
        set_acc(k)
    }
    fn source(missing: u8) -> Self {
        let mut s = ResourceSet::new();
        if missing & 1 == 0 {
            s.insert(A::mk(1));
        }
        if missing & 2 == 0 {
            s.insert(B::mk(2));
        }
        if missing & 4 == 0 {
            s.insert(C::mk(3));
        }
        s
    }
    fn all_free(&self, missing: u8) -> bool {
        (missing & 1 != 0 || catch(|| drop(self.borrow_mut::<A>())).is_ok())
            && (missing & 2 != 0 || catch(|| drop(self.borrow_mut::<B>())).is_ok())
            && (missing & 4 != 0 || catch(|| drop(self.borrow_mut::<C>())).is_ok())
    }
    fn single(bit: usize, write: bool) -> SetRes {
        match (bit, write) {
            (0, false) => Read::<A>::check_resources(),
            (0, true) => Write::<A>::check_resources(),
            (1, false) => Read::<B>::check_resources(),
            (1, true) => Write::<B>::check_resources(),
            (_, w) => {
                let id = goggles::resource_set::ResourceId::of::<C>();
                Ok(if w { RwResources::new().write(id) } else { RwResources::new().read(id) })
            }
        }
        .unwrap()
    }
}
impl Src for World {
    type Rs = WorldResources;
    const KINDS: &'static [&'static str] = &WORLD_KINDS;
    const SLOTS: usize = 6;
    fn acc(k: u8) -> Acc {
        world_acc(k)
    }
    fn source(missing: u8) -> Self {
        let mut w = World::new();
        if missing & 2 == 0 {
            w.insert_resource(A::mk(1));
        }
        if missing & 4 == 0 {
            w.insert_component::<A>();
        }
        if missing & 8 == 0 {
            w.insert_component::<B>();
        }
        if missing & 16 == 0 {
            w.insert_resource(B::mk(1));
        }
        if missing & 32 == 0 {
            w.insert_component::<C>();
        }
        w
    }
    fn all_free(&self, m: u8) -> bool {
        (m & 2 != 0 || catch(|| drop(self.write_resource::<A>())).is_ok())
            && (m & 4 != 0 || catch(|| drop(self.write_component::<A>())).is_ok())
            && (m & 8 != 0 || catch(|| drop(self.write_component::<B>())).is_ok())
            && (m & 16 != 0 || catch(|| drop(self.write_resource::<B>())).is_ok())
            && (m & 32 != 0 || catch(|| drop(self.write_component::<C>())).is_ok())
    }
    fn single(bit: usize, w: bool) -> WorldResources {
        let id = match bit {
            0 => WorldResourceId::Entities,
            1 => WorldResourceId::resource::<A>(),
            2 => WorldResourceId::component::<A>(),
            3 => WorldResourceId::component::<B>(),
            4 => WorldResourceId::resource::<B>(),
            _ => WorldResourceId::component::<C>(),
        };
        if w {
            WorldResources::new().write(id)
        } else {
            WorldResources::new().read(id)
        }
    }
}
/// What the model says about a combination of handles.
fn combo<S: Src>(ks: &[u8]) -> Result<Acc, ()> {
    let mut a = Acc::default();
    for &k in ks {
        let x = S::acc(k);
        if a.conflicts(x) {
            return Err(());
        }
        a = a.union(x);
    }
    Ok(a)
}
fn declared<S: Src>(r: &S::Rs, a: Acc, what: &str) -> Res {
    for b in 0..S::SLOTS {
        for w in [false, true] {
            let o = if w { Acc { r: 0, w: 1 << b } } else { Acc { r: 1 << b, w: 0 } };
            let one = S::single(b, w);
            ensure!(r.conflicts_with(&one) == a.conflicts(o) && one.conflicts_with(r) == a.conflicts(o), "{what}: declared access conflicts with {} of slot {b}: {}, expected {}", if w { "a write" } else { "a read" }, r.conflicts_with(&one), a.conflicts(o));
        }
    }
    Ok(())
}
fn one<S: Src, F>(ks: &[u8], missing: u8, text: &str) -> Res
where
    F: for<'a> Fam<'a, S>,
{
    set_kinds(ks);
    step();
    let model = combo::<S>(ks);
    let chk = F::check();
    ensure!(chk.is_ok() == model.is_ok(), "{text}: static check says {}, the declared accesses {}", if chk.is_ok() { "no conflict" } else { "conflict" }, if model.is_ok() { "do not conflict" } else { "conflict" });
    if let (Ok(r), Ok(a)) = (&chk, model) {
        declared::<S>(r, a, text)?;
    }
    let s = S::source(missing);
    let absent = ks.iter().any(|&k| S::acc(k).any() & missing != 0);
    {
        let f = catch(|| F::fetch(&s));
        let ok = model.is_ok() && !absent;
        ensure!(f.is_ok() == ok, "fetching {text} (missing {missing:#b}) {}", if f.is_ok() { "succeeded" } else { "panicked" });
        if f.is_ok() {
            // while held, exactly the declared accesses are borrowed
            for b in 0..S::SLOTS {
                let free = s.all_free(!(1u8 << b));
                let e = missing >> b & 1 == 1 || model.unwrap().any() >> b & 1 == 0 || (S::KINDS.len() > 7 && b == 0);
                ensure!(missing >> b & 1 == 1 || free == e, "while {text} is held, slot {b} can {}be borrowed exclusively", if free { "" } else { "not " });
            }
        }
    }
    ensure!(s.all_free(missing), "after fetching {text} (missing {missing:#b}) and letting go, something is still borrowed");
    state(fp(&(ks, missing, text)));
    outcome(fp(&(model.is_ok(), absent)));
    Ok(())
}
/// A family of fetchable types, by lifetime.
trait Fam<'a, S: Src> {
    type F: FetchResources<'a, S, Resources = S::Rs>;
    fn check() -> Result<S::Rs, ResourceConflict> {
        Self::F::check_resources()
    }
    fn fetch(s: &'a S) -> Self::F {
        s.get::<Self::F>()
    }
}
macro_rules! fam {
    ($n:ident, $($t:tt)*) => {
        struct $n;
        impl<'a, S: Src> Fam<'a, S> for $n
        where
            P<'a, 0>: FetchResources<'a, S, Resources = S::Rs>, P<'a, 1>: FetchResources<'a, S, Resources = S::Rs>,
            P<'a, 2>: FetchResources<'a, S, Resources = S::Rs>, P<'a, 3>: FetchResources<'a, S, Resources = S::Rs>,
            P<'a, 4>: FetchResources<'a, S, Resources = S::Rs>, P<'a, 5>: FetchResources<'a, S, Resources = S::Rs>,
        {
            type F = fam!(@ $($t)*);
        }
    };
    (@ ( $($x:tt)* )) => { ( $(fam!(@ $x),)* ) };
    (@ $n:tt) => { P<'a, $n> };
}
fam!(F0, 0);
fam!(F1, (0));
fam!(F2, (0 1));
fam!(F3, (0 1 2));
fam!(F3r, (0 (1 2)));
fam!(F3l, ((0 1) 2));
fam!(F4, (0 1 2 3));
fam!(F4n, ((0 1) (2 3)));
fam!(F4d, (0 (1 (2 (3)))));
fam!(F5, (0 1 2 3 4));
fam!(F6, (0 1 2 3 4 5));
fn text<S: Src>(ks: &[u8], shape: &str) -> String {
    format!("{shape} of {}", ks.iter().map(|k| S::KINDS[*k as usize]).collect::<Vec<_>>().join(", "))
}
fn miss<S: Src>() -> u8 {
    // nothing, or one slot, missing (entities cannot be)
    let first = (S::KINDS.len() > 7) as usize;
    let k = choose(S::SLOTS + 1 - first);
    if k == 0 {
        0
    } else {
        1 << (k - 1 + first)
    }
}
macro_rules! combos {
    ($c:ident, $s:ty, $name:literal, $wide:expr) => {
        $c.explore(concat!($name, ", small"), &format!("{}: every combination of {} handles as X, (X,), (X,Y), (X,Y,Z), (X,(Y,Z)), ((X,Y),Z); source full or lacking any one item; declared access, fetch outcome, what is borrowed while held and after", $name, <$s>::KINDS.len()), || {
            let shape = choose(6);
            let n = [1, 1, 2, 3, 3, 3][shape];
            let ks: Vec<u8> = (0..n).map(|_| choose(<$s>::KINDS.len()) as u8).collect();
            let m = miss::<$s>();
            let t = text::<$s>(&ks, ["X", "(X,)", "(X, Y)", "(X, Y, Z)", "(X, (Y, Z))", "((X, Y), Z)"][shape]);
            note(|| format!("{t}, missing {m:#b}"));
            match shape {
                0 => one::<$s, F0>(&ks, m, &t),
                1 => one::<$s, F1>(&ks, m, &t),
                2 => one::<$s, F2>(&ks, m, &t),
                3 => one::<$s, F3>(&ks, m, &t),
                4 => one::<$s, F3r>(&ks, m, &t),
                _ => one::<$s, F3l>(&ks, m, &t),
            }
        });
        let top: usize = $wide;
        $c.explore(concat!($name, ", larger"), &format!("{}: every combination of handles as 4-tuples flat, ((W,X),(Y,Z)) and (W,(X,(Y,(Z)))), and flat tuples of up to {top}", $name), move || {
            let shape = choose(3 + top - 4);
            let n = if shape < 3 { 4 } else { shape + 2 };
            let ks: Vec<u8> = (0..n).map(|_| choose(<$s>::KINDS.len()) as u8).collect();
            let t = text::<$s>(&ks, ["(W, X, Y, Z)", "((W, X), (Y, Z))", "(W, (X, (Y, (Z,))))", "5-tuple", "6-tuple"][shape]);
            note(|| t.clone());
            match shape {
                0 => one::<$s, F4>(&ks, 0, &t),
                1 => one::<$s, F4n>(&ks, 0, &t),
                2 => one::<$s, F4d>(&ks, 0, &t),
                3 => one::<$s, F5>(&ks, 0, &t),
                _ => one::<$s, F6>(&ks, 0, &t),
            }
        });
        $c.explore(concat!($name, ", two at once"), &format!("{}: two pairs (W,X) and (Y,Z) of handles, each conflict-free: declared conflict, and whether the second can be fetched while the first is held", $name), || {
            let ks: Vec<u8> = (0..4).map(|_| choose(<$s>::KINDS.len()) as u8).collect();
            let (a, b) = match (combo::<$s>(&ks[..2]), combo::<$s>(&ks[2..])) {
                (Ok(a), Ok(b)) => (a, b),
                _ => return Ok(()),
            };
            let t = text::<$s>(&ks, "(W, X) against (Y, Z)");
            note(|| t.clone());
            step();
            set_kinds(&ks[..2]);
            let ra = <F2 as Fam<$s>>::check().map_err(|e| format!("{t}: {e}"))?;
            set_kinds(&ks[2..]);
            let rb = <F2 as Fam<$s>>::check().map_err(|e| format!("{t}: {e}"))?;
            ensure!(ra.conflicts_with(&rb) == a.conflicts(b), "{t}: declared conflict {}", ra.conflicts_with(&rb));
            let s = <$s>::source(0);
            {
                set_kinds(&ks[..2]);
                let _h = catch(|| <F2 as Fam<$s>>::fetch(&s)).map_err(|e| format!("{t}: first fetch panicked: {e}"))?;
                set_kinds(&ks[2..]);
                let r = catch(|| drop(<F2 as Fam<$s>>::fetch(&s)));
                ensure!(r.is_ok() == !a.conflicts(b), "{t}: fetching the second while the first is held: {:?}", r);
            }
            ensure!(s.all_free(0), "{t}: something is still borrowed");
            state(fp(&ks));
            outcome(a.conflicts(b) as u64);
            Ok(())
        });
    };
}
macro_rules! fam_n {
    ($($n:literal)*) => { ($(P<'static, $n>,)*) };
}
pub fn r03(c: &mut Ctx) {
    combos!(c, ResourceSet, "ResourceSet", c.q(5, 6));
    combos!(c, World, "World", c.q(4, 5));
    c.explore("wide tuples", "tuples of arity 7..26: two positions hold every pair of handles, the others nothing; the static check and the fetch", || {
        let n = 7 + choose(20);
        let (p, q) = (choose(n), choose(n));
        if p >= q {
            return Ok(());
        }
        let (a, b) = (choose(SET_KINDS.len()) as u8, choose(SET_KINDS.len()) as u8);
        let mut ks = [0u8; 26];
        ks[p] = a;
        ks[q] = b;
        set_kinds(&ks);
        step();
        let model = combo::<ResourceSet>(&ks);
        macro_rules! wide {
            ($($t:ty)*) => {{
                // `'static` handles need a leaked source: keep one on the side and free it after
                let p = Box::into_raw(Box::new(<ResourceSet as Src>::source(0)));
                let s: &'static ResourceSet = unsafe { &*p };
                let mut k = 6;
                let mut res = None;
                $(k += 1; if k == n {
                    let c = <$t as FetchResources<'static, ResourceSet>>::check_resources();
                    let f = catch(|| <$t as FetchResources<'static, ResourceSet>>::fetch(s)).map(drop);
                    res = Some((c, f));
                })*
                let free = s.all_free(0);
                drop(unsafe { Box::from_raw(p) });
                (res.unwrap(), free)
            }};
        }
        let ((c, f), free) = wide!(
            fam_n!(0 1 2 3 4 5 6) fam_n!(0 1 2 3 4 5 6 7) fam_n!(0 1 2 3 4 5 6 7 8) fam_n!(0 1 2 3 4 5 6 7 8 9) fam_n!(0 1 2 3 4 5 6 7 8 9 10)
            fam_n!(0 1 2 3 4 5 6 7 8 9 10 11) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14)
            fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
            fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)
            fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21)
            fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23)
            fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24) fam_n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25)
        );
        let t = format!("{n}-tuple with {} at {p} and {} at {q}", SET_KINDS[a as usize], SET_KINDS[b as usize]);
        note(|| t.clone());
        ensure!(c.is_ok() == model.is_ok(), "{t}: static check says {}", if c.is_ok() { "no conflict" } else { "conflict" });
        if let (Ok(r), Ok(m)) = (&c, model) {
            declared::<ResourceSet>(r, m, &t)?;
        }
        ensure!(f.is_ok() == model.is_ok(), "{t}: fetching it {}", if f.is_ok() { "succeeded" } else { "panicked" });
        ensure!(free, "{t}: something is still borrowed afterwards");
        state(fp(&(n, p, q, a, b)));
        outcome(model.is_ok() as u64);
        Ok(())
    });
}
