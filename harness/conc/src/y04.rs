//! Y04: systems over shared data, composed and accepted by the conflict check, on the parallel pool.
use crate::sys::{any_tree, build, DynSys, T};
use goggles::entity::Entity;
use goggles::fetch_resources::{FetchNone, FetchResources};
use goggles::join::IntoJoinExt;
use goggles::par_join::ParJoinExt;
use goggles::resource_set::{Read, ResourceSet, Write};
use goggles::resources::ResourceConflict;
use goggles::storage::*;
use goggles::system::{parallelize, Error, System};
use goggles::tracked::Flagged;
use goggles::world::{Entities, ReadComponent, ReadResource, World, WriteComponent, WriteResource};
use goggles::world_common::Component;
use goggles::RayonPool;
use hibitset::BitSetLike;
use mcx::*;
use rayon::iter::ParallelIterator;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub struct A(pub ModelCell<i64>);
pub struct B(pub ModelCell<i64>);
/// a tracked component
pub struct P(pub ModelCell<i64>);
pub struct Q(pub ModelCell<i64>);
impl Component for P {
    type Storage = Flagged<VecStorage<P>>;
}
impl Component for Q {
    type Storage = DenseVecStorage<Q>;
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Errs(Vec<usize>);
impl Error for Errs {
    fn combine(mut self, o: Errs) -> Errs {
        self.0.extend(o.0);
        self
    }
}
type Out = Arc<Mutex<Shared>>;
/// What the systems saw, by system, and the entities they created.
#[derive(Default)]
struct Shared {
    saw: BTreeMap<usize, Vec<i64>>,
    made: BTreeMap<usize, Entity>,
}
/// One system.
struct Sysm<S: 'static, F, G> {
    f: G,
    p: std::marker::PhantomData<fn(S, F)>,
}
impl<S, F, G> System<&'static S> for Sysm<S, F, G>
where
    F: FetchResources<'static, S>,
    G: FnMut(F) -> Result<(), Errs>,
{
    type Resources = F::Resources;
    type Pool = RayonPool;
    type Error = Errs;
    fn check_resources(&self) -> Result<F::Resources, ResourceConflict> {
        F::check_resources()
    }
    fn run(&mut self, _: &RayonPool, s: &'static S) -> Result<(), Errs> {
        (self.f)(F::fetch(s))
    }
}
type Dyn<S, R> = DynSys<&'static S, R, RayonPool, Errs>;
fn sysm<S: 'static, F, G>(f: G) -> Dyn<S, F::Resources>
where
    F: FetchResources<'static, S> + 'static,
    G: FnMut(F) -> Result<(), Errs> + Send + 'static,
    F::Resources: 'static,
{
    Box::new(Sysm { f, p: Default::default() })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum K {
    /// reads A
    Ra,
    /// writes A
    Wa,
    /// B from A
    RaWb,
    /// A from B
    RbWa,
    /// reads every P
    Rp,
    /// writes every P
    Wp,
    /// Q from P
    RpWq,
    /// P from Q and A
    RqRaWp,
    Create,
    CreateWp,
    Delete,
    RemoveP,
    /// marks P modified through a shared borrow
    MarkP,
    /// writes every P in a nested parallel join
    ParWp,
    /// reads P, creates one entity per P
    RpCreate,
    /// fails
    WaFail,
    /// declares a conflict within itself
    RaWa,
    Nop,
}
use K::*;
type Rs<T> = ReadResource<'static, T>;
type Ws<T> = WriteResource<'static, T>;
type Rc<T> = ReadComponent<'static, T>;
type Wc<T> = WriteComponent<'static, T>;
type Es = Entities<'static>;

fn saw(o: &Out, id: usize, v: i64) {
    o.lock().unwrap().saw.entry(id).or_default().push(v);
}
fn rd(c: &ModelCell<i64>) -> i64 {
    c.read(|v| *v)
}
fn wr(c: &mut ModelCell<i64>, x: i64) {
    c.write(|v| *v = *v * 3 + x)
}
fn leaf(id: usize, k: K, pre: [Entity; 3], o: &Out) -> Dyn<World, goggles::world_common::WorldResources> {
    let o = o.clone();
    let x = id as i64 + 1;
    match k {
        Ra => sysm(move |a: Rs<A>| {
            saw(&o, id, rd(&a.0));
            Ok(())
        }),
        Wa => sysm(move |mut a: Ws<A>| {
            wr(&mut a.0, x);
            Ok(())
        }),
        RaWb => sysm(move |(a, mut b): (Rs<A>, Ws<B>)| {
            wr(&mut b.0, rd(&a.0) + x);
            Ok(())
        }),
        RbWa => sysm(move |(b, mut a): (Rs<B>, Ws<A>)| {
            wr(&mut a.0, rd(&b.0) + x);
            Ok(())
        }),
        Rp => sysm(move |p: Rc<P>| {
            for c in (&p).join() {
                saw(&o, id, rd(&c.0));
            }
            Ok(())
        }),
        Wp => sysm(move |(mut p,): (Wc<P>,)| {
            for c in (&mut p).join() {
                wr(&mut c.0, x);
            }
            Ok(())
        }),
        RpWq => sysm(move |(p, mut q): (Rc<P>, Wc<Q>)| {
            for (c, d) in (&p, &mut q).join() {
                wr(&mut d.0, rd(&c.0) + x);
            }
            Ok(())
        }),
        RqRaWp => sysm(move |(q, a, mut p): (Rc<Q>, Rs<A>, Wc<P>)| {
            let a = rd(&a.0);
            for (mut g, d) in (p.guard(), &q).join() {
                wr(&mut g.get_mut().0, rd(&d.0) + a + x);
            }
            Ok(())
        }),
        Create => sysm(move |es: Es| {
            let e = es.create();
            o.lock().unwrap().made.insert(id, e);
            saw(&o, id, es.is_alive(e) as i64);
            Ok(())
        }),
        CreateWp => sysm(move |(es, mut p): (Es, Wc<P>)| {
            let e = es.create();
            o.lock().unwrap().made.insert(id, e);
            let r = p.insert(e, P(ModelCell::new(100 + x)));
            saw(&o, id, matches!(r, Ok(None)) as i64);
            Ok(())
        }),
        Delete => sysm(move |es: Es| {
            saw(&o, id, es.delete(pre[0]).is_ok() as i64 * 2 + es.is_alive(pre[0]) as i64);
            Ok(())
        }),
        RemoveP => sysm(move |mut p: Wc<P>| {
            let r = p.remove(pre[1]);
            saw(&o, id, r.unwrap().map_or(-1, |p| *p.0.peek()));
            Ok(())
        }),
        MarkP => sysm(move |(_es, p): (Es, Rc<P>)| {
            saw(&o, id, p.mark_modified(pre[id % 2]).is_ok() as i64);
            Ok(())
        }),
        ParWp => sysm(move |mut p: Wc<P>| {
            (&mut p).par_join().for_each(|c| wr(&mut c.0, x));
            Ok(())
        }),
        RpCreate => sysm(move |(p, es): (Rc<P>, Es)| {
            let e = es.create();
            o.lock().unwrap().made.insert(id, e);
            saw(&o, id, (&p).join().map(|c| rd(&c.0)).sum());
            Ok(())
        }),
        WaFail => sysm(move |mut a: Ws<A>| {
            wr(&mut a.0, x);
            Err(Errs(vec![id]))
        }),
        RaWa => sysm(move |_: (Rs<A>, Ws<A>)| Ok(())),
        Nop => sysm(move |_: FetchNone<World, goggles::world_common::WorldResources>| Ok(())),
    }
}
/// The world as values.
#[derive(Clone, PartialEq, Eq, Debug)]
struct M {
    a: i64,
    b: i64,
    /// by entity name: 0, 1, 2 pre-existing, 10 + system for created ones
    alive: BTreeSet<usize>,
    doomed: BTreeSet<usize>,
    p: BTreeMap<usize, i64>,
    q: BTreeMap<usize, i64>,
    modified: BTreeSet<usize>,
    saw: BTreeMap<usize, Vec<i64>>,
}
fn model(m: &mut M, id: usize, k: K) -> bool {
    let x = id as i64 + 1;
    let up = |v: &mut i64, d: i64| *v = *v * 3 + d;
    let mut s: Vec<i64> = vec![];
    match k {
        Ra => s.push(m.a),
        Wa | WaFail => up(&mut m.a, x),
        RaWb => up(&mut m.b, m.a + x),
        RbWa => up(&mut m.a, m.b + x),
        Rp => s.extend(m.p.values()),
        Wp | ParWp => {
            for (e, v) in &mut m.p {
                up(v, x);
                m.modified.insert(*e);
            }
        }
        RpWq => {
            for (e, v) in &mut m.q {
                if let Some(p) = m.p.get(e) {
                    up(v, p + x);
                }
            }
        }
        RqRaWp => {
            for (e, v) in &mut m.p {
                if let Some(q) = m.q.get(e) {
                    up(v, q + m.a + x);
                    m.modified.insert(*e);
                }
            }
        }
        Create => {
            m.alive.insert(10 + id);
            s.push(1);
        }
        CreateWp => {
            m.alive.insert(10 + id);
            m.p.insert(10 + id, 100 + x);
            m.modified.insert(10 + id);
            s.push(1);
        }
        Delete => {
            m.doomed.insert(0);
            s.push(3);
        }
        RemoveP => {
            s.push(m.p.remove(&1).unwrap_or(-1));
            m.modified.insert(1);
        }
        MarkP => {
            m.modified.insert(id % 2);
            s.push(1);
        }
        RpCreate => {
            m.alive.insert(10 + id);
            s.push(m.p.values().sum());
        }
        RaWa | Nop => {}
    }
    if !s.is_empty() {
        m.saw.insert(id, s);
    }
    k != WaFail
}
/// Runs the members in order; the ids of failed systems.
fn in_order(t: &T, ks: &[K], m: &mut M) -> Vec<usize> {
    match t {
        T::Leaf(i) => {
            if model(m, *i, ks[*i]) {
                vec![]
            } else {
                vec![*i]
            }
        }
        _ => {
            let mut e = vec![];
            for k in t.kids() {
                let x = in_order(k, ks, m);
                let bad = !x.is_empty();
                e.extend(x);
                if bad && !t.parallel() {
                    break;
                }
            }
            e
        }
    }
}
fn the_world() -> (World, [Entity; 3], M) {
    let mut w = World::new();
    w.insert_resource(A(ModelCell::new(5)));
    w.insert_resource(B(ModelCell::new(7)));
    w.insert_component::<P>();
    w.insert_component::<Q>();
    let pre = [w.create_entity(), w.create_entity(), w.create_entity()];
    {
        let mut p = w.get_component_mut::<P>();
        p.insert(pre[0], P(ModelCell::new(11))).ok();
        p.insert(pre[1], P(ModelCell::new(13))).ok();
        p.set_track_modified(true);
    }
    let mut q = w.get_component_mut::<Q>();
    q.insert(pre[1], Q(ModelCell::new(17))).ok();
    q.insert(pre[2], Q(ModelCell::new(19))).ok();
    let m = M {
        a: 5,
        b: 7,
        alive: (0..3).collect(),
        doomed: Default::default(),
        p: [(0, 11), (1, 13)].into(),
        q: [(1, 17), (2, 19)].into(),
        modified: Default::default(),
        saw: Default::default(),
    };
    (w, pre, m)
}
/// The world as values, and the saw-log.
fn look(w: &mut World, pre: &[Entity; 3], sh: &Shared) -> Result<M, String> {
    let mut names: BTreeMap<Entity, usize> = pre.iter().enumerate().map(|(i, e)| (*e, i)).collect();
    for (id, e) in &sh.made {
        ensure!(names.insert(*e, 10 + id).is_none(), "entity {e:?} given to two systems");
    }
    let by_index: BTreeMap<u32, usize> = names.iter().map(|(e, n)| (e.index(), *n)).collect();
    ensure!(by_index.len() == names.len(), "two live entities share an index: {names:?}");
    let mut m = M { a: 0, b: 0, alive: Default::default(), doomed: Default::default(), p: Default::default(), q: Default::default(), modified: Default::default(), saw: sh.saw.clone() };
    m.a = *w.get_resource_mut::<A>().0.peek();
    m.b = *w.get_resource_mut::<B>().0.peek();
    for e in w.entities().join() {
        m.alive.insert(*names.get(&e).ok_or(format!("unknown live entity {e:?}"))?);
    }
    let p = w.read_component::<P>();
    for i in p.mask().iter() {
        m.p.insert(*by_index.get(&i).ok_or(format!("P at unknown index {i}"))?, *p.storage().get(i).ok_or("P missing")?.0.peek());
    }
    for i in p.modified_indexes().iter() {
        m.modified.insert(*by_index.get(&i).ok_or(format!("mark at unknown index {i}"))?);
    }
    let q = w.read_component::<Q>();
    for i in q.mask().iter() {
        m.q.insert(*by_index.get(&i).ok_or(format!("Q at unknown index {i}"))?, *q.storage().get(i).ok_or("Q missing")?.0.peek());
    }
    Ok(m)
}
/// The schedule of a list: what is in one group runs even if another member of it fails.
fn groups(sizes: impl Iterator<Item = usize>) -> T {
    let mut i = 0..;
    T::SeqL(sizes.map(|n| T::ParL((0..n).map(|_| T::Leaf(i.next().unwrap())).collect())).collect())
}
/// A tree in which something runs in parallel with something else.
fn parallel(t: &T) -> bool {
    t.parallel() && t.kids().len() > 1 || t.kids().iter().any(parallel)
}
fn over_world(depth: usize, size: usize, menu: &'static [K], list: bool) -> Res {
    let (t, n) = if list { (T::Leaf(0), size) } else { any_tree(depth, size) };
    if !list && (n < 2 || !parallel(&t)) {
        return Ok(());
    }
    let ks: Vec<K> = (0..n).map(|_| *pick(menu)).collect();
    set_split_bound(1);
    let (w, pre, start) = the_world();
    // the boxed systems take 'static references; the world outlives them
    let w = Box::into_raw(Box::new(w));
    let wr_: &'static World = unsafe { &*w };
    let out: Out = Default::default();
    let mk = |i: usize| leaf(i, ks[i], pre, &out);
    let (mut s, order): (Dyn<World, _>, T) = if list {
        {
            let s = parallelize((0..n).map(mk));
            let order = groups(s.0.iter().map(|g| g.0.len()));
            (Box::new(s), order)
        }
    } else {
        (build(&t, &mk), t)
    };
    note(|| format!("{} of {ks:?}", if list { "parallelized list".to_string() } else { order.show() }));
    let accepted = s.check_resources().is_ok();
    let r = (|| -> Res {
        if !accepted {
            return Ok(());
        }
        step();
        let mut exp = start.clone();
        let errs = in_order(&order, &ks, &mut exp);
        // only one logical thread at the start: the pool forks
        let mut res = None;
        let tr = {
            let (s, res) = (&mut s, &mut res);
            run_threads(vec![Box::new(move || *res = Some(s.run(&RayonPool, wr_))) as Box<dyn FnOnce()>])
        };
        if let Some(Err(e)) = tr.into_iter().next() {
            return Err(format!("running an accepted composition panicked: {}", panic_msg(&e)));
        }
        if redundant() {
            return Ok(());
        }
        let res = res.unwrap();
        ensure_eq!(res, if errs.is_empty() { Ok(()) } else { Err(Errs(errs)) }, "result");
        let w = unsafe { &mut *w };
        let sh = out.lock().unwrap();
        let mut got = look(w, &pre, &sh)?;
        got.doomed = exp.doomed.clone();
        ensure_eq!(got, exp, "world after the run, against the members run in order");
        w.merge();
        for e in std::mem::take(&mut exp.doomed) {
            exp.alive.remove(&e);
            if exp.p.remove(&e).is_some() {
                exp.modified.insert(e);
            }
            exp.q.remove(&e);
        }
        let got = look(w, &pre, &sh)?;
        ensure_eq!(got, exp, "world after the merge, against the members run in order");
        outcome(fp(&format!("{:?}", sh.made)));
        state(fp(&format!("{got:?}")));
        Ok(())
    })();
    drop(s);
    if r.is_ok() || !redundant() {
        drop(unsafe { Box::from_raw(w) });
    }
    r
}

fn set_leaf(id: usize, k: K, o: &Out) -> Dyn<ResourceSet, goggles::resources::RwResources<goggles::resource_set::ResourceId>> {
    let o = o.clone();
    let x = id as i64 + 1;
    match k {
        Ra => sysm(move |a: Read<'static, A>| {
            saw(&o, id, rd(&a.0));
            Ok(())
        }),
        Wa => sysm(move |mut a: Write<'static, A>| {
            wr(&mut a.0, x);
            Ok(())
        }),
        RaWb => sysm(move |(a, mut b): (Read<'static, A>, Write<'static, B>)| {
            wr(&mut b.0, rd(&a.0) + x);
            Ok(())
        }),
        RbWa => sysm(move |(b, mut a): (Read<'static, B>, Write<'static, A>)| {
            wr(&mut a.0, rd(&b.0) + x);
            Ok(())
        }),
        WaFail => sysm(move |mut a: Write<'static, A>| {
            wr(&mut a.0, x);
            Err(Errs(vec![id]))
        }),
        RaWa => sysm(move |_: (Read<'static, A>, Write<'static, A>)| Ok(())),
        _ => sysm(move |_: FetchNone<ResourceSet, goggles::resources::RwResources<goggles::resource_set::ResourceId>>| Ok(())),
    }
}
fn over_set(depth: usize, size: usize, list: bool) -> Res {
    static MENU: [K; 7] = [Ra, Wa, RaWb, RbWa, WaFail, RaWa, Nop];
    let (t, n) = if list { (T::Leaf(0), size) } else { any_tree(depth, size) };
    if !list && (n < 2 || !parallel(&t)) {
        return Ok(());
    }
    let ks: Vec<K> = (0..n).map(|_| *pick(&MENU)).collect();
    let mut rs = ResourceSet::new();
    rs.insert(A(ModelCell::new(5)));
    rs.insert(B(ModelCell::new(7)));
    let rs = Box::into_raw(Box::new(rs));
    let rr: &'static ResourceSet = unsafe { &*rs };
    let out: Out = Default::default();
    let mk = |i: usize| set_leaf(i, ks[i], &out);
    let (mut s, order): (Dyn<ResourceSet, _>, T) = if list {
        {
            let s = parallelize((0..n).map(mk));
            let order = groups(s.0.iter().map(|g| g.0.len()));
            (Box::new(s), order)
        }
    } else {
        (build(&t, &mk), t)
    };
    note(|| format!("{} of {ks:?}", if list { "parallelized list".to_string() } else { order.show() }));
    let accepted = s.check_resources().is_ok();
    let r = (|| -> Res {
        if !accepted {
            return Ok(());
        }
        step();
        let mut exp = the_world().2;
        let errs = in_order(&order, &ks, &mut exp);
        let mut res = None;
        let tr = {
            let (s, res) = (&mut s, &mut res);
            run_threads(vec![Box::new(move || *res = Some(s.run(&RayonPool, rr))) as Box<dyn FnOnce()>])
        };
        if let Some(Err(e)) = tr.into_iter().next() {
            return Err(format!("running an accepted composition panicked: {}", panic_msg(&e)));
        }
        if redundant() {
            return Ok(());
        }
        ensure_eq!(res.unwrap(), if errs.is_empty() { Ok(()) } else { Err(Errs(errs)) }, "result");
        let rs = unsafe { &mut *rs };
        let got = (*rs.get_mut::<A>().0.peek(), *rs.get_mut::<B>().0.peek(), out.lock().unwrap().saw.clone());
        ensure_eq!(got, (exp.a, exp.b, exp.saw), "resources after the run, against the members run in order");
        state(fp(&format!("{got:?}")));
        Ok(())
    })();
    drop(s);
    if r.is_ok() || !redundant() {
        drop(unsafe { Box::from_raw(rs) });
    }
    r
}
pub fn run(c: &mut Ctx) {
    static ALL: [K; 18] = [Ra, Wa, RaWb, RbWa, Rp, Wp, RpWq, RqRaWp, Create, CreateWp, Delete, RemoveP, MarkP, RpCreate, WaFail, RaWa, Nop, ParWp];
    static SOME: [K; 9] = [Ra, RaWb, Rp, RpWq, CreateWp, Create, Delete, MarkP, WaFail];
    static FEW: [K; 5] = [Ra, RpWq, CreateWp, Create, Delete];
    const RULE: &str = "every composition up to the size over systems that read or write two resources and two component types (one tracked), create, delete, mark, fail, join in parallel or conflict within themselves; those the conflict check accepts run on RayonPool in every interleaving: no panic, no overlapping access to a value, and the world before and after the merge equals that of the members run one after the other";
    let t = c.thorough;
    c.explore("trees 2", RULE, || over_world(2, 2, &ALL, false));
    c.explore("trees 3", RULE, move || if t { over_world(2, 3, &ALL, false) } else { over_world(2, 3, &SOME, false) });
    if t {
        c.explore("trees 4", RULE, || over_world(3, 4, &FEW, false));
    }
    const LIST: &str = "every list up to the length over the same systems, scheduled by parallelize and run on RayonPool in every interleaving, against the list run one after the other";
    c.explore("lists 2", LIST, || over_world(0, 2, &ALL, true));
    c.explore("lists 3", LIST, move || if t { over_world(0, 3, &ALL, true) } else { over_world(0, 3, &SOME, true) });
    if t {
        c.explore("lists 4", LIST, || over_world(0, 4, &FEW, true));
    }
    const SET: &str = "the same over a resource container: systems that read or write two resources, fail, or conflict within themselves";
    c.explore("set trees", SET, move || over_set(2, if t { 4 } else { 3 }, false));
    c.explore("set lists", SET, move || over_set(0, if t { 5 } else { 4 }, true));
}
