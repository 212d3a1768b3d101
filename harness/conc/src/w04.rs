//! W04: several threads share a world, one of them attaches or reads components; then a merge.
use crate::util::*;
use goggles::entity::Entity;
use goggles::join::IntoJoinExt;
use goggles::storage::*;
use goggles::world::{Entities, ReadComponent, World, WriteComponent};
use goggles::world_common::Component;
use hibitset::BitSetLike;
use mcx::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub struct P(pub i64);
pub struct Q(pub i64);
impl Component for P {
    type Storage = VecStorage<P>;
}
impl Component for Q {
    type Storage = DenseVecStorage<Q>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Op {
    /// anybody
    Create,
    DeletePre,
    DeleteOwn,
    DeleteTheirs,
    Query,
    // the thread holding the storages
    CreateAttach,
    AttachPre,
    AttachTheirs,
    DetachPre,
    /// attach to a stale handle
    AttachStale,
    Read,
    JoinEntities,
}
use Op::*;
struct Thr {
    created: RefCell<Vec<Entity>>,
    deleted: RefCell<Vec<Entity>>,
    err: RefCell<Option<String>>,
    slot: Slot,
}
struct Start {
    w: World,
    pre: Vec<Entity>,
    stale: Vec<Entity>,
    pending: BTreeSet<Entity>,
}
fn start(k: usize) -> Start {
    let mut w = World::new();
    w.insert_component::<P>();
    w.insert_component::<Q>();
    let n = [2, 3, 64, 3, 5][k];
    let mut pre: Vec<Entity> = (0..n).map(|_| w.create_entity()).collect();
    let mut stale = vec![];
    let mut pending = BTreeSet::new();
    for (i, e) in pre.iter().enumerate() {
        w.get_component_mut::<P>().insert(*e, P(1000 + i as i64)).ok();
        if i % 2 == 0 {
            w.get_component_mut::<Q>().insert(*e, Q(2000 + i as i64)).ok();
        }
    }
    let mut kill = |w: &mut World, pre: &mut Vec<Entity>, i: usize| {
        let e = pre.remove(i);
        w.delete_entity(e).unwrap();
        stale.push(e);
    };
    match k {
        1 => kill(&mut w, &mut pre, 0),
        2 => kill(&mut w, &mut pre, 63),
        4 => {
            kill(&mut w, &mut pre, 1);
            kill(&mut w, &mut pre, 2);
        }
        3 => {
            kill(&mut w, &mut pre, 1);
            // an unmerged creation with a component, and a pending deletion
            let e = w.entities().create();
            w.get_component_mut::<P>().insert(e, P(1500)).ok();
            pre.insert(0, e);
            w.entities().delete(pre[1]).unwrap();
            pending.insert(pre[1]);
        }
        _ => {}
    }
    Start { w, pre, stale, pending }
}
/// What is attached to whom, as the holder of the storages knows it.
type Att = BTreeMap<Entity, i64>;

fn common(es: &Entities, s: &Start, ts: &[Thr], me: usize, op: Op, chk: &dyn Fn(bool, &dyn Fn() -> String)) {
    let t = &ts[me];
    let theirs = || ts.iter().enumerate().filter(|(i, _)| *i != me).find_map(|(_, o)| o.slot.get());
    let del = |e: Entity| {
        let r = es.delete(e).is_ok();
        note(|| format!("t{me}: delete {} -> {r}", self::es(e)));
        chk(r, &|| format!("deferred deletion of live {} failed", self::es(e)));
        chk(es.is_alive(e), &|| format!("{} dead before the merge", self::es(e)));
        t.deleted.borrow_mut().push(e);
    };
    match op {
        Create | CreateAttach => {
            let e = es.create();
            note(|| format!("t{me}: create -> {}", self::es(e)));
            chk(es.is_alive(e) && es.entity(e.index()) == Some(e), &|| format!("created {} not alive", self::es(e)));
            t.created.borrow_mut().push(e);
            if op == Create {
                t.slot.put(e);
            }
        }
        DeletePre => del(s.pre[0]),
        DeleteOwn => {
            let e = t.created.borrow().first().copied();
            if let Some(e) = e {
                del(e)
            }
        }
        DeleteTheirs => {
            if let Some(e) = theirs() {
                del(e)
            }
        }
        Query => {
            for e in s.pre.iter().take(2) {
                chk(es.is_alive(*e), &|| format!("live {} not alive", self::es(*e)));
            }
            for e in &s.stale {
                chk(!es.is_alive(*e) && es.delete(*e).is_err(), &|| format!("stale {} alive", self::es(*e)));
            }
        }
        _ => {}
    }
}
fn holder(s: &Start, ts: &[Thr], me: usize, prog: &[Op], att: &mut [Att; 2], writes: bool) {
    let t = &ts[me];
    let chk = |ok: bool, m: &dyn Fn() -> String| {
        if !ok {
            t.err.borrow_mut().get_or_insert(m());
        }
    };
    let mut next = 5000;
    let theirs = || ts.iter().enumerate().filter(|(i, _)| *i != me).find_map(|(_, o)| o.slot.get());
    if writes {
        let (es, mut p, mut q) = s.w.fetch::<(Entities, WriteComponent<P>, WriteComponent<Q>)>();
        for &op in prog {
            next += 1;
            let mut attach = |e: Entity, p: &mut WriteComponent<P>, q: &mut WriteComponent<Q>| {
                let (a, b) = (p.insert(e, P(next)).map(|o| o.map(|c| c.0)), q.insert(e, Q(-next)).map(|o| o.map(|c| c.0)));
                note(|| format!("t{me}: attach {next} to {} -> {a:?} {b:?}", self::es(e)));
                chk(a.is_ok() && b.is_ok(), &|| format!("attaching to live {} failed", self::es(e)));
                chk(a.as_ref().ok().copied().flatten() == att[0].get(&e).copied() && b.as_ref().ok().copied().flatten() == att[1].get(&e).copied(), &|| format!("attaching to {} replaced {a:?} {b:?}", self::es(e)));
                att[0].insert(e, next);
                att[1].insert(e, -next);
                chk(p.get(e).map(|c| c.0) == Some(next) && q.get(e).map(|c| c.0) == Some(-next), &|| format!("component of {} not seen right after attaching it", self::es(e)));
            };
            match op {
                CreateAttach => {
                    common(&es, s, ts, me, op, &chk);
                    let e = *t.created.borrow().last().unwrap();
                    chk(!p.contains(e) && !q.contains(e) && p.get(e).is_none(), &|| format!("created {} has components", self::es(e)));
                    attach(e, &mut p, &mut q);
                    t.slot.put(e);
                }
                AttachPre => attach(s.pre[0], &mut p, &mut q),
                AttachTheirs => {
                    if let Some(e) = theirs() {
                        attach(e, &mut p, &mut q)
                    }
                }
                DetachPre => {
                    let e = *s.pre.last().unwrap();
                    let r = p.remove(e).map(|o| o.map(|c| c.0));
                    note(|| format!("t{me}: detach from {} -> {r:?}", self::es(e)));
                    chk(r.as_ref().ok().copied().flatten() == att[0].remove(&e) && r.is_ok(), &|| format!("detaching from {} gave {r:?}", self::es(e)));
                    chk(p.get(e).is_none(), &|| format!("component of {} seen after removing it", self::es(e)));
                }
                AttachStale => {
                    for e in &s.stale {
                        chk(p.insert(*e, P(-1)).is_err() && q.get_mut(*e).is_none() && !p.contains(*e), &|| format!("stale {} accepted", self::es(*e)));
                    }
                }
                _ => common(&es, s, ts, me, op, &chk),
            }
        }
    } else {
        let (es, p, q) = s.w.fetch::<(Entities, ReadComponent<P>, ReadComponent<Q>)>();
        for &op in prog {
            match op {
                Read => {
                    for e in &s.pre {
                        chk(p.get(*e).map(|c| c.0) == att[0].get(e).copied(), &|| format!("component P of {} not read", self::es(*e)));
                        chk(q.get(*e).map(|c| c.0) == att[1].get(e).copied(), &|| format!("component Q of {} not read", self::es(*e)));
                    }
                    for e in &s.stale {
                        chk(p.get(*e).is_none() && !q.contains(*e), &|| format!("component read through stale {}", self::es(*e)));
                    }
                    if let Some(e) = theirs() {
                        chk(p.get(e).is_none() && q.get(e).is_none(), &|| format!("created {} has components", self::es(e)));
                    }
                }
                JoinEntities => {
                    let got: Vec<(Entity, i64)> = (&es, &p).join().map(|(e, c)| (e, c.0)).collect();
                    let exp: Vec<(Entity, i64)> = att[0].iter().map(|(e, v)| (*e, *v)).collect();
                    chk(got == exp, &|| format!("join of entities and P gave {got:?}, expected {exp:?}"));
                }
                _ => common(&es, s, ts, me, op, &chk),
            }
        }
    }
}
/// A component made of a number.
trait Num: Component + Send + Sync + 'static {
    fn of(n: i64) -> Self;
    fn num(&self) -> i64;
}
impl Num for P {
    fn of(n: i64) -> P {
        P(n)
    }
    fn num(&self) -> i64 {
        self.0
    }
}
impl Num for Q {
    fn of(n: i64) -> Q {
        Q(n)
    }
    fn num(&self) -> i64 {
        self.0
    }
}
/// One of the storages, held exclusively; `lasting`: for the whole program, else for each operation anew.
fn holder_of<C: Num>(s: &Start, ts: &[Thr], me: usize, prog: &[Op], att: &mut Att, lasting: bool)
where
    C::Storage: Send,
{
    let t = &ts[me];
    let chk = |ok: bool, m: &dyn Fn() -> String| {
        if !ok {
            t.err.borrow_mut().get_or_insert(m());
        }
    };
    let mut next = 5000 * (1 + me as i64);
    let theirs = || ts.iter().enumerate().filter(|(i, _)| *i != me).find_map(|(_, o)| o.slot.get());
    let mut held = None;
    for &op in prog {
        next += 1;
        let (es, c) = held.get_or_insert_with(|| s.w.fetch::<(Entities, WriteComponent<C>)>());
        let mut attach = |e: Entity, c: &mut WriteComponent<C>| {
            let had = att.insert(e, next);
            if next % 2 == 1 {
                let r = c.insert(e, C::of(next)).map(|o| o.map(|c| c.num()));
                note(|| format!("t{me}: attach {next} to {} -> {r:?}", self::es(e)));
                chk(r.as_ref().ok() == Some(&had), &|| format!("attaching to live {} replaced {r:?}, expected {had:?}", self::es(e)));
            } else {
                let r = c.get_or_insert_with(e, || C::of(next)).map(|c| c.num());
                note(|| format!("t{me}: attach {next} to {} unless it has one -> {r:?}", self::es(e)));
                if let Some(h) = had {
                    att.insert(e, h);
                }
                chk(r.as_ref().ok() == att.get(&e), &|| format!("component of live {} is {r:?}, expected {:?}", self::es(e), att.get(&e)));
            }
            chk(c.get(e).map(|c| c.num()) == att.get(&e).copied(), &|| format!("component of {} not seen right after attaching it", self::es(e)));
        };
        match op {
            CreateAttach => {
                common(es, s, ts, me, op, &chk);
                let e = *t.created.borrow().last().unwrap();
                chk(!c.contains(e) && c.get_guard(e).is_none(), &|| format!("created {} has a component", self::es(e)));
                attach(e, c);
                t.slot.put(e);
            }
            AttachPre => attach(s.pre[0], c),
            AttachTheirs => {
                if let Some(e) = theirs() {
                    attach(e, c)
                }
            }
            DetachPre => {
                let e = *s.pre.last().unwrap();
                let r = c.remove(e).map(|o| o.map(|c| c.num()));
                note(|| format!("t{me}: detach from {} -> {r:?}", self::es(e)));
                chk(r.as_ref().ok().copied().flatten() == att.remove(&e) && r.is_ok(), &|| format!("detaching from {} gave {r:?}", self::es(e)));
                chk(c.get(e).is_none(), &|| format!("component of {} seen after removing it", self::es(e)));
            }
            AttachStale => {
                for e in &s.stale {
                    chk(c.insert(*e, C::of(-1)).is_err() && c.get_mut(*e).is_none() && !c.contains(*e), &|| format!("stale {} accepted", self::es(*e)));
                }
            }
            _ => common(es, s, ts, me, op, &chk),
        }
        if !lasting {
            held = None;
        }
    }
}
/// How the storages are held: by the first thread, or one of them by each of the first two.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Held {
    Exclusively,
    Shared,
    Apart { lasting: bool },
}
fn go(k: usize, held: Held, progs: &[Vec<Op>]) -> Res {
    let mut s = start(k);
    let ts: Vec<Thr> = progs.iter().map(|_| Thr { created: Default::default(), deleted: Default::default(), err: Default::default(), slot: Slot::new() }).collect();
    let mut att: [Att; 2] = Default::default();
    for e in &s.pre {
        if let Some(c) = s.w.read_component::<P>().get(*e) {
            att[0].insert(*e, c.0);
        }
        if let Some(c) = s.w.read_component::<Q>().get(*e) {
            att[1].insert(*e, c.0);
        }
    }
    let attc = RefCell::new(att);
    {
        // one cell per storage, so that two threads do not touch the same one
        let [a0, a1] = attc.take();
        let apart = [RefCell::new(a0), RefCell::new(a1)];
        let sh = Share((&s, &ts, &apart));
        let sh = &sh;
        threads(
            progs
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    Box::new(move || {
                        let (s, ts, att) = (sh.0 .0, sh.0 .1, sh.0 .2);
                        if let Held::Apart { lasting } = held {
                            if i < 2 {
                                let mut a = att[i].borrow_mut();
                                return if i == 0 { holder_of::<P>(s, ts, i, p, &mut a, lasting) } else { holder_of::<Q>(s, ts, i, p, &mut a, lasting) };
                            }
                        }
                        if i == 0 {
                            let mut a = [att[0].take(), att[1].take()];
                            holder(s, ts, 0, p, &mut a, held == Held::Exclusively);
                            let [a0, a1] = a;
                            att[0].replace(a0);
                            att[1].replace(a1);
                        } else {
                            let t = &ts[i];
                            let chk = |ok: bool, m: &dyn Fn() -> String| {
                                if !ok {
                                    t.err.borrow_mut().get_or_insert(m());
                                }
                            };
                            let es = s.w.entities();
                            for o in p {
                                common(&es, s, ts, i, *o, &chk);
                            }
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        )?;
        attc.replace(apart.map(|a| a.into_inner()));
    }
    if redundant() {
        return Ok(());
    }
    for t in &ts {
        if let Some(e) = t.err.borrow().as_ref() {
            return Err(e.clone());
        }
    }
    let mut att = attc.into_inner();
    let created: Vec<Entity> = ts.iter().flat_map(|t| t.created.borrow().clone()).collect();
    let mut dead = s.pending.clone();
    dead.extend(ts.iter().flat_map(|t| t.deleted.borrow().clone()));
    let mut live: BTreeSet<Entity> = s.pre.iter().chain(&created).copied().collect();
    ensure_eq!(live.iter().map(|e| e.index()).collect::<BTreeSet<_>>().len(), s.pre.len() + created.len(), "distinct indexes of live entities");
    let look = |w: &World, live: &BTreeSet<Entity>, att: &[Att; 2], when: &str| -> Res {
        let es = w.entities();
        let got: Vec<Entity> = es.join().collect();
        let mut exp: Vec<Entity> = live.iter().copied().collect();
        exp.sort();
        ensure_eq!(got, exp, "live entities {when}");
        let (p, q) = w.fetch::<(ReadComponent<P>, ReadComponent<Q>)>();
        for e in s.pre.iter().chain(&created).chain(&s.stale).chain(live) {
            ensure_eq!(p.get(*e).map(|c| c.0), att[0].get(e).copied(), "component P of {} {when}", self::es(*e));
            ensure_eq!(q.get(*e).map(|c| c.0), att[1].get(e).copied(), "component Q of {} {when}", self::es(*e));
        }
        let m: Vec<u32> = p.mask().iter().collect();
        ensure_eq!(m, att[0].keys().map(|e| e.index()).collect::<Vec<_>>(), "indexes holding P {when}");
        let m: Vec<u32> = q.mask().iter().collect();
        ensure_eq!(m, att[1].keys().map(|e| e.index()).collect::<Vec<_>>(), "indexes holding Q {when}");
        ensure_eq!(q.as_slice().len(), m.len(), "values of Q {when}");
        Ok(())
    };
    look(&s.w, &live, &att, "before the merge")?;
    s.w.merge();
    for e in &dead {
        live.remove(e);
        att[0].remove(e);
        att[1].remove(e);
    }
    look(&s.w, &live, &att, "after the merge")?;
    // what reuses the indexes starts with nothing
    for i in 0..dead.len() + s.stale.len() + 1 {
        let e = if i % 2 == 0 { s.w.create_entity() } else { s.w.entities().create() };
        ensure!(live.insert(e), "{} created twice", self::es(e));
        look(&s.w, &live, &att, "after reuse")?;
    }
    s.w.merge();
    look(&s.w, &live, &att, "after a second merge")?;
    outcome(fp(&(k, &created, dead.len(), &att)));
    state(fp(&(k, held, progs)));
    // all others die at once
    for e in &live {
        ensure!(s.w.delete_entity(*e).is_ok(), "deleting live {} failed", self::es(*e));
    }
    look(&s.w, &BTreeSet::new(), &Default::default(), "after deleting everybody")?;
    Ok(())
}
pub fn run(c: &mut Ctx) {
    static W: [Op; 9] = [CreateAttach, AttachPre, AttachTheirs, DetachPre, AttachStale, DeleteOwn, DeletePre, DeleteTheirs, Create];
    static R: [Op; 5] = [Read, JoinEntities, DeletePre, DeleteTheirs, Create];
    static O: [Op; 5] = [Create, DeletePre, DeleteOwn, DeleteTheirs, Query];
    static O3: [Op; 3] = [Create, DeletePre, DeleteTheirs];
    static W3: [Op; 4] = [CreateAttach, AttachTheirs, AttachPre, DeleteOwn];
    fn ok(p: &[Op]) -> bool {
        p.iter().enumerate().all(|(i, o)| *o != DeleteOwn || p[..i].iter().any(|x| matches!(x, Create | CreateAttach)))
    }
    fn prog(ops: &[Op], n: usize) -> Vec<Op> {
        (0..n).map(|_| *pick(ops)).collect()
    }
    fn body(lens: &[usize], starts: &[usize], w: &'static [Op], r: &'static [Op], o: &'static [Op]) -> Res {
        let k = *pick(starts);
        let writes = choose(2) == 0;
        let mut ps = vec![prog(if writes { w } else { r }, lens[0])];
        for n in &lens[1..] {
            ps.push(prog(o, *n));
        }
        if !ps.iter().all(|p| ok(p)) || lens.len() == 3 && lens[1] == lens[2] && ps[1] > ps[2] {
            return Ok(());
        }
        note(|| format!("start {k}: storages held {}, programs {ps:?}", if writes { "exclusively" } else { "shared" }));
        step();
        go(k, if writes { Held::Exclusively } else { Held::Shared }, &ps)
    }
    fn apart(lens: &[usize], starts: &[usize], w: &'static [Op], o: &'static [Op]) -> Res {
        let k = *pick(starts);
        let lasting = choose(2) == 0;
        let ps: Vec<Vec<Op>> = lens.iter().enumerate().map(|(i, n)| prog(if i < 2 { w } else { o }, *n)).collect();
        if !ps.iter().all(|p| ok(p)) {
            return Ok(());
        }
        note(|| format!("start {k}: a storage held by each of two threads ({}), programs {ps:?}", if lasting { "throughout" } else { "per operation" }));
        step();
        go(k, Held::Apart { lasting }, &ps)
    }
    const APART: &str = "two threads each hold a different one of the two storages, throughout or for each operation anew, and create, attach, detach, delete; a third thread (if any) creates and deletes; every interleaving; own effects at once, then the world after the merge, after reusing the indexes, after a second merge and after deleting everybody";
    const RULE: &str = "a world with two component types, start states with free, unmerged and pending entities; one thread holds both storages (exclusively: create and attach, attach to a pre-existing, received or stale handle, detach; shared: read, join) while the others create and delete; every interleaving; own effects at once, then the world after the merge, after reusing the indexes and after a second merge";
    c.explore("1+1", RULE, || body(&[1, 1], &[0, 1, 2, 3, 4], &W, &R, &O));
    c.explore("2+1", RULE, || body(&[2, 1], &[0, 1, 2, 3, 4], &W, &R, &O));
    c.explore("1+2", RULE, || body(&[1, 2], &[0, 1, 2, 3, 4], &W, &R, &O));
    let t = c.thorough;
    c.explore("apart 1+1", APART, || apart(&[1, 1], &[0, 1, 2, 3, 4], &W, &O));
    c.explore("apart 2+1", APART, || apart(&[2, 1], &[0, 1, 3, 4], &W, &O));
    c.explore("apart 1+2", APART, || apart(&[1, 2], &[0, 1, 3, 4], &W, &O));
    if t {
        c.explore("apart 2+2", APART, || apart(&[2, 2], &[0, 1, 3, 4], &W, &O));
        c.explore("apart 1+1+1", APART, || apart(&[1, 1, 1], &[0, 1, 4], &W, &O));
    }
    c.explore("2+2", RULE, move || if t { body(&[2, 2], &[0, 1, 2, 3, 4], &W, &R, &O) } else { body(&[2, 2], &[0, 4], &W, &R, &O) });
    c.explore("1+1+1", RULE, move || if t { body(&[1, 1, 1], &[0, 1, 2, 3, 4], &W, &R, &O) } else { body(&[1, 1, 1], &[0, 4], &W3[..3], &R[..3], &O3) });
    if t {
        c.explore("3+2", RULE, || body(&[3, 2], &[1, 4], &W3, &R[..3], &O3));
        c.explore("2+1+1", RULE, || body(&[2, 1, 1], &[0, 1, 4], &W3, &R[..3], &O3));
    }
}
