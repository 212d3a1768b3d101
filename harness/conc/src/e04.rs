//! E04: concurrent use of one Allocator through `&Allocator`.
use crate::util::*;
use goggles::entity::*;
use goggles::join::*;
use hibitset::BitSetLike;
use mcx::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    /// create, then check it is alive; publish it to the other threads
    Create,
    /// deferred deletion of a pre-existing entity (possibly the same one in several threads)
    KillA,
    KillB,
    /// deferred deletion of the first entity this thread created
    KillOwn,
    /// deferred deletion of what another thread published
    KillTheirs,
    /// look at pre-existing live and stale handles and an index never used
    Query,
    /// look at what another thread published
    QueryTheirs,
    /// iterate over the live entities
    Iter,
}
use Op::*;

struct Start {
    a: Allocator,
    live: Vec<Entity>,
    stale: Vec<Entity>,
    /// indexes available for reuse
    free: BTreeSet<u32>,
    max: u32,
    pending: BTreeSet<Entity>,
}
const STARTS: usize = 9;
fn start(k: usize) -> Start {
    let mut a = Allocator::new();
    let mut live: Vec<Entity> = vec![];
    let mut stale: Vec<Entity> = vec![];
    let mut pending = BTreeSet::new();
    let prefill = match k {
        0 => 0,
        1..=4 => 4,
        5 => 63,
        6 => 64,
        7 => 2,
        _ => 4096,
    };
    for _ in 0..prefill {
        live.push(a.allocate());
    }
    let mut kill = |a: &mut Allocator, live: &mut Vec<Entity>, i: usize| {
        let e = live.remove(i);
        a.kill(e).unwrap();
        stale.push(e);
    };
    match k {
        2 => kill(&mut a, &mut live, 1),
        3 => {
            kill(&mut a, &mut live, 2);
            kill(&mut a, &mut live, 0);
        }
        4 => {
            // recycled once, one not yet merged creation, one pending deletion
            kill(&mut a, &mut live, 1);
            kill(&mut a, &mut live, 0);
            let e = a.allocate_atomic();
            live.push(e);
            let d = live[0];
            a.kill_atomic(d).unwrap();
            pending.insert(d);
        }
        5 => kill(&mut a, &mut live, 62),
        7 => {
            // everything dead
            kill(&mut a, &mut live, 0);
            kill(&mut a, &mut live, 0);
        }
        8 => {
            kill(&mut a, &mut live, 4095);
            live.truncate(2);
        }
        _ => {}
    }
    let max = prefill as u32;
    let used: BTreeSet<u32> = live.iter().map(|e| e.index()).collect();
    let mut free: BTreeSet<u32> = (0..max).filter(|i| !used.contains(i)).collect();
    if k == 8 {
        free = [4095].into();
    }
    Start { a, live, stale, free, max, pending }
}

struct Thr {
    created: RefCell<Vec<Entity>>,
    killed: RefCell<Vec<Entity>>,
    seen: RefCell<Vec<Entity>>,
    err: RefCell<Option<String>>,
    slot: Slot,
}

fn check(t: &Thr, ok: bool, msg: impl FnOnce() -> String) {
    if !ok {
        let m = msg();
        t.err.borrow_mut().get_or_insert(m);
    }
}

fn run_op(s: &Start, ts: &[Thr], me: usize, op: Op) {
    let t = &ts[me];
    let a = &s.a;
    let theirs = || ts.iter().enumerate().filter(|(i, _)| *i != me).find_map(|(_, o)| o.slot.get());
    match op {
        Create => {
            let e = a.allocate_atomic();
            note(|| format!("t{me}: create -> {}", es(e)));
            check(t, a.is_alive(e), || format!("entity {} not alive to its creator", es(e)));
            check(t, a.entity(e.index()) == Some(e), || format!("entity {} not found by its index by its creator", es(e)));
            t.created.borrow_mut().push(e);
            t.slot.put(e);
        }
        KillA | KillB => {
            let i = (op == KillB) as usize;
            if let Some(&e) = s.live.get(i) {
                let r = a.kill_atomic(e).is_ok();
                note(|| format!("t{me}: kill {} -> {r}", es(e)));
                check(t, r, || format!("deferred deletion of live {} failed", es(e)));
                check(t, a.is_alive(e), || format!("{} dead before the merge", es(e)));
                t.killed.borrow_mut().push(e);
            }
        }
        KillOwn => {
            let e = t.created.borrow().first().copied();
            if let Some(e) = e {
                let r = a.kill_atomic(e).is_ok();
                note(|| format!("t{me}: kill own {} -> {r}", es(e)));
                check(t, r, || format!("deferred deletion of own {} failed", es(e)));
                check(t, a.is_alive(e), || format!("{} dead before the merge", es(e)));
                t.killed.borrow_mut().push(e);
            }
        }
        KillTheirs => {
            if let Some(e) = theirs() {
                let r = a.kill_atomic(e).is_ok();
                note(|| format!("t{me}: kill received {} -> {r}", es(e)));
                check(t, r, || format!("deferred deletion of received {} failed", es(e)));
                t.killed.borrow_mut().push(e);
            }
        }
        Query => {
            for e in s.live.iter().take(2) {
                check(t, a.is_alive(*e) && a.entity(e.index()) == Some(*e), || format!("live {} not found", es(*e)));
            }
            for e in s.stale.iter().take(2) {
                check(t, !a.is_alive(*e), || format!("stale {} alive", es(*e)));
                check(t, a.kill_atomic(*e).is_err(), || format!("stale {} deleted", es(*e)));
                check(t, a.entity(e.index()) != Some(*e), || format!("stale {} found by index", es(*e)));
            }
            check(t, a.entity(s.max + 500).is_none(), || "entity found at an index never used".into());
        }
        QueryTheirs => {
            if let Some(e) = theirs() {
                note(|| format!("t{me}: received {}", es(e)));
                check(t, a.is_alive(e), || format!("received {} not alive", es(e)));
                check(t, a.entity(e.index()) == Some(e), || format!("received {} not found by index", es(e)));
                check(t, a.live_bitset().contains(e.index()), || format!("received {} not in the live set", es(e)));
            }
        }
        Iter => {
            let got: Vec<Entity> = a.join().collect();
            note(|| format!("t{me}: iterate -> {:?}", got.iter().map(|e| es(*e)).collect::<Vec<_>>()));
            check(t, got.windows(2).all(|w| w[0].index() < w[1].index()), || format!("iteration not ascending: {got:?}"));
            for e in s.live.iter().chain(t.created.borrow().iter()) {
                check(t, got.binary_search_by_key(&e.index(), |x| x.index()).ok().map(|i| got[i]) == Some(*e), || format!("live {} missing from iteration", es(*e)));
            }
            t.seen.borrow_mut().extend(got);
        }
    }
}

fn run_prog(k: usize, progs: &[Vec<Op>]) -> Res {
    let mut s = start(k);
    let ts: Vec<Thr> = progs
        .iter()
        .map(|_| Thr { created: Default::default(), killed: Default::default(), seen: Default::default(), err: Default::default(), slot: Slot::new() })
        .collect();
    {
        let sh = Share((&s, &ts));
        let sh = &sh;
        threads(
            progs
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    Box::new(move || {
                        for o in p {
                            run_op(sh.0 .0, sh.0 .1, i, *o);
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        )?;
    }
    if redundant() {
        return Ok(());
    }
    for t in &ts {
        if let Some(e) = t.err.borrow().as_ref() {
            return Err(e.clone());
        }
    }
    // Distinct identities, taken from the free indexes first, then the smallest unused ones.
    let created: Vec<Entity> = ts.iter().flat_map(|t| t.created.borrow().clone()).collect();
    let mut idx: BTreeSet<u32> = s.live.iter().map(|e| e.index()).collect();
    if k == 8 {
        idx = (0..4095).collect();
    }
    let n = created.len();
    for e in &created {
        ensure!(e.generation() != 0, "generation 0");
        ensure!(idx.insert(e.index()), "index {} handed out while in use", e.index());
        ensure!(s.stale.iter().all(|x| x != e), "{} was used before", es(*e));
        for x in s.stale.iter().filter(|x| x.index() == e.index()) {
            ensure!(e.generation() > x.generation(), "generation of {} did not grow", es(*e));
        }
    }
    let from_free = created.iter().filter(|e| s.free.contains(&e.index())).count();
    ensure_eq!(from_free, n.min(s.free.len()), "creations that reused a free index");
    let fresh_idx: Vec<u32> = {
        let mut v: Vec<u32> = created.iter().map(|e| e.index()).filter(|i| !s.free.contains(i)).collect();
        v.sort();
        v
    };
    let exp: Vec<u32> = (s.max..s.max + fresh_idx.len() as u32).collect();
    ensure_eq!(fresh_idx, exp, "new indexes");
    let max = s.max + exp.len() as u32;
    ensure_eq!(s.a.max_entity_count(), max, "max_entity_count");
    // Whatever was iterated existed.
    for t in &ts {
        for e in t.seen.borrow().iter() {
            let known = k == 8 && e.index() < 4095 && e.generation() == 1;
            ensure!(known || s.live.contains(e) || created.contains(e), "iteration produced {}, which never existed", es(*e));
        }
    }
    let mut dead: BTreeSet<Entity> = s.pending.clone();
    for t in &ts {
        dead.extend(t.killed.borrow().iter());
    }
    let mut alive: BTreeMap<u32, Entity> = s.live.iter().chain(&created).map(|e| (e.index(), *e)).collect();
    for e in alive.values() {
        ensure!(s.a.is_alive(*e), "{} not alive before the merge", es(*e));
    }
    let mut killed = vec![];
    s.a.merge_atomic(&mut killed);
    let kset: BTreeSet<Entity> = killed.iter().copied().collect();
    ensure_eq!(kset.len(), killed.len(), "merge reported an entity twice: {killed:?}");
    ensure_eq!(kset, dead, "entities deleted by the merge");
    for e in &dead {
        alive.remove(&e.index());
    }
    for e in &dead {
        ensure!(!s.a.is_alive(*e), "{} alive after the merge", es(*e));
    }
    if k != 8 {
        let got: Vec<Entity> = s.a.join().collect();
        let exp: Vec<Entity> = alive.values().copied().collect();
        ensure_eq!(got, exp, "live entities after the merge");
    }
    for e in alive.values() {
        ensure!(s.a.is_alive(*e) && s.a.entity(e.index()) == Some(*e), "{} lost by the merge", es(*e));
    }
    // No free index was lost: they all come back before a new one is used.
    let mut free: BTreeSet<u32> = s.free.iter().copied().filter(|i| created.iter().all(|e| e.index() != *i)).collect();
    free.extend(dead.iter().map(|e| e.index()));
    let mut back = BTreeSet::new();
    for _ in 0..free.len() {
        back.insert(s.a.allocate().index());
    }
    ensure_eq!(back, free, "indexes reused after the merge");
    ensure_eq!(s.a.allocate().index(), max, "next new index");
    state(fp(&(k, &created.iter().map(|e| (e.index(), e.generation())).collect::<Vec<_>>(), dead.len())));
    outcome(fp(&(k, format!("{:?}{:?}", created, ts.iter().map(|t| t.seen.borrow().clone()).collect::<Vec<_>>()))));
    Ok(())
}

pub fn run(c: &mut Ctx) {
    const OPS: [Op; 8] = [Create, KillA, KillB, KillOwn, KillTheirs, Query, QueryTheirs, Iter];
    fn prog(n: usize, ops: &[Op], first: bool) -> Vec<Op> {
        // op sequences in which an own-entity deletion follows a creation
        let mut v: Vec<Op> = vec![];
        for i in 0..n {
            let o = *pick(ops);
            if first && i == 0 {
                note(|| "program".into());
            }
            v.push(o);
        }
        v
    }
    fn id(p: &[Op]) -> Vec<usize> {
        p.iter().map(|o| OPS.iter().position(|x| x == o).unwrap()).collect()
    }
    fn useful(p: &[Op]) -> bool {
        for (i, o) in p.iter().enumerate() {
            if *o == KillOwn && !p[..i].contains(&Create) {
                return false;
            }
        }
        true
    }
    let two = |len: usize, ops: &'static [Op], starts: usize| {
        move || {
            let k = choose(starts);
            let p = prog(len, ops, true);
            let q = prog(len, ops, false);
            // thread order does not matter
            if !useful(&p) || !useful(&q) || id(&p) > id(&q) {
                return Ok(());
            }
            // somebody must publish for "theirs" to mean anything
            let needs = |x: &[Op], y: &[Op]| x.iter().any(|o| matches!(o, KillTheirs | QueryTheirs)) && !y.contains(&Create);
            if needs(&p, &q) || needs(&q, &p) {
                return Ok(());
            }
            note(|| format!("start {k} programs {p:?} || {q:?}"));
            run_prog(k, &[p, q])
        }
    };
    static ALL: [Op; 8] = OPS;
    static CORE: [Op; 4] = [Create, KillA, KillOwn, Iter];
    c.explore("2x1", "two threads, every pair of 1 of 8 operations, 9 start states, every interleaving of atomic accesses", two(1, &ALL, STARTS));
    c.explore("2x2", "two threads, every pair of programs of 2 of 8 operations, start states, every interleaving", two(2, &ALL, if c.thorough { STARTS } else { 5 }));
    let three = |ops: &'static [Op], starts: &'static [usize]| {
        move || {
            let k = starts[choose(starts.len())];
            let ps: Vec<Vec<Op>> = (0..3).map(|i| prog(1, ops, i == 0)).collect();
            if id(&ps[0]) > id(&ps[1]) || id(&ps[1]) > id(&ps[2]) {
                return Ok(());
            }
            note(|| format!("start {k} programs {ps:?}"));
            run_prog(k, &ps)
        }
    };
    static ST: [usize; 4] = [0, 2, 3, 4];
    c.explore("3x1", "three threads of one operation each, 4 start states, every interleaving", three(&CORE, &ST));
    c.explore("3x1 all", "three threads of one of 8 operations each, 3 start states, every interleaving", three(&ALL, &ST[1..]));
    static LONG: [Op; 3] = [Create, KillOwn, KillA];
    static MIX: [Op; 5] = [Create, KillA, KillOwn, QueryTheirs, Iter];
    if c.thorough {
        c.explore("2x3", "two threads of 3 of 5 operations each, 4 start states, every interleaving", two(3, &MIX, 4));
    } else {
        c.explore("2x3", "two threads of 3 of 3 operations each, 3 start states, every interleaving", two(3, &LONG, 3));
    }
    let uneven = |len: usize, n: usize, ops: &'static [Op]| {
        move || {
            let k = ST[choose(ST.len())];
            let mut ps = vec![prog(len, ops, true)];
            for _ in 1..n {
                ps.push(prog(1, ops, false));
            }
            if !ps.iter().all(|p| useful(p)) || ps[1..].windows(2).any(|w| id(&w[0]) > id(&w[1])) {
                return Ok(());
            }
            note(|| format!("start {k} programs {ps:?}"));
            run_prog(k, &ps)
        }
    };
    c.explore("2/1/1", "three threads of 2, 1 and 1 operations, 4 start states, every interleaving", uneven(2, 3, if c.thorough { &CORE } else { &LONG }));
    if c.thorough {
        static CC: [Op; 2] = [Create, KillA];
        c.explore("1/1/1/1", "four threads of one creation or deletion each, 4 start states, every interleaving", uneven(1, 4, &CC));
    }
}

/// E01, E05: what several threads create at once is distinct, and taken from the free indexes first.
pub fn creations(c: &mut Ctx) {
    static ST: [usize; 6] = [0, 2, 3, 4, 5, 7];
    let body = |n: usize, len: usize| {
        move || {
            let k = ST[choose(ST.len())];
            let progs: Vec<Vec<Op>> = (0..n).map(|_| (0..1 + choose(len)).map(|_| *pick(&[Create, KillOwn, KillA])).collect()).collect();
            let id = |p: &Vec<Op>| p.iter().map(|o| *o as usize).collect::<Vec<_>>();
            if progs.windows(2).any(|w| id(&w[0]) > id(&w[1])) || progs.iter().any(|p| p[0] == KillOwn) || !progs.iter().flatten().any(|o| *o == Create) {
                return Ok(());
            }
            note(|| format!("start {k} programs {progs:?}"));
            run_prog(k, &progs)
        }
    };
    c.explore("two threads", "two threads of up to 2 creations and deferred deletions, 6 start states with free and pending indexes, every interleaving; then a merge and reuse of every freed index", body(2, 2));
    c.explore("three threads", "three threads of one creation or deletion, 6 start states, every interleaving; then a merge and reuse of every freed index", body(3, 1));
}
