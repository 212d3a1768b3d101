//! E01, E02, E03, E05: every history of one Allocator (or of a World's entities).
use goggles::entity::{Allocator, Entity};
use goggles::join::IntoJoinExt;
use goggles::world::World;
use hibitset::BitSetLike;
use mcx::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Unique,
    Live,
    Merge,
    Compact,
}
use Which::*;

/// The two ways a user reaches the allocator.
enum Sys {
    A(Allocator),
    W(World),
}
impl Sys {
    fn create(&mut self) -> Entity {
        match self {
            Sys::A(a) => a.allocate(),
            Sys::W(w) => w.create_entity(),
        }
    }
    fn create_atomic(&self) -> Entity {
        match self {
            Sys::A(a) => a.allocate_atomic(),
            Sys::W(w) => w.entities().create(),
        }
    }
    fn kill(&mut self, e: Entity) -> bool {
        match self {
            Sys::A(a) => a.kill(e).is_ok(),
            Sys::W(w) => w.delete_entity(e).is_ok(),
        }
    }
    fn kill_atomic(&self, e: Entity) -> bool {
        match self {
            Sys::A(a) => a.kill_atomic(e).is_ok(),
            Sys::W(w) => w.entities().delete(e).is_ok(),
        }
    }
    fn alive(&self, e: Entity) -> bool {
        match self {
            Sys::A(a) => a.is_alive(e),
            Sys::W(w) => w.entities().is_alive(e),
        }
    }
    fn entity(&self, i: u32) -> Option<Entity> {
        match self {
            Sys::A(a) => a.entity(i),
            Sys::W(w) => w.entities().entity(i),
        }
    }
    fn bits(&self) -> Vec<u32> {
        match self {
            Sys::A(a) => a.live_bitset().iter().collect(),
            Sys::W(w) => w.entities().live_bitset().iter().collect(),
        }
    }
    fn has_bit(&self, i: u32) -> bool {
        match self {
            Sys::A(a) => BitSetLike::contains(&a.live_bitset(), i),
            Sys::W(w) => BitSetLike::contains(&w.entities().live_bitset(), i),
        }
    }
    fn iterate(&self) -> Vec<Entity> {
        match self {
            Sys::A(a) => a.join().collect(),
            Sys::W(w) => {
                let es = w.entities();
                let v: Vec<Entity> = es.join().collect();
                v
            }
        }
    }
    fn max(&self) -> u32 {
        match self {
            Sys::A(a) => a.max_entity_count(),
            Sys::W(w) => w.entities().max_entity_count(),
        }
    }
    fn merge(&mut self, v: &mut Vec<Entity>) {
        match self {
            Sys::A(a) => a.merge_atomic(v),
            Sys::W(w) => w.merge(),
        }
    }
}

struct M {
    which: Which,
    s: Sys,
    /// live entities by index
    live: BTreeMap<u32, Entity>,
    dead: Vec<Entity>,
    /// handles the operations may name
    named: Vec<Entity>,
    pending: BTreeSet<Entity>,
    free: BTreeSet<u32>,
    last_gen: BTreeMap<u32, u32>,
    max: u32,
    /// the vector handed to merge_atomic is reused, holding the previous result
    out: Vec<Entity>,
    /// observations are operations too
    looks: bool,
}
fn es(e: Entity) -> String {
    format!("{}v{}", e.index(), e.generation())
}
impl M {
    fn created(&mut self, e: Entity, how: &str) -> Res {
        note(|| format!("{how} -> {}", es(e)));
        let old = self.last_gen.get(&e.index()).copied();
        if self.which == Unique || self.which == Live {
            ensure!(e.generation() != 0, "{how} returned generation 0");
            ensure!(!self.live.contains_key(&e.index()), "{how} returned {} while {:?} is alive", es(e), self.live.get(&e.index()));
            if let Some(g) = old {
                ensure!(e.generation() > g, "{how} returned {} after generation {g} of that index existed", es(e));
            }
        }
        if self.which == Unique {
            let n = self.named.len();
            for &o in self.named[..n.min(24)].iter().chain(&self.named[n.saturating_sub(8).max(n.min(24))..]) {
                let same = (o.index(), o.generation()) == (e.index(), e.generation());
                ensure!(!same, "{how} returned {} twice", es(e));
                let c = o.cmp(&e);
                ensure!(o != e && e != o, "handles {} and {} compare equal", es(o), es(e));
                ensure!(c != std::cmp::Ordering::Equal && e.cmp(&o) == c.reverse() && e.partial_cmp(&o) == Some(c.reverse()), "handles {} and {} are not ordered", es(o), es(e));
            }
            let o = e;
            ensure!(o == e && o.cmp(&e).is_eq() && fp(&o) == fp(&e), "handle {} differs from its copy", es(e));
        }
        if self.which == Compact {
            if self.free.is_empty() {
                ensure_eq!(e.index(), self.max, "{how}: no freed index is available, so the smallest unused index is due");
            } else {
                ensure!(self.free.contains(&e.index()), "{how} used index {} although {:?} are free", e.index(), self.free);
            }
        }
        self.free.remove(&e.index());
        self.max = self.max.max(e.index() + 1);
        self.last_gen.insert(e.index(), e.generation());
        self.live.insert(e.index(), e);
        self.named.push(e);
        Ok(())
    }
    fn buried(&mut self, e: Entity) {
        self.live.remove(&e.index());
        self.pending.remove(&e);
        self.dead.push(e);
        self.free.insert(e.index());
    }
    fn is_live(&self, e: Entity) -> bool {
        self.live.get(&e.index()) == Some(&e)
    }
    fn op(&mut self) -> Res {
        let n = self.named.len();
        let k = choose(3 + 2 * n + if self.looks { n + 1 } else { 0 });
        step();
        match k {
            0 => {
                let e = self.s.create();
                self.created(e, "create")?;
            }
            1 => {
                let e = self.s.create_atomic();
                self.created(e, "create atomically")?;
            }
            2 => {
                let mut v = std::mem::take(&mut self.out);
                self.s.merge(&mut v);
                note(|| format!("merge -> {:?}", v.iter().map(|e| es(*e)).collect::<Vec<_>>()));
                if matches!(self.s, Sys::A(_)) && (self.which == Merge || self.which == Live) {
                    let mut got = v.clone();
                    got.sort();
                    let exp: Vec<Entity> = self.pending.iter().copied().collect();
                    ensure_eq!(got, exp, "entities reported as deleted by the merge");
                }
                for e in self.pending.clone() {
                    self.buried(e);
                }
                self.out = v;
            }
            k if k < 3 + n => {
                let e = self.named[k - 3];
                let exp = self.is_live(e);
                let r = self.s.kill(e);
                note(|| format!("delete {} -> {r}", es(e)));
                if self.which != Unique {
                    ensure_eq!(r, exp, "result of deleting {}", es(e));
                }
                if exp {
                    self.buried(e);
                }
            }
            k if k == 3 + 2 * n => {
                note(|| "iterate over the live entities".into());
                let exp: Vec<Entity> = self.live.values().copied().collect();
                ensure_eq!(self.s.iterate(), exp, "iteration over live entities");
            }
            k if k > 3 + 2 * n => {
                let e = self.named[k - 4 - 2 * n];
                note(|| format!("look at {}", es(e)));
                ensure_eq!(self.s.alive(e), self.is_live(e), "is_alive({})", es(e));
                ensure_eq!(self.s.entity(e.index()), self.live.get(&e.index()).copied(), "entity({})", e.index());
            }
            _ => {
                let e = self.named[k - 3 - n];
                let exp = self.is_live(e);
                let r = self.s.kill_atomic(e);
                note(|| format!("deferred delete {} -> {r}", es(e)));
                if self.which != Unique {
                    ensure_eq!(r, exp, "result of deferred deletion of {}", es(e));
                }
                if exp {
                    self.pending.insert(e);
                }
            }
        }
        Ok(())
    }
    fn check(&mut self) -> Res {
        if !fresh() {
            return Ok(());
        }
        if self.which == Compact {
            ensure_eq!(self.s.max(), self.max, "max_entity_count");
            for e in self.named.clone() {
                ensure_eq!(self.s.alive(e), self.is_live(e), "is_alive({})", es(e));
            }
        } else {
            let exp: Vec<Entity> = self.live.values().copied().collect();
            ensure_eq!(self.s.iterate(), exp, "iteration over live entities");
            let bits: Vec<u32> = self.live.keys().copied().collect();
            ensure_eq!(self.s.bits(), bits, "live set");
            for e in self.live.values().take(3).chain(self.named.iter()).chain(self.dead.iter()).copied() {
                ensure_eq!(self.s.alive(e), self.is_live(e), "is_alive({})", es(e));
            }
            let m = self.max;
            for i in (0..m.min(4)).chain(m.saturating_sub(4)..m + 3).chain([63, 64, 4095, 4096, 262143, 262144, (1 << 24) - 1]) {
                ensure_eq!(self.s.entity(i), self.live.get(&i).copied(), "entity({i})");
                ensure_eq!(self.s.has_bit(i), self.live.contains_key(&i), "live_bitset().contains({i})");
            }
            if self.which == Live {
                for i in [1 << 24, (1 << 24) + 1, (1 << 24) + 64, 1 << 30, 1 << 31, u32::MAX] {
                    ensure_eq!(catch(|| self.s.entity(i)), Ok(None), "entity({i})");
                }
            }
        }
        let f: Vec<(u32, u32, bool)> = self.live.values().map(|e| (e.index(), e.generation(), self.pending.contains(e))).rev().take(12).collect();
        state(fp(&(f, &self.free, self.max)));
        Ok(())
    }
}

const STARTS: [&str; 11] = [
    "empty", "one", "63", "64 with a hole", "all dead", "recycled twice", "pending creations and deletions",
    "free list partly used by atomic creations", "4095", "4096, last dead", "262143",
];
fn start(world: bool, which: Which, k: usize) -> M {
    let mut m = M {
        which,
        s: if world { Sys::W(World::new()) } else { Sys::A(Allocator::new()) },
        live: Default::default(),
        dead: vec![],
        named: vec![],
        pending: Default::default(),
        free: Default::default(),
        last_gen: Default::default(),
        max: 0,
        out: vec![],
        looks: false,
    };
    let n = match k {
        0 => 0,
        1 => 1,
        2 => 63,
        3 => 64,
        4 => 2,
        5 => 2,
        6 => 3,
        7 => 3,
        8 => 4095,
        9 => 4096,
        _ => 262143,
    };
    let mut v = vec![];
    for _ in 0..n {
        let e = m.s.create();
        v.push(e);
        m.live.insert(e.index(), e);
        m.last_gen.insert(e.index(), e.generation());
        m.max = m.max.max(e.index() + 1);
    }
    // What the named handles of each start state are; bookkeeping as for the explored operations.
    let kill = |m: &mut M, e: Entity| {
        m.s.kill(e);
        m.buried(e);
    };
    let mk = |m: &mut M, atomic: bool| {
        let e = if atomic { m.s.create_atomic() } else { m.s.create() };
        m.free.remove(&e.index());
        m.max = m.max.max(e.index() + 1);
        m.last_gen.insert(e.index(), e.generation());
        m.live.insert(e.index(), e);
        e
    };
    match k {
        1 => m.named = vec![v[0]],
        2 | 8 | 10 => m.named = vec![v[n - 1]],
        3 => {
            kill(&mut m, v[62]);
            m.named = vec![v[62], v[63]];
        }
        4 => {
            kill(&mut m, v[0]);
            kill(&mut m, v[1]);
            m.named = vec![v[0], v[1]];
        }
        5 => {
            kill(&mut m, v[1]);
            let e = mk(&mut m, false);
            kill(&mut m, e);
            let f = mk(&mut m, true);
            m.named = vec![v[1], e, f];
        }
        6 => {
            kill(&mut m, v[1]);
            let e = mk(&mut m, true);
            let f = mk(&mut m, true);
            m.s.kill_atomic(e);
            m.s.kill_atomic(v[0]);
            m.pending.insert(e);
            m.pending.insert(v[0]);
            m.named = vec![v[0], e, f];
        }
        7 => {
            kill(&mut m, v[0]);
            kill(&mut m, v[1]);
            kill(&mut m, v[2]);
            let e = mk(&mut m, true);
            m.named = vec![e, v[0]];
        }
        9 => {
            kill(&mut m, v[4095]);
            m.named = vec![v[4094], v[4095]];
        }
        _ => {}
    }
    m
}

fn seqs(c: &mut Ctx, which: Which, label: &str, world: bool, depth: usize, starts: &'static [usize]) {
    let looks = label.contains("looks");
    c.explore(
        label,
        &format!(
            "every sequence of {depth} operations ({}create, create atomically, delete, deferred delete of any named handle alive or dead, merge) from each start state {:?}{}; full comparison with the history after every operation",
            if looks { "look at a named handle, iterate, " } else { "" },
            starts.iter().map(|&k| STARTS[k]).collect::<Vec<_>>(),
            if world { ", through World and Entities" } else { "" }
        ),
        move || {
            let k = starts[choose(starts.len())];
            note(|| format!("start: {}", STARTS[k]));
            let mut m = start(world, which, k);
            m.looks = looks;
            if !looks {
                m.check()?;
            }
            for _ in 0..depth {
                m.op()?;
                m.check()?;
            }
            outcome(fp(&format!("{:?}{:?}", m.live.values().rev().take(9).collect::<Vec<_>>(), m.dead)));
            Ok(())
        },
    );
}

/// Two of them used in turns: neither may know of the other.
fn twins(c: &mut Ctx, which: Which, label: &str, world: bool, depth: usize, starts: &'static [usize]) {
    let looks = label.contains("looks");
    c.explore(
        label,
        &format!(
            "two {} side by side, each from any of the start states {:?}, and every sequence of {depth} operations ({}as above) each on either of them{}",
            if world { "worlds" } else { "allocators" },
            starts.iter().map(|&k| STARTS[k]).collect::<Vec<_>>(),
            if looks { "look at a named handle, iterate, otherwise " } else { "" },
            if looks { "; compared only at the end" } else { "; full comparison of both with their histories after every operation" },
        ),
        move || {
            let (j, k) = (choose(starts.len()), choose(starts.len()));
            if j > k {
                return Ok(());
            }
            note(|| format!("start: first {}, second {}", STARTS[starts[j]], STARTS[starts[k]]));
            let mut ms = [start(world, which, starts[j]), start(world, which, starts[k])];
            for m in &mut ms {
                m.looks = looks;
            }
            for _ in 0..depth {
                let t = choose(2);
                note(|| format!("{}:", ["first", "second"][t]));
                ms[t].op()?;
                if !looks {
                    ms[0].check()?;
                    ms[1].check()?;
                }
            }
            if looks {
                ms[1].check()?;
                ms[0].check()?;
            }
            outcome(fp(&format!("{:?}{:?}", ms[0].live, ms[1].live)));
            Ok(())
        },
    );
}

/// Which of `n` things a pattern concerns.
pub const PATTERNS: [&str; 9] = ["all", "none", "every second", "every third", "the first half", "the second half", "all but the first", "all but the last", "whole words only"];
pub fn in_pattern(p: usize, i: u32, n: u32) -> bool {
    match p {
        0 => true,
        1 => false,
        2 => i % 2 == 1,
        3 => i % 3 == 0,
        4 => i < n / 2,
        5 => i >= n / 2,
        6 => i > 0,
        7 => i + 1 < n,
        _ => i / 64 % 2 == 0,
    }
}
/// Many entities created, deleted and recreated at once.
fn mass(c: &mut Ctx, which: Which) {
    let sizes: &[u32] = c.q(&[1, 3, 64, 65, 130, 1000, 4097, 65537], &[1, 2, 3, 63, 64, 65, 130, 257, 1000, 4097, 65537]);
    // the subsets (immediately, deferred) tried with the largest sizes
    const LARGE: [(usize, usize); 4] = [(1, 0), (0, 1), (5, 7), (2, 3)];
    let large = c.q(5000, 100000);

    c.explore(
        "mass changes",
        &format!("{sizes:?} entities created (exclusively, atomically, alternately), a subset {PATTERNS:?} deleted immediately and another one deferred, merged or not, as many created again (exclusively, atomically, alternately), merged; comparison with the history after each phase; through Allocator and World; of the sizes above {large} only the pairs of subsets {LARGE:?}"),
        move || {
            let n = *pick(sizes);
            let world = choose(2) == 1;
            let (p1, p2) = if n > large { *pick(&LARGE) } else { (choose(9), choose(9)) };
            let (c1, mid, c2) = (choose(3), choose(2) == 1, choose(3));
            note(|| format!("{n} created {}, deleted {}, deferred {}{}, {n} more created {}", ["exclusively", "atomically", "alternately"][c1], PATTERNS[p1], PATTERNS[p2], if mid { ", merged" } else { "" }, ["exclusively", "atomically", "alternately"][c2]));
            let mut m = start(world, which, 0);
            let make = |m: &mut M, how: usize| {
                step();
                for i in 0..n {
                    let (e, w) = if how == 1 || how == 2 && i % 2 == 1 { (m.s.create_atomic(), "create atomically") } else { (m.s.create(), "create") };
                    m.created(e, w)?;
                }
                m.check()
            };
            let merge = |m: &mut M| {
                step();
                let mut v = std::mem::take(&mut m.out);
                m.s.merge(&mut v);
                if !world && (which == Merge || which == Live) {
                    let mut got = v.clone();
                    got.sort();
                    let exp: Vec<Entity> = m.pending.iter().copied().collect();
                    ensure_eq!(got, exp, "entities reported as deleted by the merge");
                }
                for e in m.pending.clone() {
                    m.buried(e);
                }
                m.out = v;
                m.check()
            };
            make(&mut m, c1)?;
            for (i, e) in m.named.clone().into_iter().enumerate() {
                if in_pattern(p2, i as u32, n) {
                    ensure!(m.s.kill_atomic(e), "deferred deletion of {} failed", es(e));
                    m.pending.insert(e);
                }
                if in_pattern(p1, i as u32, n) {
                    ensure!(m.s.kill(e), "deleting {} failed", es(e));
                    m.buried(e);
                }
            }
            m.check()?;
            if mid {
                merge(&mut m)?;
            }
            make(&mut m, c2)?;
            merge(&mut m)?;
            outcome(fp(&(m.live.len(), m.dead.len())));
            Ok(())
        },
    );
}

/// One index used again and again: handles from before stay dead for good.
fn reuse(c: &mut Ctx, which: Which) {
    let (top, far) = (c.q(17, 20), c.q(24, 28));
    c.explore(
        "many reuses",
        &format!("one index deleted and created again up to 2^{top}+1 times (2^{far}+1 times where no merge is involved) through Allocator and World, every way to create (exclusive, atomic, atomic and merged) and to delete (immediate, deferred), with and without neighbours; at 2^k-1, 2^k and 2^k+1 reuses every handle kept from such a point is compared with the history"),
        move || {
            let world = choose(2) == 1;
            let near = choose(2) as u32 * 2;
            let how = choose(3);
            let defer = choose(2) == 1;
            note(|| format!("{}, {near} neighbours, created {}, deleted {}", ["Allocator", "World"][world as usize], ["exclusively", "atomically", "atomically and merged"][how], ["immediately", "by a merge"][defer as usize]));
            let mut s = if world { Sys::W(World::new()) } else { Sys::A(Allocator::new()) };
            let others: Vec<Entity> = (0..near).map(|_| s.create()).collect();
            let mut e = s.create();
            let mut kept = vec![];
            let mut out = vec![];
            let mut k = 0u32;
            let top = if defer || how == 2 { top } else { far };
            loop {
                k += 1;
                if (k + 1).is_power_of_two() || k.is_power_of_two() || (k - 1).is_power_of_two() {
                    step();
                    state(fp(&(k, e)));
                    if which == Unique {
                        for o in &kept {
                            ensure!(e != *o, "reuse {k} returned {} again", es(e));
                        }
                    }
                    kept.push(e);
                    for (i, o) in kept.iter().enumerate() {
                        let live = i + 1 == kept.len();
                        ensure_eq!(s.alive(*o), live, "{} alive when {} is the newest", es(*o), es(e));
                        if !live {
                            ensure!(!s.kill(*o) && !s.kill_atomic(*o), "deleting dead {} succeeded", es(*o));
                        }
                    }
                    ensure_eq!(s.entity(e.index()), Some(e), "entity({})", e.index());
                    let exp: Vec<Entity> = others.iter().chain([&e]).copied().collect();
                    ensure_eq!(s.iterate(), exp, "live entities after {k} uses");
                }
                if k > 1 << top {
                    break;
                }
                if defer {
                    ensure!(s.kill_atomic(e), "deferred deletion of {} failed", es(e));
                    s.merge(&mut out);
                    if !world && which == Merge {
                        ensure_eq!(out, vec![e], "entities deleted by the merge");
                    }
                } else {
                    ensure!(s.kill(e), "deleting {} failed", es(e));
                }
                let o = e;
                e = if how == 0 { s.create() } else { s.create_atomic() };
                if how == 2 {
                    s.merge(&mut out);
                }
                ensure_eq!(e.index(), o.index(), "the freed index is the only one available");
                if which == Unique || which == Live {
                    ensure!(e.generation() > o.generation(), "{} created after {}", es(e), es(o));
                }
            }
            outcome(fp(&e));
            Ok(())
        },
    );
}

const CAP: u32 = 1 << 24;
/// The index space is full (or one short of it).
fn exhausted(c: &mut Ctx, depth: usize) {
    c.explore(
        "capacity",
        &format!("every sequence of {depth} operations on an allocator holding 2^24-1 or 2^24 entities: creations refused by panic exactly when no index is left, everything else works"),
        move || {
            let short = choose(2) as u32;
            let n = CAP - short;
            let mut a = Allocator::new();
            let mut gen: BTreeMap<u32, Option<Entity>> = BTreeMap::new();
            for i in 0..n {
                let e = a.allocate();
                ensure_eq!(e.index(), i, "index");
                if [0, 1, 63, CAP / 2, CAP - 2, CAP - 1].contains(&i) {
                    gen.insert(i, Some(e));
                }
            }
            note(|| format!("{n} live entities"));
            let mut max = n;
            let mut free: BTreeSet<u32> = BTreeSet::new();
            let mut pend: BTreeSet<u32> = BTreeSet::new();
            let mut last: BTreeMap<u32, u32> = BTreeMap::new();
            for _ in 0..depth {
                let op = choose(8);
                step();
                match op {
                    0 | 1 => {
                        let r = catch(|| if op == 0 { a.allocate() } else { a.allocate_atomic() });
                        note(|| format!("create{} -> {r:?}", ["", " atomically"][op]));
                        if free.is_empty() && max == CAP {
                            ensure!(r.is_err(), "creation in a full index space returned {r:?}");
                        } else {
                            let e = r.map_err(|m| format!("creation panicked although an index is available: {m}"))?;
                            if free.is_empty() {
                                ensure_eq!(e.index(), max, "new index");
                                max += 1;
                            } else {
                                ensure!(free.remove(&e.index()), "index {} was not free", e.index());
                            }
                            ensure!(last.get(&e.index()).map_or(true, |g| e.generation() > *g), "generation did not grow");
                            gen.insert(e.index(), Some(e));
                        }
                    }
                    2 => {
                        let mut v = vec![];
                        a.merge_atomic(&mut v);
                        note(|| format!("merge -> {v:?}"));
                        let got: BTreeSet<u32> = v.iter().map(|e| e.index()).collect();
                        ensure_eq!(got, pend, "indexes deleted by the merge");
                        for i in std::mem::take(&mut pend) {
                            last.insert(i, gen[&i].unwrap().generation());
                            gen.insert(i, None);
                            free.insert(i);
                        }
                    }
                    3..=5 => {
                        let i = [0, CAP - 2, max - 1][op - 3];
                        if let Some(Some(e)) = gen.get(&i).copied() {
                            note(|| format!("delete {}", es(e)));
                            ensure!(a.kill(e).is_ok(), "deleting live {} failed", es(e));
                            last.insert(i, e.generation());
                            gen.insert(i, None);
                            pend.remove(&i);
                            free.insert(i);
                            ensure!(a.kill(e).is_err(), "deleted twice");
                        }
                    }
                    _ => {
                        let i = [1, max - 1][op - 6];
                        if let Some(Some(e)) = gen.get(&i).copied() {
                            note(|| format!("deferred delete {}", es(e)));
                            ensure!(a.kill_atomic(e).is_ok(), "deferred deletion of {} failed", es(e));
                            pend.insert(i);
                        }
                    }
                }
                ensure_eq!(a.max_entity_count(), max, "max_entity_count");
                for (i, e) in &gen {
                    ensure_eq!(a.entity(*i), *e, "entity({i})");
                    if let Some(e) = e {
                        ensure!(a.is_alive(*e), "{} not alive", es(*e));
                    }
                    ensure_eq!(BitSetLike::contains(&a.live_bitset(), *i), e.is_some(), "live set at {i}");
                }
                if fresh() {
                    state(fp(&(max, &free, &pend)));
                }
            }
            if fresh() {
                let n = a.join().count() as u32;
                ensure_eq!(n, max - free.len() as u32, "number of live entities");
                let first: Vec<u32> = a.join().take(3).map(|e| e.index()).collect();
                let exp: Vec<u32> = (0..10).filter(|i| !free.contains(i)).take(3).collect();
                ensure_eq!(first, exp, "first live entities");
            }
            outcome(fp(&(max, &free, &pend)));
            Ok(())
        },
    );
}

/// An index whose generations are nearly used up.
fn worn(c: &mut Ctx, depth: usize) {
    const LABEL: &str = "worn index";
    const MAX_GEN: u32 = i32::MAX as u32;
    if !c.wants(LABEL) {
        return;
    }
    let mut a = Allocator::new();
    let mut first = a.allocate();
    let others = [a.allocate(), a.allocate()];
    let t0 = std::time::Instant::now();
    let made = catch(|| {
        while first.generation() < MAX_GEN - 1 {
            if a.kill(first).is_err() {
                break;
            }
            first = a.allocate();
            if first.index() != 0 || first.generation() & 0xffffff == 0 && t0.elapsed().as_secs() > 300 {
                break;
            }
        }
    });
    if let Err(m) = made {
        c.explore(LABEL, "setting up a worn-out index", || Err(format!("creating and deleting one entity again and again panicked after {}: {m}", es(first))));
        return;
    }
    let a = std::cell::UnsafeCell::new(a);
    struct Share<T>(T);
    unsafe impl<T> Sync for Share<T> {}
    let sh = Share(&a);
    c.explore(
        LABEL,
        &format!("an allocator whose index 0 was really created and deleted 2^31-3 times before; every sequence of {depth} operations (create, create atomically, delete or deferred delete of the newest entity of index 0, delete index 1, merge), each history on a forked copy: a creation may be refused only by a worn-out index, and leaves everything else working"),
        move || {
            let sh = &sh;
            let ops: Vec<usize> = (0..depth).map(|_| choose(6)).collect();
            steps(depth as u64);
            note(|| format!("index 0 is {}; operations {ops:?} (0 create, 1 create atomically, 2 merge, 3 delete newest of index 0, 4 defer it, 5 delete index 1)", es(first)));
            outcome(fp(&ops));
            in_fork(|| {
                let a = unsafe { &mut *sh.0.get() };
                let mut live: BTreeMap<u32, Entity> = [first, others[0], others[1]].into_iter().map(|e| (e.index(), e)).collect();
                let mut last: BTreeMap<u32, u32> = live.iter().map(|(i, e)| (*i, e.generation())).collect();
                let mut dead: Vec<Entity> = vec![];
                let mut pend: BTreeSet<Entity> = BTreeSet::new();
                let mut max = last.keys().max().unwrap() + 1;
                for (k, &op) in ops.iter().enumerate() {
                    let at = format!("at operation {k}");
                    let mut bury = |live: &mut BTreeMap<u32, Entity>, pend: &mut BTreeSet<Entity>, e: Entity| {
                        live.remove(&e.index());
                        pend.remove(&e);
                        dead.push(e);
                    };
                    match op {
                        0 | 1 => match catch(|| if op == 0 { a.allocate() } else { a.allocate_atomic() }) {
                            Ok(e) => {
                                ensure!(!live.contains_key(&e.index()), "{at}: created {} over {:?}", es(e), live.get(&e.index()));
                                ensure!(e.generation() != 0 && last.get(&e.index()).map_or(true, |g| e.generation() > *g), "{at}: created {} after generation {:?}", es(e), last.get(&e.index()));
                                max = max.max(e.index() + 1);
                                last.insert(e.index(), e.generation());
                                live.insert(e.index(), e);
                            }
                            Err(m) => ensure!(last.iter().any(|(i, g)| *g >= MAX_GEN && !live.contains_key(i)), "{at}: creation panicked: {m}"),
                        },
                        2 => {
                            let mut v = vec![];
                            a.merge_atomic(&mut v);
                            v.sort();
                            let exp: Vec<Entity> = pend.iter().copied().collect();
                            ensure_eq!(v, exp, "{at}: entities deleted by the merge");
                            for e in exp {
                                bury(&mut live, &mut pend, e);
                            }
                        }
                        3 | 5 => {
                            if let Some(e) = live.get(&(if op == 3 { 0 } else { 1 })).copied() {
                                ensure!(a.kill(e).is_ok(), "{at}: deleting {} failed", es(e));
                                bury(&mut live, &mut pend, e);
                            }
                        }
                        _ => {
                            if let Some(e) = live.get(&0).copied() {
                                ensure!(a.kill_atomic(e).is_ok(), "{at}: deferred deletion of {} failed", es(e));
                                pend.insert(e);
                            }
                        }
                    }
                    let exp: Vec<Entity> = live.values().copied().collect();
                    let got: Vec<Entity> = a.join().collect();
                    ensure_eq!(got, exp, "{at}: iteration over live entities");
                    let bits: Vec<u32> = a.live_bitset().iter().collect();
                    let exp: Vec<u32> = live.keys().copied().collect();
                    ensure_eq!(bits, exp, "{at}: live set");
                    ensure_eq!(a.max_entity_count(), max, "{at}: max_entity_count");
                    for i in 0..6 {
                        ensure_eq!(a.entity(i), live.get(&i).copied(), "{at}: entity({i})");
                    }
                    for e in &dead {
                        ensure!(!a.is_alive(*e) && a.kill(*e).is_err() && a.kill_atomic(*e).is_err(), "{at}: dead {} accepted", es(*e));
                    }
                }
                Ok(())
            })
        },
    );
}

pub fn run(c: &mut Ctx, which: Which) {
    static SMALL: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
    static BIG: [usize; 2] = [8, 9];
    static HUGE: [usize; 1] = [10];
    let d = c.q(6, 7);
    seqs(c, which, "deep", false, d + 1, &[0]);
    seqs(c, which, "starts", false, d - 1 + c.thorough as usize, &SMALL);
    seqs(c, which, "big", false, c.q(3, 4), &BIG);
    seqs(c, which, "huge", false, c.q(1, 2), &HUGE);
    seqs(c, which, "world", true, c.q(5, 6), &[0, 3, 5, 6]);
    if which != Unique {
        seqs(c, which, "looks", false, c.q(5, 6), &[0, 1]);
        seqs(c, which, "looks, starts", false, c.q(4, 5), &[4, 5, 6, 7]);
        seqs(c, which, "looks, world", true, c.q(4, 5), &[0, 3, 6]);
    }
    c.watched(|c| {
        seqs(c, which, "deep", false, d - 1, &[0]);
        seqs(c, which, "starts", false, d - 2, &SMALL);
        seqs(c, which, "world", true, c.q(4, 5), &[0, 3, 5, 6]);
    });
    twins(c, which, "two side by side", false, c.q(4, 5), &[0, 1, 4]);
    c.watched(|c| twins(c, which, "two side by side", true, c.q(3, 4), &[1, 4, 6]));
    if which != Unique {
        twins(c, which, "two side by side, looks", false, c.q(3, 4), &[1, 4, 5, 6]);
        twins(c, which, "two side by side, looks, worlds", true, c.q(3, 4), &[1, 4, 6]);
    }
    reuse(c, which);
    mass(c, which);
    if which == Compact {
        exhausted(c, c.q(2, 3));
        worn(c, c.q(4, 6));
    }
}
