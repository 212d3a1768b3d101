//! J02, S05: parallel joins and concurrent change marks, over every split and every interleaving.
use crate::util::*;
use goggles::entity::{Allocator, Entity};
use goggles::join::IntoJoinExt;
use goggles::masked::{GuardedElement, MaskedStorage};
use goggles::par_join::{JoinParIter, ParJoinExt};
use goggles::storage::*;
use goggles::tracked::*;
use hibitset::{BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use mcx::*;
use rayon::iter::ParallelIterator;
use std::cell::RefCell;
use std::collections::BTreeSet;

type Cell_ = ModelCell<i64>;
pub struct V(Cell_);
impl V {
    fn new(v: i64) -> V {
        V(ModelCell::new(v))
    }
}
/// What a worker does with an item, and what it saw: (position, index-identifying value).
trait Item {
    fn visit(self) -> Vec<i64>;
}
impl Item for &V {
    fn visit(self) -> Vec<i64> {
        vec![self.0.read(|v| *v)]
    }
}
impl Item for &mut V {
    fn visit(self) -> Vec<i64> {
        let o = self.0.read(|v| *v);
        self.0.write(|v| *v += 1_000_000);
        vec![o]
    }
}
impl Item for Entity {
    fn visit(self) -> Vec<i64> {
        vec![self.index() as i64, self.generation() as i64]
    }
}
impl Item for u32 {
    fn visit(self) -> Vec<i64> {
        vec![self as i64]
    }
}
impl<T: Item> Item for Option<T> {
    fn visit(self) -> Vec<i64> {
        self.map_or(vec![-1], |t| t.visit())
    }
}
impl<'a, S: RawStorage<Item = V>> Item for GuardedElement<'a, S> {
    fn visit(mut self) -> Vec<i64> {
        let o = self.get().0.read(|v| *v);
        // only some are asked for mutably
        if o % 2 == 0 {
            self.get_mut().0.write(|v| *v += 1_000_000);
        }
        vec![o]
    }
}
macro_rules! tup {
    ($($t:ident),*) => {
        impl<$($t: Item),*> Item for ($($t,)*) {
            #[allow(non_snake_case)]
            fn visit(self) -> Vec<i64> {
                let ($($t,)*) = self;
                let mut v = vec![];
                $(v.extend($t.visit());)*
                v
            }
        }
    };
}
tup!(A);
tup!(A, B);
tup!(A, B, C);
tup!(A, B, C, D);

struct W {
    al: Allocator,
    v: MaskedStorage<VecStorage<V>>,
    d: MaskedStorage<DenseVecStorage<V>>,
    h: MaskedStorage<HashMapStorage<V>>,
    f: MaskedStorage<Flagged<VecStorage<V>>>,
    bits: BitSet,
    marked: BTreeSet<u32>,
}
/// Which of the candidate indexes are in which member.
fn world(idx: &[u32], pat: usize, marks: usize) -> W {
    let mut w = W {
        al: Allocator::new(),
        v: Default::default(),
        d: Default::default(),
        h: Default::default(),
        f: Default::default(),
        bits: BitSet::new(),
        marked: Default::default(),
    };
    for (k, &i) in idx.iter().enumerate() {
        let p = pat >> (k % 8) & 1 == 1;
        w.v.insert(i, V::new(1000 + i as i64));
        if p {
            w.d.insert(i, V::new(2000 + i as i64));
        }
        if !p || k % 3 == 0 {
            w.h.insert(i, V::new(3000 + i as i64));
        }
        if k % 2 == 0 || p {
            w.f.insert(i, V::new(4000 + i as i64));
        }
        if p || k % 2 == 1 {
            w.bits.add(i);
        }
    }
    w.d.insert(idx[0] + 2, V::new(2000 + idx[0] as i64 + 2));
    if marks > 0 {
        for (k, &i) in idx.iter().enumerate() {
            if k % marks == 0 {
                w.f.mark_modified(i);
                w.marked.insert(i);
            }
        }
        w.f.set_track_modified(true);
    }
    w
}
fn entities(w: &mut W, idx: &[u32], pat: usize) {
    let n = idx.iter().copied().max().unwrap() + 1;
    let es: Vec<Entity> = (0..n).map(|_| w.al.allocate()).collect();
    for (k, &i) in idx.iter().enumerate() {
        if pat >> k & 1 == 0 {
            w.al.kill(es[i as usize]).unwrap();
            if k % 2 == 0 {
                w.al.allocate_atomic();
            }
        }
    }
}

thread_local! {
    static GOT: RefCell<Vec<Vec<i64>>> = const { RefCell::new(Vec::new()) };
}
const CONSUMERS: [&str; 10] = ["for_each", "collect", "filter+collect", "count", "find_any", "try_for_each", "find_first", "fold+reduce", "max", "partition"];
/// Drives the parallel iterator; returns what was visited in the order of visits and, if the
/// consumer keeps it, in order of the result.
fn drive<I>(it: I, how: usize) -> (Vec<Vec<i64>>, Option<Vec<Vec<i64>>>)
where
    I: ParallelIterator,
    I::Item: Item,
{
    GOT.with(|g| g.borrow_mut().clear());
    let see = |i: I::Item| {
        let v = i.visit();
        GOT.with(|g| g.borrow_mut().push(v.clone()));
        v
    };
    let res = match how {
        0 => {
            it.for_each(|i| drop(see(i)));
            None
        }
        1 => Some(it.map(see).collect::<Vec<_>>()),
        2 => Some(it.map(see).filter(|v| v[0] % 2 == 0).collect::<Vec<_>>()),
        3 => {
            let n = it.map(see).count();
            Some(vec![vec![n as i64]])
        }
        4 => Some(it.map(see).find_any(|v| v[0] % 2 == 0).into_iter().collect()),
        6 => Some(it.map(see).find_first(|v| v[0] % 2 == 0).into_iter().collect()),
        7 => Some(it.map(see).fold(Vec::new, |mut v: Vec<_>, x| { v.push(x); v }).reduce(Vec::new, |mut a, b| { a.extend(b); a })),
        8 => Some(it.map(see).max().into_iter().collect()),
        9 => {
            let (mut a, b): (Vec<_>, Vec<_>) = it.map(see).partition(|v| v[0] % 2 == 0);
            a.push(vec![]);
            a.extend(b);
            Some(a)
        }
        _ => {
            let r = it.try_for_each(|i| if see(i)[0] % 2 == 0 { Err(()) } else { Ok(()) });
            Some(vec![vec![r.is_ok() as i64]])
        }
    };
    (GOT.with(|g| std::mem::take(&mut *g.borrow_mut())), res)
}

macro_rules! shapes {
    ($($name:expr, $new:ident, |$w:ident| $e:expr;)*) => {
        const SHAPES: &[&str] = &[$($name),*];
        fn seq_of(w: &mut W, k: usize) -> Vec<Vec<i64>> {
            let mut n = 0;
            $(
                if k == n { let $w = &mut *w; return shapes!(@seq $new, $e).map(|i| i.visit()).collect(); }
                n += 1;
            )*
            let _ = n;
            unreachable!()
        }
        fn par_of(w: &mut W, k: usize, how: usize) -> (Vec<Vec<i64>>, Option<Vec<Vec<i64>>>) {
            let mut n = 0;
            $(
                if k == n { let $w = &mut *w; return drive(shapes!(@par $new, $e), how); }
                n += 1;
            )*
            let _ = n;
            unreachable!()
        }
    };
    (@seq c, $e:expr) => { ($e).join() };
    (@par c, $e:expr) => { ($e).par_join() };
    (@seq u, $e:expr) => { ($e).join_unconstrained() };
    (@par u, $e:expr) => { ($e).par_join_unconstrained() };
    (@seq n, $e:expr) => { goggles::join::JoinIter::new(goggles::join::IntoJoin::into_join($e)).unwrap() };
    (@par n, $e:expr) => { JoinParIter::new(goggles::join::IntoJoin::into_join($e)).unwrap() };
}
shapes! {
    "&mut vec", c, |w| &mut w.v;
    "&vec", c, |w| &w.v;
    "(&vec, &mut dense)", c, |w| (&w.v, &mut w.d);
    "(entities, &mut hash)", c, |w| (&w.al, &mut w.h);
    "(&bits, &mut dense, &vec)", c, |w| (&w.bits, &mut w.d, &w.v);
    "(&vec, (&mut dense).maybe())", c, |w| (&w.v, (&mut w.d).maybe());
    "flagged.guard()", c, |w| w.f.guard();
    "(&mut flagged, &hash)", c, |w| (&mut w.f, &w.h);
    "flagged.modified_mut()", c, |w| w.f.modified_mut();
    "flagged.modified()", n, |w| w.f.modified();
    "(!&bits, &mut vec, (&hash).maybe())", n, |w| (BitSetNot(&w.bits), &mut w.v, (&w.h).maybe());
    "(&bits | &bits2, &mut hash)", c, |w| (BitSetOr(&w.bits, w.d.mask()), &mut w.h);
    "(&bits & all, &mut hash, entities, &dense)", u, |w| (BitSetAnd(&w.bits, BitSetAll), &mut w.h, &w.al, &w.d);
    "(&bits ^ &bits2, &mut vec)", u, |w| (BitSetXor(&w.bits, w.d.mask()), &mut w.v);
    "((&mut vec, &mut dense), (&mut hash).maybe())", c, |w| ((&mut w.v, &mut w.d), (&mut w.h).maybe());
    "MaskedStorage.guard() of dense with hash", n, |w| (w.d.guard(), &mut w.h);
}

fn contents(w: &W) -> Vec<Vec<i64>> {
    fn all<S: RawStorage<Item = V>>(s: &MaskedStorage<S>) -> Vec<i64> {
        s.join().map(|v| *v.0.peek()).collect()
    }
    let mut v = vec![all(&w.v), all(&w.d), all(&w.h), all(&w.f)];
    v.push(w.f.modified_indexes().iter().map(|i| i as i64).collect());
    v
}

const LAYOUTS: &[&[u32]] = &[
    &[0],
    &[0, 1],
    &[3, 64],
    &[0, 63, 64, 128],
    &[1, 64, 65, 4095, 4096],
    &[4096, 5000, 8191, 8192],
    &[5, 262143, 262144],
    &[0, 64, 4096, 262144],
    &[0, 1, 64, 128, 4096, 4160],
];
/// Runs longer than a word: what one worker folds without a further split.
fn run_layout(l: usize) -> Vec<u32> {
    match l {
        0 => (0..65).collect(),
        1 => (0..66).map(|k| k * 2).collect(),
        2 => (60..195).collect(),
        3 => (4090..4165).collect(),
        _ => (0..90).map(|k| k * 63).collect(),
    }
}
fn layout(l: usize) -> Vec<u32> {
    if l < LAYOUTS.len() {
        LAYOUTS[l].to_vec()
    } else {
        run_layout(l - LAYOUTS.len())
    }
}
pub fn j02(c: &mut Ctx) {
    fn body(shapes: &[usize], layouts: &[usize], pats: usize, hows: usize, splits: usize) -> Res {
        let k = *pick(shapes);
        let l = *pick(layouts);
        let idx = &layout(l)[..];
        let ents = SHAPES[k].contains("entities");
        let pat = choose(pats) * 0x35 ^ 0x0b;
        let how = choose(hows);
        note(|| format!("{} over {idx:?}, pattern {pat:#b}, {}", SHAPES[k], CONSUMERS[how]));
        set_split_bound(splits);
        // the sequential join, on a copy
        let mk = || {
            let mut w = world(idx, pat, 2);
            if ents {
                entities(&mut w, idx, pat);
            }
            w
        };
        let mut ws = mk();
        let exp = seq_of(&mut ws, k);
        let mut w = mk();
        step();
        let (mut got, res) = match catch(|| {
            let out = RefCell::new(None);
            threads(vec![Box::new(|| *out.borrow_mut() = Some(par_of(&mut w, k, how)))])?;
            Ok(out.into_inner())
        }) {
            Err(m) => return Err(format!("par_join panicked: {m}")),
            Ok(Err(m)) => return Err(m),
            Ok(Ok(r)) => match r {
                Some(r) => r,
                None => return Ok(()),
            },
        };
        if redundant() {
            return Ok(());
        }
        outcome(fp(&(k, l, pat, how, &got)));
        note(|| format!("visited {got:?}, result {res:?}"));
        let order = got.clone();
        got.sort();
        let mut sorted = exp.clone();
        sorted.sort();
        let even: Vec<Vec<i64>> = exp.iter().filter(|v| v[0] % 2 == 0).cloned().collect();
        if !(4..=6).contains(&how) {
            ensure_eq!(got, sorted, "items handed to the workers of {}", SHAPES[k]);
            ensure_eq!(contents(&w), contents(&ws), "contents after {}", SHAPES[k]);
        } else {
            // short-circuiting: only items of the join, each at most once
            for v in &got {
                ensure!(sorted.binary_search(v).is_ok(), "an item that is not of the join: {v:?}");
            }
            ensure!(got.windows(2).all(|x| x[0] != x[1]), "an item handed out twice: {order:?}");
        }
        match (how, res) {
            (1, Some(r)) => ensure_eq!(r, exp, "collected items of {}", SHAPES[k]),
            (2, Some(r)) => ensure_eq!(r, even, "filtered items of {}", SHAPES[k]),
            (3, Some(r)) => ensure_eq!(r[0][0], exp.len() as i64, "count of {}", SHAPES[k]),
            (4, Some(r)) => {
                ensure_eq!(r.is_empty(), even.is_empty(), "find_any of {}", SHAPES[k]);
                ensure!(r.iter().all(|v| even.contains(v)), "find_any found {r:?}");
            }
            (6, Some(r)) => ensure_eq!(r, even.iter().take(1).cloned().collect::<Vec<_>>(), "find_first of {}", SHAPES[k]),
            (7, Some(r)) => ensure_eq!(r, exp, "folded and reduced items of {}", SHAPES[k]),
            (8, Some(r)) => ensure_eq!(r, exp.iter().max().into_iter().cloned().collect::<Vec<_>>(), "max of {}", SHAPES[k]),
            (9, Some(r)) => {
                let mut e = even.clone();
                e.push(vec![]);
                e.extend(exp.iter().filter(|v| v[0] % 2 != 0).cloned());
                ensure_eq!(r, e, "partition of {}", SHAPES[k]);
            }
            (5, Some(r)) => ensure_eq!(r[0][0] == 1, even.is_empty(), "try_for_each of {}", SHAPES[k]),
            _ => {}
        }
        state(fp(&(k, l, pat, exp.len())));
        Ok(())
    }
    static ALL: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    static NO_ENTS: [usize; 14] = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15];
    static MED: [usize; 6] = [0, 1, 2, 3, 4, 5];
    static BIG: [usize; 3] = [6, 7, 8];
    let t = c.thorough;
    c.explore(
        "shapes",
        "16 shapes of joins (shared, mutable, guarded, optional, modified, negated, united, intersected members of every storage kind, entities) over indexes spread across words and layers, membership patterns, 10 ways to consume (for_each, collect, filter, count, find_any, try_for_each, find_first, fold/reduce, max, partition); every split tree the runtime may choose, every interleaving of the workers' accesses; against the sequential join",
        move || if t { body(&ALL, &MED, 32, 10, 5) } else { body(&ALL, &MED, 8, 10, 4) },
    );
    c.explore("deep splits", "the shapes without entities over indexes up to 262144, split trees to depth 6 (7)", move || if t { body(&NO_ENTS, &BIG, 32, 10, 7) } else { body(&NO_ENTS, &BIG, 4, 3, 6) });
    static RUNS: [usize; 5] = [9, 10, 11, 12, 13];
    c.explore("long runs", "the shapes without entities over runs of 65 to 135 indexes in 2 to 90 words, with at most 0, 1, 2 or 3 levels of splits (a worker then folds over more than a word of items, and over several words)", move || {
        let s = choose(if t { 4 } else { 3 });
        if t { body(&NO_ENTS, &RUNS, 64, 10, s) } else { body(&NO_ENTS, &RUNS, 8, 10, s) }
    });
    let few = if t { 6 } else { 4 };
    c.explore("very long runs", "five shapes of joins over 4095 to 2^18+100 indexes, next to each other or one in every third, fifth or word; at most 0 to 3 levels of splits, so that one worker gets them all or a part; collect, for_each, count", move || {
        let n = *pick(&[4095u32, 4096, 4097, 70_000, (1 << 18) + 100, 20_000][..few]);
        let step_by = *pick(&[1u32, 3, 65, 5][..few - 2]);
        let k = choose(5);
        let how = choose(3);
        let splits = choose(4);
        if n > 5000 && (step_by > 1 || splits == 3 && !t) {
            return Ok(());
        }
        note(|| format!("{n} indexes, one in {step_by}, {}, at most {splits} levels of splits", ["&mut vec", "(&vec, &mut dense)", "(&bits, (&mut hash).maybe())", "flagged.guard()", "(entities, &mut vec)"][k]));
        set_split_bound(splits);
        step();
        let ids: Vec<u32> = (0..n).map(|i| i * step_by).collect();
        fn of<S: RawStorage<Item = u32> + Default>(ids: &[u32]) -> MaskedStorage<S> {
            let mut s = MaskedStorage::<S>::default();
            for &i in ids {
                s.insert(i, i);
            }
            s
        }
        fn drive<I: ParallelIterator>(it: I, how: usize, see: impl Fn(I::Item) -> u32 + Sync + Send) -> Result<Option<(Vec<u32>, usize)>, String>
        where
            I::Item: Send,
        {
            let out = RefCell::new(None);
            threads(vec![Box::new(|| {
                *out.borrow_mut() = Some(match how {
                    0 => (it.map(see).collect::<Vec<_>>(), 0),
                    1 => (vec![], {
                        it.for_each(|x| drop(see(x)));
                        0
                    }),
                    _ => (vec![], it.map(see).count()),
                })
            })])?;
            Ok(out.into_inner())
        }
        let res;
        let now: Vec<u32>;
        match k {
            0 => {
                let mut v = of::<VecStorage<u32>>(&ids);
                res = drive((&mut v).par_join(), how, |x| { *x += 1; *x - 1 })?;
                now = v.join().copied().collect();
            }
            1 => {
                let v = of::<VecStorage<u32>>(&ids);
                let mut d = of::<DenseVecStorage<u32>>(&ids);
                res = drive((&v, &mut d).par_join(), how, |(a, x)| { *x += 1; if *a + 1 == *x { *a } else { !0 } })?;
                now = d.join().copied().collect();
            }
            2 => {
                let mut bits = BitSet::new();
                ids.iter().for_each(|i| drop(bits.add(*i)));
                let mut h = of::<HashMapStorage<u32>>(&ids);
                res = drive((&bits, (&mut h).maybe()).par_join(), how, |(i, x)| { let x = x.unwrap(); *x += 1; if i + 1 == *x { i } else { !0 } })?;
                now = h.join().copied().collect();
            }
            3 => {
                let mut f = of::<Flagged<VecStorage<u32>>>(&ids);
                res = drive(f.guard().par_join(), how, |mut x| { *x.get_mut() += 1; *x.get() - 1 })?;
                now = f.join().copied().collect();
            }
            _ => {
                let mut a = Allocator::new();
                for _ in 0..=*ids.last().unwrap() {
                    a.allocate();
                }
                let mut v = of::<VecStorage<u32>>(&ids);
                res = drive((&a, &mut v).par_join(), how, |(e, x)| { *x += 1; if e.index() + 1 == *x && e.generation() == 1 { e.index() } else { !0 } })?;
                now = v.join().copied().collect();
            }
        }
        let Some((got, count)) = res else { return Ok(()) };
        if redundant() {
            return Ok(());
        }
        if how == 0 {
            let bad = got.iter().zip(&ids).position(|(a, b)| a != b);
            ensure!(got.len() == ids.len() && bad.is_none(), "collected {} of {} items, the first wrong one at position {bad:?}", got.len(), ids.len());
        }
        if how == 2 {
            ensure_eq!(count, ids.len(), "items counted");
        }
        let bad = now.iter().zip(&ids).position(|(a, b)| *a != *b + 1);
        ensure!(now.len() == ids.len() && bad.is_none(), "not every element was visited exactly once: {} elements, the first wrong one at position {bad:?}", now.len());
        state(fp(&(n, step_by, k, how)));
        Ok(())
    });
    c.explore("many words", "a mutable join over 4 to 9 occupied words, whose split trees are explored to depth 5", move || {
        let n = 4 + choose(if t { 6 } else { 5 }) as u32;
        set_split_bound(5);
        let mut s: MaskedStorage<DenseVecStorage<V>> = Default::default();
        for i in 0..n {
            s.insert(i * 64 + (i % 3), V::new(i as i64));
        }
        let out = RefCell::new(None);
        step();
        threads(vec![Box::new(|| *out.borrow_mut() = Some((&mut s).par_join().map(|v| v.visit()[0]).collect::<Vec<_>>()))])?;
        if redundant() {
            return Ok(());
        }
        let got = out.into_inner().unwrap();
        ensure_eq!(got, (0..n as i64).collect::<Vec<_>>(), "collected");
        let now: Vec<i64> = s.join().map(|v| *v.0.peek()).collect();
        ensure_eq!(now, (0..n as i64).map(|i| i + 1_000_000).collect::<Vec<_>>(), "values afterwards");
        state(fp(&n));
        Ok(())
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    /// read through the guard
    Read,
    /// get_mut through the guard
    Mut,
    /// mark through the guard
    Mark,
    /// get and get_mut, twice
    Both,
}
const ACTS: [Act; 4] = [Act::Mut, Act::Read, Act::Mark, Act::Both];

fn flagged<S: RawStorage<Item = V>>(s: &mut MaskedStorage<Flagged<S>>, idx: &[u32], tracking: bool, pre: &[u32])
where
    Flagged<S>: Default,
{
    for &i in idx {
        s.insert(i, V::new(i as i64));
    }
    s.set_track_modified(tracking);
    for &i in pre {
        s.mark_modified(i);
    }
}
fn marks<S: RawStorage<Item = V>>(s: &MaskedStorage<Flagged<S>>, exp: &BTreeSet<u32>, look: &[u32]) -> Res {
    let got: Vec<u32> = s.modified_indexes().iter().collect();
    let e: Vec<u32> = exp.iter().copied().collect();
    ensure_eq!(got, e, "modified indexes");
    for i in look.iter().chain(&[0, 1, 63, 64, 4095, 4096, 262143, 262144]) {
        ensure_eq!(s.modified_indexes().contains(*i), exp.contains(i), "modified_indexes().contains({i})");
    }
    let items: Vec<Option<i64>> = s.modified().join().map(|o| o.map(|v| *v.0.peek() % 1_000_000)).collect();
    let e: Vec<Option<i64>> = exp.iter().map(|i| s.contains(*i).then_some(*i as i64)).collect();
    ensure_eq!(items, e, "modified()");
    Ok(())
}
const FIDX: &[&[u32]] = &[&[0, 1], &[0, 64], &[3, 4096], &[63, 262144], &[0, 1, 2], &[0, 64, 4096], &[64, 65, 128], &[262143, 262144, 4095]];

/// Guards of distinct elements in different threads.
fn guards<S: RawStorage<Item = V>>(mut s: MaskedStorage<Flagged<S>>, max: usize) -> Res
where
    Flagged<S>: Default,
{
    let idx = *pick(&FIDX[..max]);
    let tracking = choose(3) < 2;
    let pre: Vec<u32> = if choose(2) == 1 { vec![idx[0], 130] } else { vec![] };
    flagged(&mut s, idx, tracking, &pre);
    let acts: Vec<Act> = idx.iter().map(|_| *pick(&ACTS)).collect();
    // whether the last two guards are handled by the same thread
    note(|| format!("guards of {idx:?} in threads doing {acts:?}, tracking {tracking}, marked before {pre:?}"));
    let mut exp: BTreeSet<u32> = pre.iter().copied().collect();
    for (i, a) in idx.iter().zip(&acts) {
        if *a == Act::Mark || (tracking && matches!(a, Act::Mut | Act::Both)) {
            exp.insert(*i);
        }
    }
    step();
    {
        let gs: Vec<_> = s.guard().join().collect();
        // guards come in ascending order
        let mut order: Vec<usize> = (0..idx.len()).collect();
        order.sort_by_key(|k| idx[*k]);
        threads(
            gs.into_iter()
                .zip(order)
                .map(|(mut g, k)| {
                    let a = acts[k];
                    Box::new(move || match a {
                        Act::Read => drop(g.get().0.read(|v| *v)),
                        Act::Mut => g.get_mut().0.write(|v| *v += 1_000_000),
                        Act::Mark => g.mark_modified(),
                        Act::Both => {
                            g.get().0.read(|v| *v);
                            g.get_mut().0.write(|v| *v += 1_000_000);
                            g.get_mut().0.write(|v| *v += 1_000_000);
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        )?;
    }
    if redundant() {
        return Ok(());
    }
    marks(&s, &exp, idx)?;
    state(fp(&(idx, &acts, tracking, pre.len())));
    outcome(fp(&exp));
    Ok(())
}
/// Explicit marks through a shared reference, of any (possibly the same) indexes.
fn marking<S: RawStorage<Item = V>>(mut s: MaskedStorage<Flagged<S>>, threads_: usize, each: usize, cands: &'static [u32]) -> Res
where
    Flagged<S>: Default,
{
    let pre = choose(3);
    flagged(&mut s, &[cands[0], 70], choose(2) == 0, &[&[][..], &[cands[0]], &[129, cands[1]]][pre]);
    let mut exp: BTreeSet<u32> = s.modified_indexes().iter().collect();
    let progs: Vec<Vec<u32>> = (0..threads_).map(|_| (0..each).map(|_| *pick(cands)).collect()).collect();
    if progs.windows(2).any(|w| w[0] > w[1]) {
        return Ok(());
    }
    note(|| format!("threads marking {progs:?} with {exp:?} marked before"));
    exp.extend(progs.iter().flatten());
    step();
    let err = RefCell::new(None);
    {
        let sh = Share((&s, &err));
        let sh = &sh;
        threads(
            progs
                .iter()
                .map(|p| {
                    Box::new(move || {
                        for i in p {
                            sh.0 .0.mark_modified(*i);
                            if !sh.0 .0.modified_indexes().contains(*i) {
                                *sh.0 .1.borrow_mut() = Some(format!("mark of {i} not seen by its own thread"));
                            }
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        )?;
    }
    if redundant() {
        return Ok(());
    }
    if let Some(e) = err.into_inner() {
        return Err(e);
    }
    marks(&s, &exp, cands)?;
    outcome(fp(&exp));
    state(fp(&(&exp, pre)));
    Ok(())
}
/// Threads that mark without looking, beside threads that only look.
fn marking_observed<S: RawStorage<Item = V>>(mut s: MaskedStorage<Flagged<S>>, markers: usize, each: usize, observers: usize, cands: &'static [u32]) -> Res
where
    Flagged<S>: Default,
{
    let pre = choose(3);
    flagged(&mut s, &[cands[0], 70], choose(2) == 0, &[&[][..], &[cands[0]], &[129, cands[1]]][pre]);
    let before: BTreeSet<u32> = s.modified_indexes().iter().collect();
    let progs: Vec<Vec<u32>> = (0..markers).map(|_| (0..each).map(|_| *pick(cands)).collect()).collect();
    if progs.windows(2).any(|w| w[0] > w[1]) {
        return Ok(());
    }
    let way = if observers > 0 { choose(3) } else { 0 };
    note(|| format!("threads marking {progs:?} with {before:?} marked before, {observers} looking at {}", ["the set", "one index of each", "the modified join"][way]));
    let mut exp = before.clone();
    exp.extend(progs.iter().flatten());
    step();
    let err = RefCell::new(None);
    {
        let sh = Share((&s, &err, &before, &exp));
        let sh = &sh;
        let mut all: Vec<Box<dyn FnOnce() + '_>> = vec![];
        for p in &progs {
            all.push(Box::new(move || p.iter().for_each(|i| sh.0 .0.mark_modified(*i))));
        }
        for _ in 0..observers {
            all.push(Box::new(move || {
                let (s, err, before, exp) = sh.0;
                let got: BTreeSet<u32> = match way {
                    0 => s.modified_indexes().iter().collect(),
                    1 => exp.iter().copied().filter(|i| s.modified_indexes().contains(*i)).collect(),
                    _ => {
                        let n = s.modified().join().count();
                        if n < before.len() || n > exp.len() {
                            *err.borrow_mut() = Some(format!("{n} modified elements seen meanwhile, expected {} to {}", before.len(), exp.len()));
                        }
                        return;
                    }
                };
                if !got.is_superset(before) || !got.is_subset(exp) {
                    *err.borrow_mut() = Some(format!("marks seen meanwhile: {got:?}, expected between {before:?} and {exp:?}"));
                }
            }));
        }
        threads(all)?;
    }
    if redundant() {
        return Ok(());
    }
    if let Some(e) = err.into_inner() {
        return Err(e);
    }
    marks(&s, &exp, cands)?;
    outcome(fp(&exp));
    state(fp(&(&exp, pre)));
    Ok(())
}
pub fn s05(c: &mut Ctx) {
    let t = c.thorough;
    const RULE: &str = "guards of 2 or 3 elements (same word, same block, different layers) each in its own thread that reads, mutates, marks or both; tracking on/off, marks from before; every interleaving; the marks afterwards";
    c.explore("guards Vec", RULE, move || guards(MaskedStorage::<Flagged<VecStorage<V>>>::default(), FIDX.len()));
    c.explore("guards DenseVec", RULE, move || guards(MaskedStorage::<Flagged<DenseVecStorage<V>>>::default(), FIDX.len()));
    c.explore("guards HashMap", RULE, move || guards(MaskedStorage::<Flagged<HashMapStorage<V>>>::default(), FIDX.len()));
    const CANDS: &[u32] = &[0, 1, 64, 4096, 262144];
    const MARK: &str = "threads marking any of the indexes 0, 1, 64, 4096, 262144 (colliding or not) through a shared reference, marks from before; every interleaving; each thread sees its own marks, and afterwards exactly all marks are there";
    c.explore("marking 2x1", MARK, move || marking(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 2, 1, CANDS));
    c.explore("marking 2x2", MARK, move || marking(MaskedStorage::<Flagged<HashMapStorage<V>>>::default(), 2, 2, CANDS));
    c.explore("marking 3x1", MARK, move || marking(MaskedStorage::<Flagged<DenseVecStorage<V>>>::default(), 3, 1, CANDS));
    if t {
        c.explore("marking 2x3", MARK, move || marking(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 2, 3, &CANDS[1..4]));
        c.explore("marking 3x2", MARK, move || marking(MaskedStorage::<Flagged<DenseVecStorage<V>>>::default(), 3, 2, &CANDS[1..4]));
        c.explore("marking 4x1", MARK, move || marking(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 4, 1, &CANDS[1..4]));
    }
    const OBS: &str = "threads marking indexes without looking, beside threads that only look at the modified set, at single indexes of it or at the modified join; every interleaving; nothing but marks is seen, and afterwards exactly all marks are there";
    c.explore("marks observed 2x1+0", OBS, move || marking_observed(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 2, 1, 0, CANDS));
    c.explore("marks observed 2x2+0", OBS, move || marking_observed(MaskedStorage::<Flagged<DenseVecStorage<V>>>::default(), 2, 2, 0, CANDS));
    c.explore("marks observed 3x1+0", OBS, move || marking_observed(MaskedStorage::<Flagged<DenseVecStorage<V>>>::default(), 3, 1, 0, CANDS));
    c.explore("marks observed 1x2+1", OBS, move || marking_observed(MaskedStorage::<Flagged<HashMapStorage<V>>>::default(), 1, 2, 1, CANDS));
    c.explore("marks observed 2x1+1", OBS, move || marking_observed(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 2, 1, 1, CANDS));
    if t {
        c.explore("marks observed 2x2+1", OBS, move || marking_observed(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 2, 2, 1, CANDS));
        c.explore("marks observed 2x1+2", OBS, move || marking_observed(MaskedStorage::<Flagged<HashMapStorage<V>>>::default(), 2, 1, 2, CANDS));
        c.explore("marks observed 2x3+0", OBS, move || marking_observed(MaskedStorage::<Flagged<VecStorage<V>>>::default(), 2, 3, 0, &CANDS[1..4]));
    }
    c.explore("many marks", "a parallel join over &mut flagged / guards / modified_mut of 65 to 70 000 elements, handled by one worker, that mutates all, one in three or one in 4096 of them; tracking on/off; the marks afterwards", move || {
        let n = *pick(&[65u32, 130, 4097, 70_000]);
        let step_by = *pick(&[1u32, 3]);
        let kind = choose(3);
        let tracking = choose(2) == 0;
        let every = *pick(&[1u32, 3, 4096]);
        note(|| format!("{} over {n} indexes, one in {step_by}, mutating one in {every}, tracking {tracking}", ["&mut", "guard()", "modified_mut()"][kind]));
        set_split_bound(0);
        step();
        let mut s: MaskedStorage<Flagged<VecStorage<u32>>> = Default::default();
        let ids: Vec<u32> = (0..n).map(|i| i * step_by).collect();
        for &i in &ids {
            s.insert(i, i);
        }
        s.set_track_modified(tracking);
        let mut exp: BTreeSet<u32> = Default::default();
        if kind == 2 {
            for i in ids.iter().filter(|i| **i % 2 == 0) {
                s.mark_modified(*i);
                exp.insert(*i);
            }
        }
        let hit = move |i: u32| i / step_by % every == 0;
        // the calling thread is the only worker
        match kind {
            0 => (&mut s).par_join().for_each(|v| if hit(*v) { *v += 1_000_000 }),
            1 => s.guard().par_join().for_each(|mut g| if hit(*g.get()) { *g.get_mut() += 1_000_000 }),
            _ => s.modified_mut().par_join().for_each(|o| {
                let v = o.unwrap();
                if hit(*v) { *v += 1_000_000 }
            }),
        }
        if tracking && kind < 2 {
            exp.extend(ids.iter().filter(|i| kind == 0 || hit(**i)));
        }
        let got: Vec<u32> = s.modified_indexes().iter().collect();
        let bad = got.iter().zip(&exp).position(|(a, b)| a != b);
        ensure!(got.len() == exp.len() && bad.is_none(), "{} indexes marked, expected {}; first difference at position {bad:?}", got.len(), exp.len());
        let wrong = ids.iter().find(|i| *s.get(**i).unwrap() != **i + if hit(**i) && (kind != 2 || **i % 2 == 0) { 1_000_000 } else { 0 });
        ensure!(wrong.is_none(), "value at {wrong:?}");
        state(fp(&(n, step_by, kind, tracking, every)));
        Ok(())
    });
    c.explore("parallel iteration", "a parallel join over &mut flagged / guards / modified_mut, workers mutating the elements chosen by every subset; every split and interleaving; the marks afterwards", move || {
        let idx = *pick(FIDX);
        let kind = choose(3);
        let tracking = choose(4) < 3;
        let subset = choose(1 << idx.len());
        let hit = move |i: i64| subset >> idx.iter().position(|x| *x as i64 == i).unwrap() & 1 == 1;
        let mut s: MaskedStorage<Flagged<DenseVecStorage<V>>> = Default::default();
        set_split_bound(4);
        let mut exp = BTreeSet::new();
        flagged(&mut s, idx, tracking, if kind == 2 { idx } else { &[] });
        if kind == 2 {
            exp.extend(idx);
        }
        note(|| format!("{} over {idx:?}, mutating subset {subset:#b}, tracking {tracking}", ["&mut", "guard()", "modified_mut()"][kind]));
        if tracking {
            exp.extend(idx.iter().filter(|i| kind != 1 || hit(**i as i64)));
        }
        step();
        threads(vec![Box::new(|| match kind {
            0 => (&mut s).par_join().for_each(|v| {
                if hit(v.0.read(|v| *v)) {
                    v.0.write(|v| *v += 1_000_000)
                }
            }),
            1 => s.guard().par_join().for_each(|mut g| {
                if hit(g.get().0.read(|v| *v)) {
                    g.get_mut().0.write(|v| *v += 1_000_000)
                }
            }),
            _ => s.modified_mut().par_join().for_each(|o| {
                let v = o.unwrap();
                if hit(v.0.read(|v| *v)) {
                    v.0.write(|v| *v += 1_000_000)
                }
            }),
        })])?;
        if redundant() {
            return Ok(());
        }
        marks(&s, &exp, idx)?;
        for i in idx {
            let v = *s.get(*i).unwrap().0.peek();
            ensure_eq!(v, *i as i64 + if hit(*i as i64) { 1_000_000 } else { 0 }, "value at {i}");
        }
        state(fp(&(idx, kind, tracking, subset)));
        Ok(())
    });
}
