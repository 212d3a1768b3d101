//! J01 and J03: joins of every combination of members over every content of a small universe that
//! straddles the words of the bit sets.
use goggles::entity::Allocator;
use goggles::join::{BitSetConstrained, Index, IntoJoin, IntoJoinExt, Join, JoinIter};
use goggles::masked::{GuardedElement, MaskedStorage};
use goggles::storage::*;
use goggles::tracked::*;
use goggles::{Entities, Entity, ReadComponent, World, WriteComponent};
use hibitset::{AtomicBitSet, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use mcx::*;
use std::collections::BTreeSet;

/// Any mask of the crate behind one type: every method is the real mask's.
pub trait AnyMask: BitSetLike + BitSetConstrained + Send + Sync {}
impl<T: BitSetLike + BitSetConstrained + Send + Sync> AnyMask for T {}
pub struct DynMask<'a>(pub Box<dyn AnyMask + 'a>);
impl<'a> BitSetLike for DynMask<'a> {
    fn get_from_layer(&self, layer: usize, idx: usize) -> usize {
        self.0.get_from_layer(layer, idx)
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn layer3(&self) -> usize {
        self.0.layer3()
    }
    fn layer2(&self, i: usize) -> usize {
        self.0.layer2(i)
    }
    fn layer1(&self, i: usize) -> usize {
        self.0.layer1(i)
    }
    fn layer0(&self, i: usize) -> usize {
        self.0.layer0(i)
    }
    fn contains(&self, i: Index) -> bool {
        self.0.contains(i)
    }
}
impl<'a> BitSetConstrained for DynMask<'a> {
    fn is_constrained(&self) -> bool {
        self.0.is_constrained()
    }
}

pub trait Guard {
    fn get(&mut self) -> i64;
    fn set(&mut self, v: i64);
}
impl<'a, S: RawStorage<Item = i64>> Guard for GuardedElement<'a, S> {
    fn get(&mut self) -> i64 {
        *GuardedElement::get(self)
    }
    fn set(&mut self, v: i64) {
        *self.get_mut() = v;
    }
}
/// What a member hands out.
pub enum It<'a> {
    Idx(Index),
    Ent(Entity),
    Ref(&'a i64),
    Mut(&'a mut i64),
    Guard(Box<dyn Guard + 'a>),
    Opt(Option<Box<It<'a>>>),
    Two(Box<It<'a>>, Box<It<'a>>),
}
use It::*;
#[derive(Debug, PartialEq, Eq, Clone)]
enum V {
    I(u32),
    E(u32, u32),
    R(i64),
    W(i64),
    O(Option<Box<V>>),
    T(Box<V>, Box<V>),
}
impl<'a> It<'a> {
    fn view(&mut self) -> V {
        match self {
            Idx(i) => V::I(*i),
            Ent(e) => V::E(e.index(), e.generation()),
            Ref(v) => V::R(**v),
            Mut(v) => V::W(**v),
            Guard(g) => V::W(g.get()),
            Opt(o) => V::O(o.as_mut().map(|x| Box::new(x.view()))),
            Two(a, b) => V::T(Box::new(a.view()), Box::new(b.view())),
        }
    }
    fn write(&mut self, d: i64) {
        match self {
            Mut(v) => **v += d,
            Guard(g) => {
                let v = g.get();
                g.set(v + d)
            }
            Opt(Some(x)) => x.write(d),
            Two(a, b) => {
                a.write(d);
                b.write(d)
            }
            _ => {}
        }
    }
}

/// A join whose concrete member type is hidden; opening and getting are the member's own.
pub struct Dyn<'a>(Box<dyn FnOnce() -> (DynMask<'a>, Box<dyn Fn(Index) -> It<'a> + 'a>) + 'a>);
impl<'a> Join for Dyn<'a> {
    type Item = It<'a>;
    type Access = Box<dyn Fn(Index) -> It<'a> + 'a>;
    type Mask = DynMask<'a>;
    fn open(self) -> (Self::Mask, Self::Access) {
        (self.0)()
    }
    unsafe fn get(a: &Self::Access, i: Index) -> It<'a> {
        a(i)
    }
}
fn dy<'a, J>(j: J, f: impl Fn(J::Item) -> It<'a> + 'a) -> Dyn<'a>
where
    J: IntoJoin + 'a,
    <J::IntoJoin as Join>::Mask: BitSetConstrained + Send + Sync + 'a,
    <J::IntoJoin as Join>::Access: 'a,
    J::IntoJoin: 'a,
{
    Dyn(Box::new(move || {
        let (m, a) = j.into_join().open();
        (DynMask(Box::new(m)), Box::new(move |i| f(unsafe { <J::IntoJoin as Join>::get(&a, i) })))
    }))
}

/// A mask that does not say whether it is bounded, taken to be so.
struct Sure<'a>(&'a dyn BitSetLike);
unsafe impl<'a> Send for Sure<'a> {}
unsafe impl<'a> Sync for Sure<'a> {}
impl<'a> BitSetLike for Sure<'a> {
    fn layer3(&self) -> usize {
        self.0.layer3()
    }
    fn layer2(&self, i: usize) -> usize {
        self.0.layer2(i)
    }
    fn layer1(&self, i: usize) -> usize {
        self.0.layer1(i)
    }
    fn layer0(&self, i: usize) -> usize {
        self.0.layer0(i)
    }
    fn contains(&self, i: Index) -> bool {
        self.0.contains(i)
    }
}
impl<'a> BitSetConstrained for Sure<'a> {
    fn is_constrained(&self) -> bool {
        true
    }
}
fn dy_dyn<'a>(b: &'a dyn BitSetLike) -> Dyn<'a> {
    Dyn(Box::new(move || {
        let (m, a) = b.into_join().open();
        (DynMask(Box::new(Sure(m))), Box::new(move |i| Idx(unsafe { <&'a dyn BitSetLike as Join>::get(&a, i) })))
    }))
}
/// What a world's accesses hold.
pub struct Wv(i64);
impl goggles::Component for Wv {
    type Storage = Flagged<VecStorage<Wv>>;
}
struct Gw<'a>(GuardedElement<'a, Flagged<VecStorage<Wv>>>);
impl<'a> Guard for Gw<'a> {
    fn get(&mut self) -> i64 {
        self.0.get().0
    }
    fn set(&mut self, v: i64) {
        self.0.get_mut().0 = v;
    }
}
/// the accesses are dropped before the worlds they borrow
fn world(s1: &BTreeSet<u32>, s2: &BTreeSet<u32>, base: i64) -> Box<World> {
    let mut w = Box::new(World::new());
    w.insert_component::<Wv>();
    let es: Vec<Entity> = (0..s1.iter().chain(s2).max().map_or(0, |m| m + 1)).map(|k| if k % 3 == 0 { w.create_entity() } else { w.entities().create() }).collect();
    {
        let mut c = w.get_component_mut::<Wv>();
        for &e in es.iter().filter(|e| s1.contains(&e.index())) {
            let _ = c.insert(e, Wv(base + e.index() as i64));
        }
        for &e in es.iter().filter(|e| s2.contains(&e.index())) {
            let _ = c.mark_modified(e);
        }
        c.set_track_modified(true);
    }
    w
}

const OLD: usize = 29;
const ENTS: usize = 40;
const KINDS: [&str; 41] = [
    "&Vec", "&DenseVec", "&HashMap", "&Flagged<Vec>", "&mut Vec", "&mut DenseVec", "&mut HashMap", "&mut Flagged<DenseVec>",
    "guard Vec", "guard Flagged<HashMap>", "maybe &Vec", "maybe &mut Vec", "maybe guard DenseVec", "modified", "modified_mut",
    "entities", "&BitSet", "BitSet", "&AtomicBitSet", "Not", "And", "Or", "Xor", "All", "maybe BitSet", "(&Vec, &mut DenseVec)", "maybe (&Vec, &mut DenseVec)",
    "modified, tracking off", "modified_mut, tracking off",
    "&Not", "&And", "&Or", "&dyn BitSetLike", "&All", "AtomicBitSet", "&ReadComponent", "&mut WriteComponent",
    "guard of a WriteComponent", "modified of a ReadComponent", "modified_mut of a WriteComponent", "&Entities",
];
const ENT: usize = 15;
fn two_sets(k: usize) -> bool {
    matches!(k, 13 | 14 | 20 | 21 | 22 | 25..=28 | 30..=32 | 38 | 39)
}

type Sto<S> = MaskedStorage<S>;
enum Own {
    V(Sto<VecStorage<i64>>),
    D(Sto<DenseVecStorage<i64>>),
    H(Sto<HashMapStorage<i64>>),
    FV(Sto<Flagged<VecStorage<i64>>>),
    FD(Sto<Flagged<DenseVecStorage<i64>>>),
    FH(Sto<Flagged<HashMapStorage<i64>>>),
    A(Allocator),
    B(BitSet, BitSet),
    At(AtomicBitSet),
    P(Sto<VecStorage<i64>>, Sto<DenseVecStorage<i64>>),
    N(BitSetNot<BitSet>),
    An(BitSetAnd<BitSet, BitSet>),
    Or(BitSetOr<BitSet, BitSet>),
    All(BitSetAll),
    Rd(ReadComponent<'static, Wv>, #[allow(dead_code)] Box<World>),
    Wr(WriteComponent<'static, Wv>, #[allow(dead_code)] Box<World>),
    We(Entities<'static>, #[allow(dead_code)] Box<World>),
}
struct Mem {
    kind: usize,
    pos: usize,
    s1: BTreeSet<u32>,
    s2: BTreeSet<u32>,
    gens: Vec<(u32, u32)>,
    own: Own,
}
fn fill<S: RawStorage<Item = i64> + Default>(s: &BTreeSet<u32>, base: i64) -> Sto<S> {
    let mut m: Sto<S> = Default::default();
    for &i in s {
        m.insert(i, base + i as i64);
    }
    m
}
fn bits(s: &BTreeSet<u32>) -> BitSet {
    let mut b = BitSet::new();
    for &i in s {
        b.add(i);
    }
    b
}
impl Mem {
    fn base(&self) -> i64 {
        (self.pos as i64 + 1) * 1_000_000_000
    }
    fn new(kind: usize, pos: usize, s1: BTreeSet<u32>, s2: BTreeSet<u32>) -> Mem {
        let base = (pos as i64 + 1) * 1_000_000_000;
        let mut gens = vec![];
        let own = match kind {
            0 | 4 | 8 | 10 | 11 => Own::V(fill(&s1, base)),
            1 | 5 | 12 => Own::D(fill(&s1, base)),
            2 | 6 => Own::H(fill(&s1, base)),
            3 | 13 | 14 | 27 | 28 => {
                // marked indexes without a value had one that was removed
                let mut m: Sto<Flagged<VecStorage<i64>>> = fill(&s1.union(&s2).copied().collect(), base);
                for &i in s2.difference(&s1) {
                    m.remove(i);
                }
                for &i in &s2 {
                    m.mark_modified(i);
                }
                m.set_track_modified(kind < 27);
                Own::FV(m)
            }
            7 => {
                let mut m: Sto<Flagged<DenseVecStorage<i64>>> = fill(&s1, base);
                m.set_track_modified(true);
                Own::FD(m)
            }
            9 => {
                let mut m: Sto<Flagged<HashMapStorage<i64>>> = fill(&s1, base);
                m.set_track_modified(true);
                Own::FH(m)
            }
            ENT => {
                // every second one is only known atomically, every third one was used before
                let mut a = Allocator::new();
                let n = s1.iter().max().map_or(0, |m| m + 1);
                let es: Vec<Entity> = (0..n).map(|_| a.allocate()).collect();
                // whichever freed index a creation picks, all of them are taken again
                let again: Vec<u32> = (0..n).filter(|i| i % 3 == 0).collect();
                for i in &again {
                    a.kill(es[*i as usize]).unwrap();
                }
                for _ in &again {
                    a.allocate();
                }
                let atomic: Vec<u32> = (0..n).filter(|i| !s1.contains(i) || i % 2 == 1).collect();
                for i in &atomic {
                    let e = a.entity(*i).unwrap();
                    a.kill(e).unwrap();
                }
                let back: Vec<Entity> = atomic.iter().map(|_| a.allocate_atomic()).collect();
                for e in back {
                    if !s1.contains(&e.index()) {
                        a.kill(e).unwrap();
                    }
                }
                gens = s1.iter().map(|&i| (i, a.entity(i).map_or(0, |e| e.generation()))).collect();
                Own::A(a)
            }
            18 => {
                let mut b = AtomicBitSet::new();
                for (k, &i) in s1.iter().enumerate() {
                    if k % 2 == 0 {
                        b.add(i);
                    } else {
                        b.add_atomic(i);
                    }
                }
                Own::At(b)
            }
            29 => Own::N(BitSetNot(bits(&s1))),
            30 | 32 => Own::An(BitSetAnd(bits(&s1), bits(&s2))),
            31 => Own::Or(BitSetOr(bits(&s1), bits(&s2))),
            33 => Own::All(BitSetAll),
            34 => {
                let mut b = AtomicBitSet::new();
                s1.iter().for_each(|&i| {
                    b.add(i);
                });
                Own::At(b)
            }
            35 | 38 => {
                let w = world(&s1, &s2, base);
                // the access lives in front of the world it borrows
                Own::Rd(unsafe { &*(&*w as *const World) }.read_component(), w)
            }
            36 | 37 | 39 => {
                let w = world(&s1, &s2, base);
                Own::Wr(unsafe { &*(&*w as *const World) }.write_component(), w)
            }
            ENTS => {
                let mut w = world(&s1, &s2, base);
                let n = w.entities().max_entity_count();
                let es: Vec<Entity> = (0..n).filter_map(|i| w.entities().entity(i)).collect();
                for e in es {
                    if !s1.contains(&e.index()) {
                        w.delete_entity(e).unwrap();
                    } else {
                        gens.push((e.index(), e.generation()));
                    }
                }
                Own::We(unsafe { &*(&*w as *const World) }.entities(), w)
            }
            25 | 26 => Own::P(fill(&s1, base), fill(&s2, base + 500_000_000)),
            _ => Own::B(bits(&s1), bits(&s2)),
        };
        Mem { kind, pos, s1, s2, gens, own }
    }
    /// Does the member itself have this index (its mask)?
    fn has(&self, i: u32) -> bool {
        let (a, b) = (self.s1.contains(&i), self.s2.contains(&i));
        match self.kind {
            10 | 11 | 12 | 23 | 24 | 26 | 33 => true,
            13 | 14 | 27 | 28 | 38 | 39 => b,
            19 | 29 => !a,
            20 | 25 | 30 | 32 => a && b,
            21 | 31 => a || b,
            22 => a != b,
            _ => a,
        }
    }
    fn constrained(&self) -> bool {
        !matches!(self.kind, 10 | 11 | 12 | 19 | 23 | 24 | 26 | 29 | 33)
    }
    /// The item the member must yield at `i`.
    fn item(&self, i: u32) -> V {
        let b = self.base() + i as i64;
        let pair = |b: i64| V::T(Box::new(V::R(b)), Box::new(V::W(b + 500_000_000)));
        let opt = |v: V| V::O(self.s1.contains(&i).then(|| Box::new(v)));
        match self.kind {
            0..=3 | 35 => V::R(b),
            4..=9 | 36 | 37 => V::W(b),
            10 => opt(V::R(b)),
            11 | 12 => opt(V::W(b)),
            13 | 27 | 38 => opt(V::R(b)),
            14 | 28 | 39 => opt(V::W(b)),
            ENT | ENTS => V::E(i, self.gens.iter().find(|g| g.0 == i).unwrap().1),
            24 => opt(V::I(i)),
            25 => pair(b),
            26 => V::O((self.s1.contains(&i) && self.s2.contains(&i)).then(|| Box::new(pair(b)))),
            _ => V::I(i),
        }
    }
    /// Indexes whose value must have changed when the join visited `vis`.
    fn written(&self, vis: &[u32]) -> BTreeSet<u32> {
        match self.kind {
            4..=9 | 11 | 12 | 14 | 28 | 36 | 37 | 39 => vis.iter().copied().filter(|i| self.s1.contains(i)).collect(),
            25 | 26 => vis.iter().copied().filter(|i| self.s1.contains(i) && self.s2.contains(i)).collect(),
            _ => Default::default(),
        }
    }
    fn join<'a>(&'a mut self) -> Dyn<'a> {
        let o = |x: Option<It<'a>>| Opt(x.map(Box::new));
        match (self.kind, &mut self.own) {
            (0, Own::V(s)) => dy(&*s, |v| Ref(v)),
            (1, Own::D(s)) => dy(&*s, |v| Ref(v)),
            (2, Own::H(s)) => dy(&*s, |v| Ref(v)),
            (3, Own::FV(s)) => dy(&*s, |v| Ref(v)),
            (4, Own::V(s)) => dy(s, |v| Mut(v)),
            (5, Own::D(s)) => dy(s, |v| Mut(v)),
            (6, Own::H(s)) => dy(s, |v| Mut(v)),
            (7, Own::FD(s)) => dy(s, |v| Mut(v)),
            (8, Own::V(s)) => dy(s.guard(), |g| Guard(Box::new(g))),
            (9, Own::FH(s)) => dy(s.guard(), |g| Guard(Box::new(g))),
            (10, Own::V(s)) => dy((&*s).maybe(), move |v| o(v.map(|v| Ref(v)))),
            (11, Own::V(s)) => dy(s.maybe(), move |v| o(v.map(|v| Mut(v)))),
            (12, Own::D(s)) => dy(s.guard().maybe(), move |v| o(v.map(|g| Guard(Box::new(g))))),
            (13 | 27, Own::FV(s)) => dy(s.modified(), move |v| o(v.map(|v| Ref(v)))),
            (14 | 28, Own::FV(s)) => dy(s.modified_mut(), move |v| o(v.map(|v| Mut(v)))),
            (ENT, Own::A(a)) => dy(&*a, |e| Ent(e)),
            (16, Own::B(b, _)) => dy(&*b, |i| Idx(i)),
            (17, Own::B(b, _)) => dy(b.clone(), |i| Idx(i)),
            (18, Own::At(b)) => dy(&*b, |i| Idx(i)),
            (19, Own::B(b, _)) => dy(BitSetNot(&*b), |i| Idx(i)),
            (20, Own::B(b, c)) => dy(BitSetAnd(&*b, &*c), |i| Idx(i)),
            (21, Own::B(b, c)) => dy(BitSetOr(&*b, &*c), |i| Idx(i)),
            (22, Own::B(b, c)) => dy(BitSetXor(&*b, &*c), |i| Idx(i)),
            (23, _) => dy(BitSetAll, |i| Idx(i)),
            (24, Own::B(b, _)) => dy((&*b).maybe(), move |v| o(v.map(Idx))),
            (25, Own::P(a, b)) => dy((&*a, b), |(x, y)| Two(Box::new(Ref(x)), Box::new(Mut(y)))),
            (26, Own::P(a, b)) => dy((&*a, b).maybe(), move |v| o(v.map(|(x, y)| Two(Box::new(Ref(x)), Box::new(Mut(y)))))),
            (29, Own::N(b)) => dy(&*b, |i| Idx(i)),
            (30, Own::An(b)) => dy(&*b, |i| Idx(i)),
            (31, Own::Or(b)) => dy(&*b, |i| Idx(i)),
            (32, Own::An(b)) => dy_dyn(&*b),
            (33, Own::All(b)) => dy(&*b, |i| Idx(i)),
            (34, Own::At(b)) => dy(std::mem::take(b), |i| Idx(i)),
            (35, Own::Rd(c, _)) => dy(&*c, |v| Ref(&v.0)),
            (36, Own::Wr(c, _)) => dy(c, |v| Mut(&mut v.0)),
            (37, Own::Wr(c, _)) => dy(c.guard(), |g| Guard(Box::new(Gw(g)))),
            (38, Own::Rd(c, _)) => dy(c.modified(), move |v| o(v.map(|v| Ref(&v.0)))),
            (39, Own::Wr(c, _)) => dy(c.modified_mut(), move |v| o(v.map(|v| Mut(&mut v.0)))),
            (ENTS, Own::We(e, _)) => dy(&*e, |e| Ent(e)),
            _ => unreachable!(),
        }
    }
    fn values(&self) -> Vec<(u32, i64)> {
        fn all<S: RawStorage<Item = i64>>(s: &Sto<S>) -> Vec<(u32, i64)> {
            s.mask().iter().map(|i| (i, s.get(i).copied().unwrap_or(i64::MIN))).collect()
        }
        match &self.own {
            Own::V(s) => all(s),
            Own::D(s) => all(s),
            Own::H(s) => all(s),
            Own::FV(s) => all(s),
            Own::FD(s) => all(s),
            Own::FH(s) => all(s),
            Own::P(_, s) => all(s),
            Own::Rd(c, _) => c.mask().iter().map(|i| (i, c.storage().get(i).map_or(i64::MIN, |v| v.0))).collect(),
            Own::Wr(c, _) => c.mask().iter().map(|i| (i, c.storage().get(i).map_or(i64::MIN, |v| v.0))).collect(),
            _ => vec![],
        }
    }
    fn modified(&self) -> Option<BTreeSet<u32>> {
        match &self.own {
            Own::FV(s) => Some(s.modified_indexes().iter().collect()),
            Own::FD(s) => Some(s.modified_indexes().iter().collect()),
            Own::FH(s) => Some(s.modified_indexes().iter().collect()),
            Own::Rd(c, _) => Some(c.modified_indexes().iter().collect()),
            Own::Wr(c, _) => Some(c.modified_indexes().iter().collect()),
            _ => None,
        }
    }
}

/// How the members are put into tuples.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Flat,
    /// (a, (b, c))
    Right,
    /// ((a, b), c)
    Left,
}
/// Unbounded joins are compared on the indexes below this.
const PREFIX: u32 = 300_000;

fn drain<'a, J: Join>(it: JoinIter<J>, limit: usize, bounded: bool, f: impl Fn(J::Item) -> Vec<It<'a>>) -> Result<Vec<Vec<It<'a>>>, String> {
    let mut it = it;
    let mut out = vec![];
    // A correct bounded join ends by itself; take one more than expected.
    while out.len() < limit + bounded as usize {
        match it.next() {
            Some(x) => out.push(f(x)),
            None => break,
        }
    }
    Ok(out)
}
fn go<'a, J: IntoJoin>(j: J, n: usize, bounded: bool, f: impl Fn(J::Item) -> Vec<It<'a>>) -> Result<Vec<Vec<It<'a>>>, String>
where
    <J::IntoJoin as Join>::Mask: BitSetConstrained,
{
    if bounded {
        drain(j.join(), n, true, f)
    } else {
        drain(j.join_unconstrained(), n, false, f)
    }
}
macro_rules! arity {
    ($it:ident, $n:ident, $b:ident, $($x:ident)*) => {{
        $(let $x = $it.next().unwrap();)*
        go(($($x,)*), $n, $b, |($($x,)*)| vec![$($x),*])
    }};
}
fn join_all<'a>(ds: Vec<Dyn<'a>>, shape: Shape, n: usize, b: bool) -> Result<Vec<Vec<It<'a>>>, String> {
    let k = ds.len();
    let mut it = ds.into_iter();
    if shape != Shape::Flat {
        let (x, y, z) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        return match shape {
            Shape::Right => go((x, (y, z)), n, b, |(x, (y, z))| vec![x, y, z]),
            _ => go(((x, y), z), n, b, |((x, y), z)| vec![x, y, z]),
        };
    }
    match k {
        1 => {
            if choose(2) == 0 {
                go(it.next().unwrap(), n, b, |a| vec![a])
            } else {
                arity!(it, n, b, a)
            }
        }
        2 => arity!(it, n, b, a1 a2),
        3 => arity!(it, n, b, a1 a2 a3),
        4 => arity!(it, n, b, a1 a2 a3 a4),
        5 => arity!(it, n, b, a1 a2 a3 a4 a5),
        6 => arity!(it, n, b, a1 a2 a3 a4 a5 a6),
        7 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7),
        8 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8),
        9 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9),
        10 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10),
        11 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11),
        12 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12),
        13 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13),
        14 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14),
        15 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15),
        16 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16),
        17 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17),
        18 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18),
        19 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19),
        20 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20),
        21 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21),
        22 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21 a22),
        23 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21 a22 a23),
        24 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21 a22 a23 a24),
        25 => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21 a22 a23 a24 a25),
        _ => arity!(it, n, b, a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21 a22 a23 a24 a25 a26),
    }
}
const MAX_ARITY: usize = 26;

/// Joins the members and compares everything with the model.
fn judge(mut ms: Vec<Mem>, shape: Shape, limit: u32) -> Res {
    let bounded = ms.iter().any(|m| m.constrained());
    // indexes that any bounded join could visit, or a prefix of all of them
    let cand: Vec<u32> = if bounded {
        let mut c: BTreeSet<u32> = Default::default();
        for m in &ms {
            c.extend(m.s1.iter());
            c.extend(m.s2.iter());
        }
        c.into_iter().collect()
    } else {
        (0..limit.min(PREFIX)).collect()
    };
    let vis: Vec<u32> = cand.into_iter().filter(|&i| ms.iter().all(|m| m.has(i))).collect();
    let exp: Vec<Vec<V>> = vis.iter().map(|&i| ms.iter().map(|m| m.item(i)).collect()).collect();
    steps(1 + vis.len() as u64);
    let got: Vec<Vec<V>> = {
        let ds: Vec<Dyn> = ms.iter_mut().map(|m| m.join()).collect();
        // All items are held at the same time, then looked at, then written, then looked at again.
        let mut items = catch(|| join_all(ds, shape, vis.len(), bounded)).map_err(|m| format!("the join panicked: {m}"))??;
        let v: Vec<Vec<V>> = items.iter_mut().map(|t| t.iter_mut().map(|x| x.view()).collect()).collect();
        for t in items.iter_mut() {
            for x in t.iter_mut() {
                x.write(100_000_000);
            }
        }
        v
    };
    for (k, (g, e)) in got.iter().zip(&exp).enumerate() {
        ensure!(g == e, "item {k} of the join (index {}): got {g:?}, expected {e:?}", vis[k]);
    }
    ensure!(got.len() == exp.len(), "the join yields {} items, expected those at {vis:?}; first extra/missing: {:?}", got.len(), got.get(exp.len()));
    for m in &ms {
        let w = m.written(&vis);
        let pair = matches!(m.own, Own::P(..));
        let base = m.base() + if pair { 500_000_000 } else { 0 };
        if !m.values().is_empty() || matches!(m.own, Own::V(_) | Own::D(_) | Own::H(_) | Own::FV(_) | Own::FD(_) | Own::FH(_) | Own::P(..) | Own::Rd(..) | Own::Wr(..)) {
            let e: Vec<(u32, i64)> = (if pair { &m.s2 } else { &m.s1 }).iter().map(|&i| (i, base + i as i64 + if w.contains(&i) { 100_000_000 } else { 0 })).collect();
            ensure_eq!(m.values(), e, "values of member {} ({}) after writing through the items", m.pos, KINDS[m.kind]);
        }
        if let Some(md) = m.modified() {
            let mut e = w;
            e.extend(m.s2.iter());
            ensure_eq!(md, e, "modified indexes of member {} ({})", m.pos, KINDS[m.kind]);
        }
    }
    if fresh() {
        state(fp(&(&vis, got.len(), ms.iter().map(|m| (m.kind, &m.s1, &m.s2)).collect::<Vec<_>>())));
        outcome(fp(&format!("{got:?}")));
    }
    Ok(())
}
fn subset(u: &[u32]) -> BTreeSet<u32> {
    let b = choose(1 << u.len());
    u.iter().enumerate().filter(|(k, _)| b >> k & 1 == 1).map(|x| *x.1).collect()
}
fn subsets_of(u: &[u32], k: usize, pos: usize) -> Mem {
    let s1 = subset(u);
    let s2 = if two_sets(k) { subset(u) } else { Default::default() };
    note(|| format!("member {pos}: {} {s1:?}{}", KINDS[k], if two_sets(k) { format!(" / {s2:?}") } else { String::new() }));
    Mem::new(k, pos, s1, s2)
}
const RULE: &str = "all items held at once, compared item by item with set algebra, then written through, then every storage compared";

pub fn run(c: &mut Ctx) {
    let u1: &'static [u32] = c.q(&[0, 1, 63, 64, 65, 130], &[0, 1, 2, 62, 63, 64, 65, 130]);
    c.explore("single", &format!("each of 29 member kinds alone, every content over {u1:?} (two sets for and/or/xor/modified/pairs); {RULE}"), move || {
        let k = choose(OLD);
        judge(vec![subsets_of(u1, k, 0)], Shape::Flat, 200)
    });
    let u2: &'static [u32] = c.q(&[0, 63, 64, 130], &[0, 1, 63, 64, 130]);
    c.explore("pairs", &format!("every ordered pair of 29 member kinds, every content over {u2:?}; {RULE}"), move || {
        let (a, b) = (choose(OLD), choose(OLD));
        judge(vec![subsets_of(u2, a, 0), subsets_of(u2, b, 1)], Shape::Flat, 200)
    });
    let u3: &'static [u32] = c.q(&[0, 63, 64, 130], &[0, 1, 63, 64, 130]);
    c.explore("more members alone", &format!("each of the further member kinds {:?} alone, every content over {u3:?}, and 4097 beside them; {RULE}", &KINDS[OLD..]), move || {
        let k = OLD + choose(KINDS.len() - OLD);
        let mut m = subsets_of(u3, k, 0);
        if choose(2) == 1 {
            m = Mem::new(k, 0, m.s1.iter().copied().chain([4097]).collect(), if two_sets(k) { m.s2.iter().copied().chain([4097]).collect() } else { m.s2 });
        }
        judge(vec![m], Shape::Flat, 200)
    });
    c.explore("more pairs", &format!("each of the further member kinds {:?} before and after each of 6 kinds and itself, every content over [0, 64, 130]; {RULE}", &KINDS[OLD..]), move || {
        let a = OLD + choose(KINDS.len() - OLD);
        let b = *pick(&[a, 1, 4, 10, 16, 19, ENT]);
        let first = choose(2) == 0;
        let (a, b) = if first { (a, b) } else { (b, a) };
        judge(vec![subsets_of(&[0, 64, 130], a, 0), subsets_of(&[0, 64, 130], b, 1)], Shape::Flat, 200)
    });
    const TRIO: [usize; 10] = [1, 4, 9, 10, 11, 14, ENT, 16, 19, 26];
    #[allow(non_snake_case)]
    let UT: &'static [u32] = c.q(&[1, 64], &[1, 63, 64]);
    let shapes = [Shape::Flat, Shape::Right, Shape::Left];
    if c.thorough {
        c.explore("all triples", &format!("every ordered triple of 29 member kinds, every content over [1, 64]; {RULE}"), move || {
            let ks: Vec<usize> = (0..3).map(|_| choose(OLD)).collect();
            let ms = ks.iter().enumerate().map(|(p, &k)| subsets_of(&[1, 64], k, p)).collect();
            judge(ms, Shape::Flat, 100)
        });
    }
    c.explore("triples", &format!("every ordered triple of 10 member kinds as (a,b,c), (a,(b,c)) and ((a,b),c), every content over {UT:?}; {RULE}"), move || {
        let s = *pick(&shapes);
        let ks: Vec<usize> = (0..3).map(|_| *pick(&TRIO)).collect();
        note(|| format!("shape {s:?}"));
        let ms = ks.iter().enumerate().map(|(p, &k)| subsets_of(UT, k, p)).collect();
        judge(ms, s, 100)
    });
    const UF: [&[u32]; 2] = [&[0, 63, 64, 4095, 4096, 262143, 262144], &[4094, 4095, 262143, 262144, 262145, 524288]];
    let fk: &'static [usize] = c.q(&[2, 6, 16], &[0, 2, 6, 10, 14, 16, 18]);
    c.explore("spread", &format!("every ordered pair of {} member kinds and a third fixed set, every content over {UF:?}; {RULE}", fk.len()), move || {
        let u = *pick(&UF);
        let (a, b) = (*pick(fk), *pick(fk));
        let one = |k: usize, p: usize| {
            let s = subset(u);
            note(|| format!("member {p}: {} {s:?}", KINDS[k]));
            Mem::new(k, p, s.clone(), if two_sets(k) { s } else { Default::default() })
        };
        judge(vec![one(a, 0), one(b, 1)], Shape::Flat, 100)
    });
    c.explore("top", "pairs of 3 kinds, every content over {0, 2^18, 2^23, 2^24-1}", || {
        const U: &[u32] = &[0, 1 << 18, 1 << 23, (1 << 24) - 1];
        let (a, b) = (*pick(&[2usize, 6, 16]), *pick(&[2usize, 6, 16]));
        judge(vec![subsets_of(U, a, 0), subsets_of(U, b, 1)], Shape::Flat, 100)
    });
    c.explore("one bit apart", "each of 29 member kinds alone and ordered pairs of 6 kinds: every content over two indexes which differ in bit k, for every k below 24, the other bits 0 or 1 alike (entities: k up to 16, the other bits 0)", || {
        let base = *pick(&[0u32, (1 << 24) - 1]);
        let u = [base, base ^ (1 << choose(24))];
        if choose(2) == 0 {
            let k = choose(OLD);
            let few = [0, u[0] ^ u[1]];
            if k == ENT && few[1] > 1 << 16 {
                return Ok(()); // an entity at 2^k takes 2^k entities
            }
            return judge(vec![subsets_of(if k == ENT { &few } else { &u }, k, 0)], Shape::Flat, 100);
        }
        const SIX: [usize; 6] = [0, 2, 6, 10, 14, 16];
        let (a, b) = (*pick(&SIX), *pick(&SIX));
        judge(vec![subsets_of(&u, a, 0), subsets_of(&u, b, 1)], Shape::Flat, 100)
    });
    c.explore("arity", "tuples of every arity 1..26; one member (every position) of each of 6 kinds among shared storages; that member's content any subset of {0, 1, 64}", || {
        let n = 1 + choose(MAX_ARITY);
        let p = choose(n);
        let k = *pick(&[0usize, 5, 8, 10, 16, 19]);
        note(|| format!("arity {n}, odd member at {p}"));
        let odd = subsets_of(&[0, 1, 64], k, p);
        let mut odd = Some(odd);
        let ms = (0..n)
            .map(|i| if i == p { odd.take().unwrap() } else { Mem::new(i % 3, i, [0, 64].into(), Default::default()) })
            .collect();
        judge(ms, Shape::Flat, 100)
    });
    dense(c);
    consuming(c);
}

/// One call of an `Iterator` method after another, each compared with what it does on a list.
fn consume<I: Iterator>(mut it: I, exp: &[Vec<V>], calls: usize, view: impl Fn(I::Item) -> Vec<V>) -> Res {
    let mut p = 0;
    let at = |p: usize| exp.get(p).cloned();
    let hint = |it: &I, p: usize| {
        let (lo, hi) = it.size_hint();
        let rest = exp.len() - p.min(exp.len());
        ensure!(lo <= rest && hi.map_or(true, |h| h >= rest), "size_hint {lo}..{hi:?} with {rest} items left");
        Ok::<(), String>(())
    };
    for _ in 0..choose(calls + 1) {
        hint(&it, p)?;
        step();
        match choose(7) {
            0 => {
                ensure_eq!(it.next().map(&view), at(p), "next() at {p}");
                p += 1;
            }
            k @ 1..=3 => {
                let k = [0, 0, 1, 3][k];
                ensure_eq!(it.nth(k).map(&view), at(p + k), "nth({k}) at {p}");
                p += k + 1;
            }
            4 => {
                let got: Vec<_> = it.by_ref().take(2).map(&view).collect();
                let exp: Vec<_> = (p..p + 2).filter_map(at).collect();
                ensure_eq!(got, exp, "take(2) at {p}");
                p += 2;
            }
            5 => {
                let mut k = 0;
                let r = it.find_map(|x| {
                    k += 1;
                    (k == 2).then(|| view(x))
                });
                ensure_eq!(r, at(p + 1), "the second found at {p}");
                p += 2;
            }
            _ => {
                let mut seen = vec![];
                let r = it.try_for_each(|x| {
                    seen.push(view(x));
                    if seen.len() == 3 { Err(()) } else { Ok(()) }
                });
                let exp: Vec<_> = (p..p + 3).filter_map(at).collect();
                ensure_eq!(r.is_err(), exp.len() == 3, "try_for_each at {p}");
                ensure_eq!(seen, exp, "items of try_for_each at {p}");
                p += 3;
            }
        }
        p = p.min(exp.len());
    }
    hint(&it, p)?;
    let rest = &exp[p..];
    step();
    match choose(9) {
        0 => {
            let mut n = 0;
            while let Some(x) = it.next() {
                ensure_eq!(Some(view(x)), at(p + n), "item {}", p + n);
                n += 1;
                hint(&it, p + n)?;
            }
            ensure_eq!(n, rest.len(), "items from {p}");
            for _ in 0..3 {
                ensure!(it.next().is_none(), "an item after the end");
                hint(&it, exp.len())?;
            }
        }
        1 => ensure_eq!(it.count(), rest.len(), "count() at {p}"),
        2 => ensure_eq!(it.last().map(view), rest.last().cloned(), "last() at {p}"),
        3 => ensure_eq!(it.fold(vec![], |mut v, x| { v.push(view(x)); v }), rest, "fold() at {p}"),
        4 => {
            let mut v = vec![];
            it.for_each(|x| v.push(view(x)));
            ensure_eq!(v, rest, "for_each() at {p}");
        }
        5 => ensure_eq!(it.map(view).collect::<Vec<_>>(), rest, "collect() at {p}"),
        6 => ensure_eq!(it.skip(1).step_by(2).map(view).collect::<Vec<_>>(), rest.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>(), "skip(1).step_by(2) at {p}"),
        7 => ensure_eq!(it.zip(0..2).map(|(x, _)| view(x)).collect::<Vec<_>>(), rest[..rest.len().min(2)], "zip with two at {p}"),
        _ => {
            let (a, b): (Vec<_>, Vec<_>) = it.map(view).enumerate().partition(|(k, _)| k % 2 == 0);
            ensure_eq!(a.len() + b.len(), rest.len(), "partition at {p}");
            let mut all: Vec<_> = a.into_iter().chain(b).collect();
            all.sort_by_key(|x| x.0);
            ensure_eq!(all.into_iter().map(|x| x.1).collect::<Vec<_>>(), rest, "partition at {p}");
        }
    }
    Ok(())
}
fn consuming(c: &mut Ctx) {
    let calls = c.q(2, 3);
    c.explore(
        "ways to consume",
        &format!("joins of one and two members of 6 kinds over subsets of {{0, 1, 63, 64, 130}} and runs of 70: every sequence of up to {calls} calls of next, nth, take, find_map, try_for_each and then one of iteration to and past the end, count, last, fold, for_each, collect, step_by, zip, partition; each compared with the same on a list, size_hint checked throughout"),
        move || {
            let k = *pick(&[0usize, 4, 10, ENT, 19, 16]);
            let run = choose(2) == 1;
            let content = |k: usize, p: usize| {
                let s = if run { (60..130).collect() } else { subset(&[0, 1, 63, 64, 130]) };
                note(|| format!("member {p}: {} {s:?}", KINDS[k]));
                Mem::new(k, p, s.clone(), if two_sets(k) { s } else { Default::default() })
            };
            let mut ms = vec![Mem::new(0, 0, if run { (0..140).filter(|i| i % 5 != 0).collect() } else { [0, 1, 63, 64, 65, 130].into() }, Default::default()), content(k, 1)];
            let mut vis: Vec<u32> = ms[0].s1.iter().copied().collect();
            vis.retain(|&i| ms.iter().all(|m| m.has(i)));
            let exp: Vec<Vec<V>> = vis.iter().map(|&i| ms.iter().map(|m| m.item(i)).collect()).collect();
            let mut it = ms.iter_mut().map(|m| m.join());
            let (a, b) = (it.next().unwrap(), it.next().unwrap());
            catch(move || {
                consume((a, b).join(), &exp, calls, |(mut a, mut b)| vec![a.view(), b.view()])
            })
            .map_err(|m| format!("the join panicked: {m}"))?
        },
    );
}

/// Long runs of consecutive indexes: whole words, not just boundaries.
fn dense(c: &mut Ctx) {
    c.explore("runs", "two members holding every pair of intervals [a, b) with endpoints from {0,1,62..65,127..129,4095..4098}; 4 pairs of kinds", || {
        const P: [u32; 13] = [0, 1, 62, 63, 64, 65, 127, 128, 129, 4095, 4096, 4097, 4098];
        let (ka, kb) = *pick(&[(0usize, 4usize), (1, 16), (6, 19), (13, 7)]);
        let iv = |k: usize, p: usize| {
            let a = choose(P.len());
            let b = a + choose(P.len() - a);
            let s: BTreeSet<u32> = (P[a]..P[b]).collect();
            note(|| format!("member {p}: {} [{}, {})", KINDS[k], P[a], P[b]));
            Mem::new(k, p, s.clone(), if two_sets(k) { s } else { Default::default() })
        };
        let ms = vec![iv(ka, 0), iv(kb, 1)];
        judge(ms, Shape::Flat, 100)
    });
}

// ---------------------------------------------------------------------------------- J03

/// A mask expression and what the documented rules say about it.
struct Expr<'a> {
    mask: DynMask<'a>,
    text: String,
    /// by the documented rules
    rule: bool,
    /// really bounded (finite for every index space): membership far from every leaf's content
    finite: bool,
    xor: bool,
}
struct Leaves {
    a: BitSet,
    b: BitSet,
    at: AtomicBitSet,
    all: BitSetAll,
}
fn leaf<'a>(l: &'a Leaves, few: bool) -> Expr<'a> {
    let k = if few { *pick(&[0, 3]) } else { choose(7) };
    let (m, t, r): (Box<dyn AnyMask + 'a>, &str, bool) = match k {
        0 => (Box::new(&l.a), "&BitSet", true),
        1 => (Box::new(l.b.clone()), "BitSet", true),
        2 => (Box::new(&l.at), "&Atomic", true),
        3 => (Box::new(BitSetAll), "All", false),
        4 => (Box::new(&l.all), "&All", false),
        5 => (Box::new((&l.a).maybe().open().0), "mask of maybe", false),
        _ => {
            let mut n = AtomicBitSet::new();
            n.add(5);
            (Box::new(n), "Atomic", true)
        }
    };
    Expr { mask: DynMask(m), text: t.into(), rule: r, finite: r, xor: false }
}
fn expr<'a>(l: &'a Leaves, depth: usize, leaves: &mut usize, few: bool) -> Expr<'a> {
    let kind = if depth == 0 || *leaves <= 1 { choose(if depth == 0 { 1 } else { 2 }) } else { choose(5) };
    match kind {
        0 => leaf(l, few),
        1 => {
            let e = expr(l, depth - 1, leaves, few);
            Expr { mask: DynMask(Box::new(BitSetNot(e.mask))), text: format!("!{}", e.text), rule: !e.rule, finite: !e.finite, xor: e.xor }
        }
        k => {
            *leaves -= 1;
            let a = expr(l, depth - 1, leaves, few);
            let b = expr(l, depth - 1, leaves, few);
            let xor = a.xor || b.xor || k == 4;
            let (mask, op, rule, finite): (Box<dyn AnyMask + 'a>, &str, bool, bool) = match k {
                2 => (Box::new(BitSetAnd(a.mask, b.mask)), "&", a.rule || b.rule, a.finite || b.finite),
                3 => (Box::new(BitSetOr(a.mask, b.mask)), "|", a.rule && b.rule, a.finite && b.finite),
                _ => (Box::new(BitSetXor(a.mask, b.mask)), "^", a.rule && b.rule, a.finite == b.finite),
            };
            Expr { mask: DynMask(mask), text: format!("({} {op} {})", a.text, b.text), rule, finite, xor }
        }
    }
}
/// A join over a mask that counts how often an element is produced.
struct Counted<'a>(DynMask<'a>, &'a std::sync::atomic::AtomicUsize);
impl<'a> Join for Counted<'a> {
    type Item = Index;
    type Access = &'a std::sync::atomic::AtomicUsize;
    type Mask = DynMask<'a>;
    fn open(self) -> (Self::Mask, Self::Access) {
        (self.0, self.1)
    }
    unsafe fn get(a: &Self::Access, i: Index) -> Index {
        a.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        i
    }
}
const FAR: u32 = (1 << 24) - 77;
/// The ways of asking for an iteration; the last two never look at bounds.
const WAYS: [&str; 7] = ["JoinIter::new", "join()", "par_join::JoinParIter::new", "par_join()", "join::JoinParIter::new", "join_unconstrained()", "par_join_unconstrained()"];
fn offer(j: Counted, how: usize) -> Result<(), String> {
    use goggles::par_join::{JoinParIter, ParJoinExt};
    catch(move || match how {
        0 => JoinIter::new(j).map(drop).map_err(|e| e.to_string()),
        1 => Ok(drop(j.join())),
        2 => JoinParIter::new(j).map(drop).map_err(|e| e.to_string()),
        3 => Ok(drop(j.par_join())),
        4 => goggles::join::JoinParIter::new(j).map(drop).map_err(|e| e.to_string()),
        5 => Ok(drop(j.join_unconstrained())),
        _ => Ok(drop(j.par_join_unconstrained())),
    })
    .and_then(|x| x)
}
fn j03(mask: DynMask, text: &str, rule: bool) -> Res {
    let n = std::sync::atomic::AtomicUsize::new(0);
    step();
    ensure_eq!(mask.is_constrained(), rule, "is_constrained() of {text}");
    let how = choose(WAYS.len());
    let r = offer(Counted(mask, &n), how);
    note(|| format!("{text} offered with {} -> {r:?}", WAYS[how]));
    ensure!(r.is_ok() == (rule || how > 4), "{text} offered with {}: {} by the documented rules, but {:?}", WAYS[how], if rule { "bounded" } else { "unbounded" }, r);
    ensure!(n.load(std::sync::atomic::Ordering::Relaxed) == 0, "an element was produced");
    state(fp(&text));
    outcome(rule as u64);
    Ok(())
}
pub fn bounds(c: &mut Ctx) {
    let spaces: &[(&str, usize, usize, bool)] = c.q(&[("expressions", 3, 3, false), ("deep expressions", 3, 5, true)], &[("expressions", 3, 4, false), ("deep expressions", 4, 5, true)]);
    for &(label, d, lv, few) in spaces {
        c.explore(
            label,
            &format!("every mask expression of depth <= {d} with at most {lv} leaves over not/and/or/xor and {} leaf masks, offered through JoinIter::new, join(), both JoinParIter::new and par_join() (verdict compared with the documented rules and, without xor, with membership at a far index), and through the unconstrained variants, which refuse nothing", if few { 2 } else { 7 }),
            move || {
                let mut at = AtomicBitSet::new();
                at.add(1);
                at.add(64);
                let l = Leaves { a: bits(&[0, 3, 70].into()), b: bits(&[3, 64].into()), at, all: BitSetAll };
                let mut left = lv;
                let e = expr(&l, d, &mut left, few);
                ensure!(e.mask.contains(FAR) != e.finite, "membership of a far index in {}", e.text);
                ensure!(e.xor || e.rule == e.finite, "the rule is not exact for {}", e.text);
                j03(e.mask, &e.text, e.rule)
            },
        );
    }
    const CONTENTS: &str = "contents";
    if c.wants(CONTENTS) {
        // what a set holds has no bearing on whether it is bounded
        const NAMES: [&str; 7] = ["empty", "one index", "a full word", "the last index", "an index in every top-level block", "an index in every second-level block", "every index"];
        let fill = |k: usize| -> Box<dyn Iterator<Item = u32>> {
            match k {
                0 => Box::new(0..0),
                1 => Box::new(3..4),
                2 => Box::new(64..128),
                3 => Box::new((1 << 24) - 1..1 << 24),
                4 => Box::new((0..64).map(|i| (i << 18) + i)),
                5 => Box::new((0..4096).map(|i| i << 12)),
                _ => Box::new(0..1 << 24),
            }
        };
        let sets: Vec<(BitSet, AtomicBitSet)> = (0..NAMES.len())
            .map(|k| {
                let (mut b, mut a) = (BitSet::new(), AtomicBitSet::new());
                fill(k).for_each(|i| drop((b.add(i), a.add(i))));
                (b, a)
            })
            .collect();
        let sets = &sets;
        c.explore(
            CONTENTS,
            "two bitsets or atomic bitsets, each empty or holding one index, a full word, the last index, an index in every top-level block, one in every second-level block, or all 2^24 indexes; alone, negated, and in every combination of two (each negated or not) by and/or/xor, also with the set of everything; all seven ways of asking: the verdict depends on the kind of the sets, not on what they hold",
            move || {
                let member = |p: usize| -> (DynMask, String, bool) {
                    let kind = choose(3);
                    let (m, t, r): (Box<dyn AnyMask>, String, bool) = if kind == 2 {
                        (Box::new(BitSetAll), "All".into(), false)
                    } else {
                        let k = choose(NAMES.len());
                        let t = format!("{}#{p} holding {}", ["BitSet", "AtomicBitSet"][kind], NAMES[k]);
                        (if kind == 0 { Box::new(&sets[k].0) } else { Box::new(&sets[k].1) }, t, true)
                    };
                    if choose(2) == 1 {
                        (DynMask(Box::new(BitSetNot(DynMask(m)))), format!("!{t}"), !r)
                    } else {
                        (DynMask(m), t, r)
                    }
                };
                let (m, t, r) = member(0);
                let op = choose(4);
                if op == 0 {
                    return j03(m, &t, r);
                }
                let (m2, t2, r2) = member(1);
                let (mask, rule): (Box<dyn AnyMask>, bool) = match op {
                    1 => (Box::new(BitSetAnd(m, m2)), r || r2),
                    2 => (Box::new(BitSetOr(m, m2)), r && r2),
                    _ => (Box::new(BitSetXor(m, m2)), r && r2),
                };
                j03(DynMask(mask), &format!("({t} {} {t2})", ["", "&", "|", "^"][op]), rule)
            },
        );
    }
    c.explore("tuples", "joins of 1..5 members, each any of 29 member kinds' masks (pairs and singles) or bounded/unbounded (longer), as tuples", || {
        let n = 1 + choose(5);
        let set: BTreeSet<u32> = [0, 64].into();
        let kinds: Vec<usize> = (0..n).map(|_| if n <= 2 { choose(OLD) } else { *pick(&[0, 19, 23, 10, 15]) }).collect();
        let mut ms: Vec<Mem> = kinds.iter().enumerate().map(|(p, &k)| Mem::new(k, p, set.clone(), set.clone())).collect();
        let rule = ms.iter().any(|m| m.constrained());
        let text = format!("({})", kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>().join(", "));
        let mut it = ms.iter_mut().map(|m| m.join());
        let mut nx = || it.next().unwrap();
        let m = match n {
            1 => DynMask(Box::new((nx(),).into_join().open().0)),
            2 => DynMask(Box::new((nx(), nx()).into_join().open().0)),
            3 => DynMask(Box::new((nx(), nx(), nx()).into_join().open().0)),
            4 => DynMask(Box::new((nx(), nx(), nx(), nx()).into_join().open().0)),
            _ => DynMask(Box::new((nx(), nx(), nx(), nx(), nx()).into_join().open().0)),
        };
        j03(m, &text, rule)
    });
}
