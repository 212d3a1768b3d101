//! S01 to S04 once more with values of every sort of type: what a storage does must not depend on
//! size, alignment, niche or whether the type has a destructor.
use crate::stores::Which;
use goggles::join::IntoJoinExt;
use goggles::masked::MaskedStorage;
use goggles::storage::*;
use goggles::tracked::*;
use hibitset::BitSetLike;
use mcx::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU16;

/// A value made from a number from which the number (or what is left of it) can be read.
trait Value: 'static {
    fn mk(v: i64) -> Self;
    fn read(&self) -> i64;
    /// what `read` gives after `mk(v)`
    fn left(v: i64) -> i64 {
        v
    }
}
thread_local! {
    /// values of the types with a destructor that exist
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}
macro_rules! value {
    ($($t:ty: |$v:ident| $mk:expr, |$x:ident| $read:expr $(, |$w:ident| $left:expr)?;)*) => { $(
        impl Value for $t {
            fn mk($v: i64) -> Self { $mk }
            fn read(&self) -> i64 { let $x = self; $read }
            $(fn left($w: i64) -> i64 { $left })?
        }
    )* };
}
#[derive(Clone, Copy)]
struct Wide([i64; 40]);
#[repr(align(128))]
struct Aligned(u8);
/// no size and no destructor
struct Nothing;
/// no size, but a destructor
struct Ghost;
impl Drop for Ghost {
    fn drop(&mut self) {
        ALIVE.set(ALIVE.get() - 1)
    }
}
#[repr(align(32))]
struct AlignedNothing;
struct Odd([u8; 3]);
struct Heap(Box<i64>);
impl Drop for Heap {
    fn drop(&mut self) {
        ALIVE.set(ALIVE.get() - 1)
    }
}
value! {
    u8: |v| v as u8, |x| *x as i64;
    u64: |v| v as u64, |x| *x as i64;
    bool: |v| v % 2 == 1, |x| *x as i64, |v| v % 2;
    Option<NonZeroU16>: |v| NonZeroU16::new(v as u16 % 3), |x| x.map_or(0, |x| x.get() as i64), |v| v % 3;
    Wide: |v| Wide([v; 40]), |x| if x.0.iter().all(|y| *y == x.0[0]) { x.0[0] } else { -1 };
    Aligned: |v| Aligned(v as u8), |x| if x as *const Aligned as usize % 128 == 0 { x.0 as i64 } else { -1 };
    Odd: |v| Odd([v as u8; 3]), |x| if x.0[0] == x.0[1] && x.0[1] == x.0[2] { x.0[0] as i64 } else { -1 };
    (): |_v| (), |_x| 0, |_v| 0;
    Nothing: |_v| Nothing, |_x| 0, |_v| 0;
    AlignedNothing: |_v| AlignedNothing, |x| if x as *const AlignedNothing as usize % 32 == 0 { 0 } else { -1 }, |_v| 0;
    Ghost: |_v| { ALIVE.set(ALIVE.get() + 1); Ghost }, |_x| 0, |_v| 0;
    Heap: |v| { ALIVE.set(ALIVE.get() + 1); Heap(Box::new(v)) }, |x| *x.0;
    String: |v| v.to_string(), |x| x.parse().unwrap_or(-1);
}
const TYPES: [&str; 13] = ["u8", "u64", "bool", "Option<NonZeroU16>", "[i64; 40]", "a byte aligned to 128", "three bytes", "()", "an empty struct", "an empty struct aligned to 32", "an empty struct with a destructor", "a Box with a destructor", "String"];
fn counted(t: usize) -> bool {
    t == 10 || t == 11
}

/// What only some storages have.
trait Extra: RawStorage + Default {
    fn slice(_: &MaskedStorage<Self>) -> Option<&[Self::Item]> {
        None
    }
    fn slice_mut(_: &mut MaskedStorage<Self>) -> Option<&mut [Self::Item]> {
        None
    }
    fn track(_: &mut MaskedStorage<Self>) {}
    fn clear(_: &mut MaskedStorage<Self>) {}
    fn modified(_: &MaskedStorage<Self>) -> Option<(Vec<u32>, Vec<Option<i64>>)>
    where
        Self::Item: Value,
    {
        None
    }
}
impl<T> Extra for VecStorage<T> {}
impl<T> Extra for HashMapStorage<T> {}
impl<T> Extra for DenseVecStorage<T> {
    fn slice(s: &MaskedStorage<Self>) -> Option<&[T]> {
        Some(s.as_slice())
    }
    fn slice_mut(s: &mut MaskedStorage<Self>) -> Option<&mut [T]> {
        Some(s.as_mut_slice())
    }
}
impl<S: RawStorage + Default> Extra for Flagged<S> {
    fn track(s: &mut MaskedStorage<Self>) {
        s.set_track_modified(true);
    }
    fn clear(s: &mut MaskedStorage<Self>) {
        s.clear_modified();
    }
    fn modified(s: &MaskedStorage<Self>) -> Option<(Vec<u32>, Vec<Option<i64>>)>
    where
        S::Item: Value,
    {
        Some((s.modified_indexes().iter().collect(), MaskedStorage::modified(s).join().map(|x| x.map(|x| x.read())).collect()))
    }
}

fn history<S: Extra>(which: Which, depth: usize, counts: bool, fill: u32) -> Res
where
    S::Item: Value,
{
    ALIVE.set(0);
    let mut s = MaskedStorage::<S>::default();
    S::track(&mut s);
    let mut m: BTreeMap<u32, i64> = BTreeMap::new();
    let mut marks: BTreeSet<u32> = BTreeSet::new();
    let mut next = 1;
    // with many values only the operations that move them, at both ends and in the middle
    let (idx, ops) = if fill == 0 { ([0, 1, 64, 200], 8) } else { ([0, fill / 2, fill - 2, fill - 1], 3) };
    for i in 0..fill {
        s.insert(i, S::Item::mk(i as i64 % 200));
        m.insert(i, i as i64 % 200);
    }
    S::clear(&mut s);
    let left = |v: i64| <S::Item as Value>::left(v);
    let count = |n: usize, what: &str| {
        ensure!(!counts || ALIVE.get() == n as i64, "{what}: {} values exist, {n} are stored", ALIVE.get());
        Ok::<(), String>(())
    };
    for _ in 0..depth {
        step();
        next += 1;
        let v = next;
        let op = choose(ops);
        let i = if op < 5 { *pick(&idx) } else { 0 };
        match op {
            0 => {
                let r = s.insert(i, S::Item::mk(v)).map(|x| x.read());
                note(|| format!("insert {v} at {i} -> {r:?}"));
                ensure_eq!(r, m.insert(i, v).map(left), "value replaced at {i}");
                marks.insert(i);
            }
            1 => {
                let r = s.remove(i).map(|x| x.read());
                note(|| format!("remove {i} -> {r:?}"));
                let e = m.remove(&i);
                ensure_eq!(r, e.map(left), "value removed at {i}");
                if e.is_some() {
                    marks.insert(i);
                }
            }
            2 => {
                let r = s.get_mut(i).map(|x| std::mem::replace(x, S::Item::mk(v)).read());
                note(|| format!("replace through get_mut at {i} by {v} -> {r:?}"));
                ensure_eq!(r, m.get(&i).copied().map(left), "value seen by get_mut at {i}");
                if let Some(x) = m.get_mut(&i) {
                    *x = v;
                    marks.insert(i);
                }
            }
            3 => {
                let r = s.get_or_insert_with(i, || S::Item::mk(v)).read();
                note(|| format!("get_or_insert {v} at {i} -> {r}"));
                ensure_eq!(r, left(*m.entry(i).or_insert(v)), "value of get_or_insert_with at {i}");
                marks.insert(i);
            }
            4 => {
                let r = s.get_guard(i).map(|mut g| {
                    let o = g.get().read();
                    *g.get_mut() = S::Item::mk(v);
                    o
                });
                note(|| format!("replace through a guard at {i} by {v} -> {r:?}"));
                ensure_eq!(r, m.get(&i).copied().map(left), "value seen by the guard at {i}");
                if let Some(x) = m.get_mut(&i) {
                    *x = v;
                    marks.insert(i);
                }
            }
            5 => {
                note(|| "write through a join".to_string());
                for (k, x) in (&mut s).join().enumerate() {
                    *x = S::Item::mk(v + k as i64);
                }
                for (k, (j, x)) in m.iter_mut().enumerate() {
                    *x = v + k as i64;
                    marks.insert(*j);
                }
                next += 4;
            }
            6 => {
                note(|| "clear marks".to_string());
                S::clear(&mut s);
                marks.clear();
            }
            _ => {
                // every value of the slice moves on by 10
                if let Some(x) = S::slice_mut(&mut s) {
                    note(|| "add 10 through the slice".to_string());
                    ensure_eq!(x.len(), m.len(), "length of the mutable slice");
                    if <S::Item as Value>::left(7) == 7 {
                        for y in x {
                            *y = S::Item::mk(y.read() + 10);
                        }
                        for y in m.values_mut() {
                            *y += 10;
                        }
                    }
                }
            }
        }
        count(m.len(), "after the operation")?;
        if which == Which::Drops {
            continue;
        }
        for i in idx.into_iter().chain(0..fill) {
            ensure_eq!((s.contains(i), s.get(i).map(|x| x.read())), (m.contains_key(&i), m.get(&i).copied().map(left)), "contains and get at {i}");
        }
        ensure_eq!(s.mask().iter().collect::<Vec<_>>(), m.keys().copied().collect::<Vec<_>>(), "mask");
        ensure_eq!((&s).join().map(|x| x.read()).collect::<Vec<_>>(), m.values().map(|v| left(*v)).collect::<Vec<_>>(), "values joined");
        if let Some(x) = S::slice(&s) {
            let mut got: Vec<i64> = x.iter().map(|x| x.read()).collect();
            let mut exp: Vec<i64> = m.values().map(|v| left(*v)).collect();
            got.sort();
            exp.sort();
            ensure_eq!(got, exp, "values of the slice");
        }
        if let Some((a, b)) = S::modified(&s) {
            ensure_eq!(a, marks.iter().copied().collect::<Vec<_>>(), "marks");
            ensure_eq!(b, marks.iter().map(|i| m.get(i).copied().map(left)).collect::<Vec<_>>(), "modified elements");
        }
    }
    state(fp(&m));
    drop(s);
    count(0, "after dropping the storage")?;
    outcome(fp(&m.len()));
    Ok(())
}
macro_rules! by_type {
    ($t:expr, $k:expr, $w:expr, $d:expr, $f:expr, $($n:literal $ty:ty)*) => {
        match $t {
            $($n => match $k {
                0 => history::<VecStorage<$ty>>($w, $d, counted($n), $f),
                1 => history::<DenseVecStorage<$ty>>($w, $d, counted($n), $f),
                2 => history::<HashMapStorage<$ty>>($w, $d, counted($n), $f),
                3 => history::<Flagged<VecStorage<$ty>>>($w, $d, counted($n), $f),
                _ => history::<Flagged<DenseVecStorage<$ty>>>($w, $d, counted($n), $f),
            },)*
            _ => unreachable!(),
        }
    };
}
const STORAGES: [&str; 5] = ["VecStorage", "DenseVecStorage", "HashMapStorage", "Flagged<VecStorage>", "Flagged<DenseVecStorage>"];
pub fn run(c: &mut Ctx, which: Which) {
    let d = c.q(3, 4);
    let kinds: &'static [usize] = match which {
        Which::Slices => &[1],
        Which::Tracking => &[3, 4],
        _ => &[0, 1, 2, 3, 4],
    };
    let types: &'static [usize] = if which == Which::Drops { &[10, 11] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] };
    let fills: &'static [u32] = c.q(&[0, 66, 130, 1030], &[0, 66, 130, 1030, 4100]);
    c.explore(
        "types of values",
        &format!("every history of {d} operations (insert, remove, replace through get_mut, guard, join or slice, get_or_insert_with, clear marks) at [0, 1, 64, 200] on an empty storage, and (insert, remove, replace) at the ends and in the middle of one with {:?} values: {:?} of values of each type of {:?}", &fills[1..], kinds.iter().map(|k| STORAGES[*k]).collect::<Vec<_>>(), types.iter().map(|t| TYPES[*t]).collect::<Vec<_>>()),
        move || {
            let (t, k) = (*pick(types), *pick(kinds));
            let fill = *pick(fills);
            note(|| format!("{} of {} with {fill} values", STORAGES[k], TYPES[t]));
            by_type!(t, k, which, d, fill, 0 u8 1 u64 2 bool 3 Option<NonZeroU16> 4 Wide 5 Aligned 6 Odd 7 () 8 Nothing 9 AlignedNothing 10 Ghost 11 Heap 12 String)
        },
    );
}
