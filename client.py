"""T01: every client program of a bounded grammar against a model of what it would hold.

A program makes a receiver (a storage, a world, a guard, ...), performs operations on it that hand out
or need references, and keeps each reference until a chosen later point.  The model tracks which
references are live, of which kind, and which values may cross or be shared by threads; from that it
says whether the program must be rejected, must be accepted, or may be either.  Every program is
compiled against goggles built from /repo's working tree; the compiler's verdict on each must agree.
"""
import itertools, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HC = os.path.join(VERIF, "harness", "client")
REL = os.path.join(HC, "target", "release")

HEADER = r'''
#![allow(warnings)]
extern crate client;
use client::goggles as goggles;
use client::rayon as rayon;
use goggles::*;
use goggles::entity::*;
use goggles::join::*;
use goggles::masked::*;
use goggles::storage::*;
use goggles::tracked::*;
use goggles::world::*;
use goggles::world_common::Component;
use goggles::any_components::*;
use goggles::resource_set::*;
use goggles::resources::*;
use goggles::system::*;
use goggles::hibitset::{BitSet, BitSetLike, BitSetAll, BitSetNot};
use goggles::par_join::ParJoinExt as _;
use rayon::iter::ParallelIterator as _;
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
use std::marker::PhantomData;
use std::sync::MutexGuard;

#[derive(Default, Clone)] pub struct V(pub String);
impl Component for V { type Storage = Flagged<DenseVecStorage<V>>; }
#[derive(Default, Clone)] pub struct U(pub String);
impl Component for U { type Storage = VecStorage<U>; }
#[derive(Default, Clone)] pub struct A(pub String);
#[derive(Default, Clone)] pub struct B(pub String);

// values by what they allow: SS both, SN may move only, NY may be shared only, NN neither
#[derive(Default, Clone)] pub struct SS(pub u32);
#[derive(Default, Clone)] pub struct SN(pub Cell<u32>);
#[derive(Default)] pub struct NY(pub PhantomData<MutexGuard<'static, ()>>);
#[derive(Default, Clone)] pub struct NN(pub PhantomData<Rc<()>>);
impl Clone for NY { fn clone(&self) -> NY { NY(PhantomData) } }
impl Component for SS { type Storage = Flagged<VecStorage<SS>>; }
impl Component for SN { type Storage = Flagged<VecStorage<SN>>; }
impl Component for NY { type Storage = Flagged<VecStorage<NY>>; }
impl Component for NN { type Storage = Flagged<VecStorage<NN>>; }

pub fn end<T>(_: T) {}
pub fn keep<T>(_: &T) {}
pub fn need_send<T: Send>(_: T) {}
pub fn need_sync<T: Sync>(_: &T) {}
pub fn need_clone<T: Clone>(_: &T) {}
pub fn is_send<T: Send>() {}
pub fn is_sync<T: Sync>() {}
pub fn is_clone<T: Clone>() {}
pub fn mk<T>() -> T { loop {} }
pub fn any<T>() -> T { loop {} }
'''

ACCEPT, REJECT = "accepted", "rejected"


class Prog:
    __slots__ = ("space", "name", "body", "want", "why", "steps", "state")

    def __init__(self, space, name, body, want, why, steps=1, state=""):
        self.space, self.name, self.body, self.want, self.why, self.steps, self.state = space, name, body, want, why, steps, state

    def text(self):
        return self.body


# ---- references ---------------------------------------------------------------------------------
# An operation: (name, code over `x`, kind)
#   S: hands out something that reads x          s: reads x for a moment
#   M: hands out exclusive access to (part of) x m: changes x for a moment
#   X: consumes x
#   t: changes a setting of x for a moment, which conflicts with nothing that is referenced
# Against what is still held: M, m and X must be rejected, S must be rejected while an exclusive
# reference is held; s and t may be either, they touch no value.
class Recv:
    def __init__(self, name, setup, ops):
        self.name, self.setup, self.ops = name, setup, ops


STORE_OPS = [
    ("get", "x.get(0)", "S"), ("mask", "x.mask()", "S"), ("raw_storage", "x.raw_storage()", "S"),
    ("as_slice", "x.as_slice()", "S"), ("join", "(&x).join()", "S"), ("join-items", "(&x).join().collect::<Vec<_>>()", "S"),
    ("modified_indexes", "x.modified_indexes()", "S"), ("modified", "x.modified()", "S"),
    ("modified-items", "x.modified().join().collect::<Vec<_>>()", "S"), ("maybe", "(&x).maybe()", "S"), ("par_join", "(&x).par_join()", "S"),
    ("contains", "x.contains(0)", "s"), ("mark", "x.mark_modified(0)", "s"), ("tracking", "x.tracking_modified()", "s"),
    ("get_mut", "x.get_mut(0)", "M"), ("get_guard", "x.get_guard(0)", "M"),
    ("guard.get", "x.get_guard(0).as_ref().map(|g| end(g.get()))", "m"),
    ("get_or_insert", "x.get_or_insert_with(0, any)", "M"), ("guard", "x.guard()", "M"), ("guard-join", "x.guard().join()", "M"),
    ("guards", "x.guard().join().collect::<Vec<_>>()", "M"), ("join_mut", "(&mut x).join()", "M"), ("items_mut", "(&mut x).join().collect::<Vec<_>>()", "M"),
    ("modified_mut", "x.modified_mut()", "M"), ("modified_mut-items", "x.modified_mut().join().collect::<Vec<_>>()", "M"),
    ("as_mut_slice", "x.as_mut_slice()", "M"), ("maybe_mut", "(&mut x).maybe()", "M"), ("par_join_mut", "(&mut x).par_join()", "M"),
    ("insert", "x.insert(0, any())", "m"), ("remove", "x.remove(0)", "m"), ("set_track", "x.set_track_modified(true)", "t"),
    ("clear", "x.clear_modified()", "m"), ("drop", "drop(x)", "X"),
]
ACCESS_OPS = [
    ("get", "x.get(e)", "S"), ("mask", "x.mask()", "S"), ("storage", "x.storage()", "S"), ("as_slice", "x.as_slice()", "S"),
    ("join", "(&x).join()", "S"), ("join-items", "(&x).join().collect::<Vec<_>>()", "S"), ("modified_indexes", "x.modified_indexes()", "S"),
    ("modified", "x.modified()", "S"), ("contains", "x.contains(e)", "s"), ("mark", "x.mark_modified(e)", "s"),
    ("tracking", "x.tracking_modified()", "s"), ("drop", "drop(x)", "X"),
]
ACCESS_MUT_OPS = ACCESS_OPS + [
    ("get_mut", "x.get_mut(e)", "M"), ("get_guard", "x.get_guard(e)", "M"), ("storage_mut", "x.storage_mut()", "M"),
    ("get_or_insert", "x.get_or_insert_with(e, any)", "M"), ("get_or_default", "x.get_or_default(e)", "M"),
    ("guard", "x.guard()", "M"), ("guards", "x.guard().join().collect::<Vec<_>>()", "M"),
    ("join_mut", "(&mut x).join()", "M"), ("items_mut", "(&mut x).join().collect::<Vec<_>>()", "M"),
    ("modified_mut", "x.modified_mut()", "M"), ("as_mut_slice", "x.as_mut_slice()", "M"),
    ("insert", "x.insert(e, any())", "m"), ("remove", "x.remove(e)", "m"),
    ("set_track", "x.set_track_modified(true)", "t"), ("clear", "x.clear_modified()", "m"),
]
GUARD_OPS = [("get", "x.get()", "S"), ("get_mut", "x.get_mut()", "M"), ("mark", "x.mark_modified()", "s")]
ALLOC_OPS = [
    ("live_bitset", "x.live_bitset()", "S"), ("join", "(&x).join()", "S"), ("is_alive", "x.is_alive(e)", "s"),
    ("entity", "x.entity(0)", "s"), ("allocate_atomic", "x.allocate_atomic()", "s"), ("kill_atomic", "x.kill_atomic(e)", "s"),
    ("max", "x.max_entity_count()", "s"), ("allocate", "x.allocate()", "m"), ("kill", "x.kill(e)", "m"),
    ("merge_atomic", "x.merge_atomic(&mut Vec::new())", "m"), ("drop", "drop(x)", "X"),
]
SET_OPS = [
    ("borrow", "x.borrow::<A>()", "S"), ("borrow_mut", "x.borrow_mut::<A>()", "S"), ("fetch Read", "x.fetch::<Read<A>>()", "S"),
    ("fetch Write", "x.fetch::<(Write<A>, Read<B>)>()", "S"), ("contains", "x.contains::<A>()", "s"),
    ("get_mut", "x.get_mut::<A>()", "M"), ("get_mut B", "x.get_mut::<B>()", "M"), ("insert", "x.insert(any::<A>())", "m"),
    ("remove", "x.remove::<A>()", "m"), ("drop", "drop(x)", "X"),
]
WORLD_OPS = [
    ("entities", "x.entities()", "S"), ("read_resource", "x.read_resource::<A>()", "S"), ("write_resource", "x.write_resource::<A>()", "S"),
    ("read_component", "x.read_component::<V>()", "S"), ("write_component", "x.write_component::<V>()", "S"),
    ("fetch", "x.fetch::<(Entities, ReadComponent<V>, WriteComponent<U>, WriteResource<A>, ReadResource<B>)>()", "S"),
    ("contains_component", "x.contains_component::<V>()", "s"), ("contains_resource", "x.contains_resource::<A>()", "s"),
    ("get_resource_mut", "x.get_resource_mut::<A>()", "M"), ("get_component_mut", "x.get_component_mut::<V>()", "M"),
    ("create", "x.create_entity()", "m"), ("delete", "x.delete_entity(e)", "m"), ("merge", "x.merge()", "m"),
    ("insert_resource", "x.insert_resource(any::<A>())", "m"), ("remove_resource", "x.remove_resource::<A>()", "m"),
    ("insert_component", "x.insert_component::<V>()", "m"), ("remove_component", "x.remove_component::<V>()", "m"),
    ("set into", "AnyComponentSet::new().insert_into_world(&mut x, e)", "m"), ("drop", "drop(x)", "X"),
]
ANY_OPS = [
    ("get", "x.get::<V>()", "S"), ("contains", "x.contains::<V>()", "s"), ("get_mut", "x.get_mut::<V>()", "M"),
    ("insert", "x.insert(any::<V>())", "m"), ("merge", "x.merge(any())", "m"), ("drop", "drop(x)", "X"),
]
RA_OPS = [("deref", "&*x", "S"), ("field", "&x.0", "S"), ("drop", "drop(x)", "X")]
WA_OPS = RA_OPS + [("deref_mut", "&mut *x", "M"), ("field_mut", "&mut x.0", "M"), ("assign", "x.0 = String::new()", "m")]
MS_OPS = [("get", "x.get()", "S"), ("get_mut", "x.get_mut()", "M"), ("into_inner", "x.into_inner()", "X"), ("drop", "drop(x)", "X")]
ENT_OPS = [("live_bitset", "x.live_bitset()", "S"), ("join", "(&x).join()", "S"), ("is_alive", "x.is_alive(e)", "s"), ("create", "x.create()", "s"), ("delete", "x.delete(e)", "s"), ("drop", "drop(x)", "X")]

E_ = "let e: Entity = any(); "
W_ = "let mut w: World = mk(); "
RECVS = [
    Recv("MaskedStorage<Flagged<DenseVec>>", "let mut x: MaskedStorage<Flagged<D>> = mk();", [o for o in STORE_OPS if "slice" not in o[0]]),
    Recv("MaskedStorage<DenseVec>", "let mut x: MaskedStorage<DenseVecStorage<V>> = mk();", [o for o in STORE_OPS if not any(k in o[0] for k in ("modif", "mark", "track", "clear"))]),
    Recv("ReadComponent", W_ + E_ + "let x = w.read_component::<V>();", ACCESS_OPS),
    Recv("WriteComponent", W_ + E_ + "let mut x = w.write_component::<V>();", ACCESS_MUT_OPS),
    Recv("get_component_mut", W_ + E_ + "let mut x = w.get_component_mut::<V>();", ACCESS_MUT_OPS),
    Recv("guard of get_guard", "let mut s: MaskedStorage<Flagged<VecStorage<V>>> = mk(); let mut x = s.get_guard(0).unwrap();", GUARD_OPS),
    Recv("guard of an access", W_ + E_ + "let mut s = w.write_component::<V>(); let mut x = s.get_guard(e).unwrap();", GUARD_OPS),
    Recv("guard of a join", "let mut s: MaskedStorage<Flagged<VecStorage<V>>> = mk(); let mut x = s.guard().join().next().unwrap();", GUARD_OPS),
    Recv("Allocator", "let mut x: Allocator = mk(); " + E_, ALLOC_OPS),
    Recv("Entities", "let w: World = mk(); " + E_ + "let x = w.entities();", ENT_OPS),
    Recv("ResourceSet", "let mut x: ResourceSet = mk();", SET_OPS),
    Recv("World", "let mut x: World = mk(); " + E_, WORLD_OPS),
    Recv("AnyComponentSet", "let mut x: AnyComponentSet = mk();", ANY_OPS + [("remove", "x.remove::<V>()", "m")]),
    Recv("AnyCloneComponentSet", "let mut x: AnyCloneComponentSet = mk();", ANY_OPS),
    Recv("read_resource", W_ + "let x = w.read_resource::<A>();", RA_OPS),
    Recv("write_resource", W_ + "let mut x = w.write_resource::<A>();", WA_OPS),
    Recv("Read", "let s: ResourceSet = mk(); let x = s.fetch::<Read<A>>();", RA_OPS),
    Recv("Write", "let s: ResourceSet = mk(); let mut x = s.fetch::<Write<A>>();", WA_OPS),
    Recv("MakeSync", "let mut x: MakeSync<A> = mk();", MS_OPS),
]


def fix(op, recv):
    """Slices only exist for dense storages, tracking only for tracked ones."""
    return op


def usable(recv):
    ops = recv.ops
    if recv.name in ("ReadComponent", "WriteComponent", "get_component_mut"):
        # V is Flagged: no slices
        ops = [o for o in ops if "slice" not in o[0]]
    return ops


def borrow_program(recv, ops, last):
    """ops[i] is performed as step i; the result of step i is last used after step last[i]."""
    # model: live references (index -> kind); gone: receiver consumed
    ok, why, live, gone, either = True, "", {}, False, False
    lines = [recv.setup.replace("Flagged<D>", "Flagged<DenseVecStorage<V>>")]
    states = []
    for i, (name, code, kind) in enumerate(ops):
        need_excl = kind in "MmX"
        if kind == "t" and live or kind == "s" and "M" in live.values():
            either = True
        if ok and gone:
            ok, why = False, "%s after the receiver was given away" % name
        for j, k in live.items():
            if ok and kind not in "st" and (k == "M" or need_excl):
                ok, why = False, "%s while the %s reference of step %d (%s) is still held" % (name, "exclusive" if k == "M" else "shared", j, ops[j][0])
        if kind == "X":
            gone = True
        if kind in "SM":
            lines.append("let r%d = %s;" % (i, code))
            live[i] = kind
        else:
            lines.append("%s;" % code)
        for j in [j for j in live if last[j] == i]:
            lines.append("end(r%d);" % j)
            del live[j]
        states.append("".join(sorted(live.values())) + ("x" if gone else ""))
    # what is used at the end has last = len(ops)-1
    return (None if ok and either else ok), why, "\n".join(lines), "/".join(states)


def borrow_programs(depth, pick):
    for recv in RECVS:
        ops = usable(recv)
        for n in range(1, depth + 1):
            menu = ops if n <= 2 else pick(ops)
            for seq in itertools.product(menu, repeat=n):
                # a reference is dropped right away or held until any later step
                spans = [range(i, n) if seq[i][2] in "SM" else [i] for i in range(n)]
                for last in itertools.product(*spans):
                    ok, why, body, st = borrow_program(recv, seq, last)
                    if ok is None:
                        continue
                    name = "%s: %s" % (recv.name, ", ".join("%s (until step %d)" % (o[0], l) if o[2] in "SM" else o[0] for o, l in zip(seq, last)))
                    yield Prog("references", name, body, ACCEPT if ok else REJECT, why or "no reference conflicts", n, recv.name + "|" + st)


def representatives(ops):
    """A few of every kind, the first of each."""
    out, n = [], {}
    for o in ops:
        n[o[2]] = n.get(o[2], 0) + 1
        if n[o[2]] <= (2 if o[2] in "SM" else 1):
            out.append(o)
    return out


# ---- references that leave the scope of what they refer to ----------------------------------------
def outlive_programs():
    for recv in RECVS:
        for name, code, kind in usable(recv):
            if kind not in "SM":
                continue
            setup = recv.setup.replace("Flagged<D>", "Flagged<DenseVecStorage<V>>")
            guard = recv.name.startswith("guard of")
            yield Prog("lifetimes", "%s: %s used after everything behind it is gone" % (recv.name, name),
                       "let r; { %s r = %s; } end(r);" % (setup, code), REJECT, "the reference outlives what it refers to", 2, recv.name + "|outlive")
            yield Prog("lifetimes", "%s: %s used in its scope" % (recv.name, name),
                       "{ %s let r; { r = %s; } end(r); }" % (setup, code), ACCEPT, "the reference is used while what it refers to exists", 2, recv.name + "|inside")
    st = "let mut s: MaskedStorage<Flagged<VecStorage<V>>> = mk();"
    wd = "let mut w: World = mk(); let e: Entity = any();"
    chains = [
        ("get_guard, get", st, "s.get_guard(0).unwrap().get()"), ("get_guard, get_mut", st, "s.get_guard(0).unwrap().get_mut()"),
        ("first of join", st, "(&s).join().next()"), ("first of join_mut", st, "(&mut s).join().next()"),
        ("first guard", st, "s.guard().join().next()"), ("guard element of a join, get_mut", st, "s.guard().join().next().unwrap().get_mut()"),
        ("first of modified", st, "s.modified().join().next()"), ("first of modified_mut", st, "s.modified_mut().join().next()"),
        ("maybe", st, "(&mut s).maybe().join_unconstrained().next()"), ("tuple", st, "(&BitSetAll, &mut s).join_unconstrained().next()"),
        ("par_join collected", st, "(&mut s).par_join().collect::<Vec<_>>()"),
        ("par_join of guards collected", st, "s.guard().par_join().collect::<Vec<_>>()"),
        ("raw slice", "let mut s: MaskedStorage<DenseVecStorage<V>> = mk();", "s.raw_storage().as_slice()"),
        ("component through a temporary access", wd, "w.read_component::<V>().get(e)"),
        ("component through a temporary exclusive access", wd, "w.write_component::<V>().get_mut(e)"),
        ("storage of a temporary access", wd, "w.write_component::<V>().storage_mut()"),
        ("guard of a temporary access", wd, "w.write_component::<V>().get_guard(e)"),
        ("items of a temporary access", wd, "(&mut w.write_component::<V>()).join().collect::<Vec<_>>()"),
        ("resource through a temporary", wd, "Deref::deref(&w.read_resource::<A>())"), ("resource through a temporary exclusive access", wd, "DerefMut::deref_mut(&mut w.write_resource::<A>())"),
        ("set resource through a temporary", "let mut s: ResourceSet = mk();", "Deref::deref(&s.borrow::<A>())"),
        ("set resource through a temporary write", "let mut s: ResourceSet = mk();", "DerefMut::deref_mut(&mut s.fetch::<Write<A>>())"),
    ]
    for name, setup, code in chains:
        yield Prog("lifetimes", "chain: %s used after the owner is gone" % name, "let r; { %s r = %s; } end(r);" % (setup, code), REJECT, "the reference outlives what it refers to", 3, "chain|outlive")
        yield Prog("lifetimes", "chain: %s used at once" % name, "%s end(%s);" % (setup, code), ACCEPT, "the reference is used at once", 3, "chain|inside")
    # references through an access that has been released, while its world still exists
    for name, setup, code in chains:
        if "temporary" in name and "access" in name or name.startswith(("resource", "set resource")):
            yield Prog("lifetimes", "chain: %s used after the access is released" % name, "%s let r = %s; end(r);" % (setup, code), REJECT, "the borrow of the value is released before the reference is used", 3, "chain|released")
    # distinct elements
    for name, body in [
        ("two items of a mutable join", st + " let mut it = (&mut s).join(); let a = it.next(); let b = it.next(); end(a); end(b);"),
        ("two guards", st + " let mut it = s.guard().join(); let a = it.next(); let b = it.next(); end(a); end(b);"),
        ("mutable through two guards", st + " let mut v: Vec<_> = s.guard().join().collect(); let (a, b) = v.split_at_mut(1); let a = a[0].get_mut(); let b = b[0].get_mut(); end(a); end(b);"),
        ("two storages", "let mut s: MaskedStorage<VecStorage<V>> = mk(); let mut t: MaskedStorage<VecStorage<V>> = mk(); let a = s.get_mut(0); let b = t.get_mut(0); end(a); end(b);"),
        ("a join of two storages", "let mut s: MaskedStorage<VecStorage<V>> = mk(); let mut t: MaskedStorage<VecStorage<V>> = mk(); let v: Vec<_> = (&mut s, &mut t).join().collect(); end(v);"),
        ("items of modified_mut", st + " let v: Vec<_> = s.modified_mut().join().collect(); end(v);"),
        ("two exclusive components", wd + " let mut a = w.write_component::<V>(); let mut b = w.write_component::<U>(); let x = a.get_mut(e); let y = b.get_mut(e); end(x); end(y);"),
        ("two exclusive resources", wd + " let mut a = w.write_resource::<A>(); let mut b = w.write_resource::<B>(); let x = &mut *a; let y = &mut *b; end(x); end(y);"),
        ("two exclusive resources of a set", "let s: ResourceSet = mk(); let mut a = s.borrow_mut::<A>(); let mut b = s.borrow_mut::<B>(); let x = &mut *a; let y = &mut *b; end(x); end(y);"),
        ("guards one after the other", st + " let mut g = s.get_guard(0).unwrap(); end(g.get_mut()); end(g.get()); end(g.get_mut()); end(g);"),
        ("elements of as_mut_slice", "let mut s: MaskedStorage<DenseVecStorage<V>> = mk(); let (a, b) = s.as_mut_slice().split_at_mut(1); end(a); end(b);"),
        ("delete and create while reading", "let w: World = mk(); let e: Entity = any(); let p = w.read_component::<V>(); let r = p.get(e); let es = w.entities(); es.create(); es.delete(e); end(r);"),
    ]:
        yield Prog("lifetimes", "distinct: " + name, body, ACCEPT, "the references are to different values", 3, "distinct")
    for name, body in [
        ("one storage twice in a mutable join", st + " let v: Vec<_> = (&mut s, &mut s).join().collect(); end(v);"),
        ("one storage shared and mutable in a join", st + " let v: Vec<_> = (&s, &mut s).join().collect(); end(v);"),
        ("guards and items of one storage", st + " let v: Vec<_> = (s.guard(), &s).join().collect(); end(v);"),
        ("modified items and mutable items", st + " let v: Vec<_> = (s.modified_mut(), &mut s).join().collect(); end(v);"),
        ("component twice through one access", wd + " let mut a = w.write_component::<V>(); let v: Vec<_> = (&mut a, &a).join().collect(); end(v);"),
        ("mask and mutable items", st + " let v: Vec<_> = (s.mask(), &mut s).join().collect(); end(v);"),
        ("two mutable parallel joins in one tuple", st + " let v: Vec<_> = (&mut s, &mut s).par_join().collect(); end(v);"),
    ]:
        yield Prog("lifetimes", "same: " + name, body, REJECT, "two references to one value, one of them exclusive", 3, "same")


# ---- references obtained through what another operation handed out ---------------------------------
def nested_programs():
    st = "let mut x: MaskedStorage<Flagged<VecStorage<V>>> = mk();"
    wd = "let mut x: World = mk(); let e: Entity = any();"
    wc = W_ + E_ + "let mut x = w.write_component::<V>();"
    sops = [o for o in STORE_OPS if "slice" not in o[0]]
    # root setup, root operations, [(first operation, its kind on the root, second operations)]
    guard2 = [("get", "g.get()", "S"), ("get_mut", "g.get_mut()", "M")]
    acc2 = [("get", "g.get(e)", "S"), ("get_mut", "g.get_mut(e)", "M"), ("get_guard", "g.get_guard(e)", "M"), ("storage", "g.storage()", "S"), ("guards", "g.guard().join().collect::<Vec<_>>()", "M"), ("items", "(&mut g).join().collect::<Vec<_>>()", "M")]
    roots = [
        ("MaskedStorage", st, sops, [
            ("get_guard", "x.get_guard(0).unwrap()", "M", guard2), ("first guard", "x.guard().join().next().unwrap()", "M", guard2),
            ("iterator", "(&mut x).join()", "M", [("next", "g.next()", "D")]), ("guard iterator", "x.guard().join()", "M", [("next", "g.next()", "D")]),
            ("shared iterator", "(&x).join()", "S", [("next", "g.next()", "D")]), ("modified_mut iterator", "x.modified_mut().join()", "M", [("next", "g.next()", "D")]),
        ]),
        ("WriteComponent", wc, [o for o in ACCESS_MUT_OPS if "slice" not in o[0]], [
            ("get_guard", "x.get_guard(e).unwrap()", "M", guard2), ("storage_mut", "x.storage_mut()", "M", [("get_mut", "g.get_mut(0)", "M"), ("get", "g.get(0)", "S")]),
        ]),
        ("World", wd, WORLD_OPS, [
            ("read_component", "x.read_component::<V>()", "S", [acc2[0], acc2[3]]), ("write_component", "x.write_component::<V>()", "S", acc2),
            ("get_component_mut", "x.get_component_mut::<V>()", "M", acc2), ("read_resource", "x.read_resource::<A>()", "S", [("deref", "&*g", "S")]),
            ("write_resource", "x.write_resource::<A>()", "S", [("deref", "&*g", "S"), ("deref_mut", "&mut *g", "M")]),
            ("entities", "x.entities()", "S", [("bits", "g.live_bitset()", "S")]),
        ]),
        ("ResourceSet", "let mut x: ResourceSet = mk();", SET_OPS, [
            ("borrow", "x.borrow::<A>()", "S", [("deref", "&*g", "S")]), ("borrow_mut", "x.borrow_mut::<A>()", "S", [("deref", "&*g", "S"), ("deref_mut", "&mut *g", "M")]),
            ("fetch Write", "x.fetch::<Write<A>>()", "S", [("deref", "&*g", "S"), ("deref_mut", "&mut *g", "M")]),
        ]),
    ]
    for rn, setup, ops, firsts in roots:
        for fn, fcode, fk, seconds in firsts:
            for sn, scode, sk in seconds:
                for on, ocode, ok_ in ops:
                    # when the first and the second result are last used: before or after the third operation
                    for gl, rl in itertools.product([1, 2], repeat=2):
                        if sk != "D" and gl < rl:
                            # the second is used after the first is given away: only fine if they are
                            # independent of each other, which no property demands
                            if not (sk == "M" or fk == "M"):
                                continue
                        held = gl == 2 or rl == 2
                        if held and (ok_ == "t" or ok_ == "s" and fk == "M"):
                            continue
                        bad = held and (fk == "M" and ok_ not in "st" or ok_ in "MmX")
                        why = "%s while something handed out by %s is still held" % (on, fn) if bad else "no reference conflicts"
                        if sk != "D" and gl < rl and not bad:
                            bad, why = True, "what %s handed out is used after its source was given away" % fn
                            if sk == "S" and fk == "M" and "guard" not in fn:
                                continue
                        body = [setup, "let mut g = %s;" % fcode, "let r = %s;" % scode]
                        if rl == 1:
                            body.append("end(r);")
                        if gl == 1:
                            body.append("end(g);")
                        body.append(("let o = %s;" if ok_ in "SM" else "%s;") % ocode)
                        if rl == 2:
                            body.append("end(r);")
                        if gl == 2:
                            body.append("end(g);")
                        body.append("end(o);" if ok_ in "SM" else "")
                        yield Prog("nested", "%s: %s (until step %d), %s of it (until step %d), %s" % (rn, fn, gl + 1, sn, rl + 1, on), "\n".join(body), REJECT if bad else ACCEPT, why, 3, "%s|%s|%s|%d%d%s" % (rn, fk, sk, gl, rl, ok_))


# ---- threads ---------------------------------------------------------------------------------------
CLASSES = {"SS": (True, True), "SN": (True, False), "NY": (False, True), "NN": (False, False)}


def thread_programs():
    stores = {
        "VecStorage": "VecStorage<T>", "DenseVecStorage": "DenseVecStorage<T>", "HashMapStorage": "HashMapStorage<T>",
        "Flagged<VecStorage>": "Flagged<VecStorage<T>>", "Flagged<DenseVecStorage>": "Flagged<DenseVecStorage<T>>", "Flagged<HashMapStorage>": "Flagged<HashMapStorage<T>>",
        "Flagged<Flagged<VecStorage>>": "Flagged<Flagged<VecStorage<T>>>",
    }
    # (name, type over S and T, role): owner | shared (what it gives is shared) | excl (exclusive)
    #   inert: whether a shared reference to it gives access to the value
    carriers = [
        ("raw storage", "S", "owner"), ("MaskedStorage", "MaskedStorage<S>", "owner"), ("&MaskedStorage", "&'static MaskedStorage<S>", "shared"),
        ("&mut MaskedStorage", "&'static mut MaskedStorage<S>", "excl"), ("GuardedElement", "GuardedElement<'static, S>", "excl*"),
        ("GuardedJoin", "GuardedJoin<'static, S>", "excl"), ("JoinIter of &", "JoinIter<&'static MaskedStorage<S>>", "shared"),
        ("JoinIter of &mut", "JoinIter<&'static mut MaskedStorage<S>>", "excl*i"), ("JoinIter of guards", "JoinIter<GuardedJoin<'static, S>>", "excl*i"),
        ("JoinIter of (&mut, &bits)", "JoinIter<JoinTuple<(&'static mut MaskedStorage<S>, &'static BitSet)>>", "excl*i"),
        ("JoinIter of (&bits, guards)", "JoinIter<JoinTuple<(&'static BitSet, GuardedJoin<'static, S>)>>", "excl*i"),
        ("JoinIter of (&mut).maybe()", "JoinIter<MaybeJoin<&'static mut MaskedStorage<S>>>", "excl*i"),
        ("MaybeJoin of &mut", "MaybeJoin<&'static mut MaskedStorage<S>>", "excl"), ("MaybeJoin of &", "MaybeJoin<&'static MaskedStorage<S>>", "shared"),
        ("JoinTuple of &mut", "JoinTuple<(&'static mut MaskedStorage<S>,)>", "excl"),
        ("AtomicRefMut", "ResourceAccess<atomic::AtomicRefMut<'static, T>>", "skip"),
    ]
    tracked = [
        ("ModifiedJoin", "ModifiedJoin<'static, S>", "shared"), ("ModifiedJoinMut", "ModifiedJoinMut<'static, S>", "excl"),
        ("JoinIter of modified", "JoinIter<ModifiedJoin<'static, S>>", "shared"), ("JoinIter of modified_mut", "JoinIter<ModifiedJoinMut<'static, S>>", "excl*i"),
    ]
    free = [
        ("ResourceAccess", None, None),
    ]

    def verdicts(role, send, sync):
        """(moving it to another thread, sharing it between threads)"""
        if role == "owner":
            return (ACCEPT if send else REJECT), (ACCEPT if sync else REJECT)
        if role == "shared":
            return (ACCEPT if sync else REJECT), (ACCEPT if sync else REJECT)
        # exclusive: whoever has it can take the value out; `*` marks those which also hold a shared
        # reference inside, so that being strict about values that may only move is permissible;
        # `i`: sharing it gives no access
        mv = REJECT if not send else (ACCEPT if sync or "*" not in role else None)
        sh = (ACCEPT if send else None) if sync else (None if "i" in role else REJECT)
        return mv, sh

    for cl, (send, sync) in CLASSES.items():
        for sn, st in stores.items():
            S = st.replace("T", cl) if False else st.replace("<T>", "<%s>" % cl)
            for name, ty, role in carriers + (tracked if sn.startswith("Flagged") else []):
                if role == "skip":
                    continue
                t = ty.replace("<S>", "<%s>" % S).replace(", S>", ", %s>" % S)
                if ty == "S":
                    t = S
                if name.startswith("MaybeJoin") or name.startswith("JoinTuple"):
                    pass
                mv, sh = verdicts(role, send, sync)
                if mv:
                    yield Prog("threads", "moving %s of %s with a %s value" % (name, sn, cl), "is_send::<%s>();" % t, mv, "value may move: %s, may be shared: %s" % (send, sync), 1, "%s|%s|send" % (name, cl))
                if sh:
                    yield Prog("threads", "sharing %s of %s with a %s value" % (name, sn, cl), "is_sync::<%s>();" % t, sh, "value may move: %s, may be shared: %s" % (send, sync), 1, "%s|%s|sync" % (name, cl))
                if role.startswith("excl"):
                    yield Prog("threads", "cloning %s of %s" % (name, sn), "is_clone::<%s>();" % t, REJECT, "would give exclusive access twice", 1, "%s|clone" % name)
            # parallel joins
            for name, code, role in [
                ("(&s).par_join()", "(&s).par_join().for_each(|i| end(i))", "shared"),
                ("(&mut s).par_join()", "(&mut s).par_join().for_each(|i| end(i))", "excl*"),
                ("guard().par_join()", "s.guard().par_join().for_each(|i| end(i))", "excl*"),
                ("(&s, &bits).par_join()", "(&s, &b).par_join().for_each(|i| end(i))", "shared"),
                ("(&bits, &mut s).par_join()", "(&b, &mut s).par_join().for_each(|i| end(i))", "excl*"),
                ("((&mut s).maybe(), &bits).par_join()", "((&mut s).maybe(), &b).par_join_unconstrained().for_each(|i| end(i))", "excl*"),
                ("(&bits, (&s).maybe()).par_join()", "(&b, (&s).maybe()).par_join_unconstrained().for_each(|i| end(i))", "shared"),
            ] + ([
                ("modified().par_join()", "s.modified().par_join().for_each(|i| end(i))", "shared"),
                ("modified_mut().par_join()", "s.modified_mut().par_join().for_each(|i| end(i))", "excl*"),
            ] if sn.startswith("Flagged") else []):
                mv = verdicts(role, send, sync)[0]
                if mv:
                    yield Prog("threads", "%s of %s with a %s value" % (name, sn, cl), "let mut s: MaskedStorage<%s> = mk(); let b: BitSet = mk(); %s;" % (S, code), mv, "value may move: %s, may be shared: %s" % (send, sync), 2, "%s|%s" % (name, cl))
            # real values moved and shared
            for name, code, role in [
                ("get", "s.get(0)", "shared"), ("get_mut", "s.get_mut(0)", "excl"), ("get_guard", "s.get_guard(0)", "excl*"), ("guards", "s.guard().join().collect::<Vec<_>>()", "excl*"),
                ("items", "(&mut s).join().collect::<Vec<_>>()", "excl"), ("iterator", "(&mut s).join()", "excl*"), ("tuple iterator", "(&mut s, &b).join()", "excl*"),
                ("guard iterator", "s.guard().join()", "excl*"), ("shared iterator", "(&s).join()", "shared"), ("storage", "s", "owner"), ("removed", "s.remove(0)", "owner"),
            ]:
                mv = verdicts(role, send, sync)[0]
                if mv:
                    yield Prog("threads", "%s of %s with a %s value used on another thread" % (name, sn, cl),
                               "let mut s: MaskedStorage<%s> = mk(); let b: BitSet = mk(); { let r = %s; std::thread::scope(|t| { t.spawn(move || end(r)); }); }" % (S, code), mv, "value may move: %s, may be shared: %s" % (send, sync), 2, "spawn %s|%s" % (name, cl))
        # worlds, resource containers, dynamic sets
        T = cl
        ss = send and sync
        acc = lambda b: ACCEPT if b else REJECT
        why = "value may move: %s, may be shared: %s" % (send, sync)
        wops = [
            ("World::insert_resource", "w.insert_resource(any::<%s>());" % T, acc(send)),
            ("World::read_resource", "w.insert_resource(any::<%s>()); end(w.read_resource::<%s>());" % (T, T), acc(ss)),
            ("World::write_resource", "w.insert_resource(any::<%s>()); end(w.write_resource::<%s>());" % (T, T), acc(send)),
            ("World::get_resource_mut", "end(w.get_resource_mut::<%s>());" % T, ACCEPT if send else None),
            ("World::remove_resource", "end(w.remove_resource::<%s>());" % T, ACCEPT if send else None),
            ("World::insert_component", "w.insert_component::<%s>();" % T, acc(send)),
            ("World::read_component", "w.insert_component::<%s>(); end(w.read_component::<%s>());" % (T, T), acc(ss)),
            ("World::write_component", "w.insert_component::<%s>(); end(w.write_component::<%s>());" % (T, T), acc(send)),
            ("World::get_component_mut", "end(w.get_component_mut::<%s>());" % T, ACCEPT if send else None),
            ("fetch ReadResource", "w.insert_resource(any::<%s>()); end(w.fetch::<ReadResource<%s>>());" % (T, T), acc(ss)),
            ("fetch WriteResource", "w.insert_resource(any::<%s>()); end(w.fetch::<(WriteResource<%s>,)>());" % (T, T), acc(send)),
            ("fetch ReadComponent", "w.insert_component::<%s>(); end(w.fetch::<(Entities, ReadComponent<%s>)>());" % (T, T), acc(ss)),
            ("fetch WriteComponent", "w.insert_component::<%s>(); end(w.fetch::<WriteComponent<%s>>());" % (T, T), acc(send)),
            ("check_resources", "end(<WriteComponent<'static, %s> as FetchResources<'static, World>>::check_resources());" % T, ACCEPT if send else None),
            ("ResourceSet::insert", "r.insert(any::<%s>());" % T, acc(send)),
            ("ResourceSet::borrow", "r.insert(any::<%s>()); end(r.borrow::<%s>());" % (T, T), acc(ss)),
            ("ResourceSet::borrow_mut", "r.insert(any::<%s>()); end(r.borrow_mut::<%s>());" % (T, T), acc(send)),
            ("ResourceSet::get_mut", "end(r.get_mut::<%s>());" % T, ACCEPT if send else None),
            ("ResourceSet::remove", "end(r.remove::<%s>());" % T, ACCEPT if send else None),
            ("fetch Read", "r.insert(any::<%s>()); end(r.fetch::<Read<%s>>());" % (T, T), acc(ss)),
            ("fetch Write", "r.insert(any::<%s>()); end(r.fetch::<(Write<%s>,)>());" % (T, T), acc(send)),
            ("AnyComponentSet::insert", "c.insert(any::<%s>());" % T, ACCEPT if ss else REJECT if not send else None),
            ("AnyComponentSet::get", "c.insert(any::<%s>()); end(c.get::<%s>());" % (T, T), acc(ss)),
            ("AnyComponentSet::get_mut", "c.insert(any::<%s>()); end(c.get_mut::<%s>());" % (T, T), ACCEPT if ss else REJECT if not send else None),
            ("AnyCloneComponentSet::insert", "k.insert(any::<%s>());" % T, ACCEPT if ss else REJECT if not send else None),
            ("AnyCloneComponentSet::get", "k.insert(any::<%s>()); end(k.get::<%s>());" % (T, T), acc(ss)),
            ("MakeSync::get", "end(any::<MakeSync<%s>>().get());" % T, acc(sync)),
            ("MakeSync::get_mut", "end(any::<MakeSync<%s>>().get_mut());" % T, ACCEPT),
            ("MakeSync::into_inner", "end(any::<MakeSync<%s>>().into_inner());" % T, ACCEPT),
            ("moving MakeSync", "is_send::<MakeSync<%s>>();" % T, acc(send)),
            ("sharing MakeSync", "is_sync::<MakeSync<%s>>();" % T, ACCEPT),
            ("MakeSync not clonable", "is_clone::<MakeSync<%s>>();" % T, REJECT if not sync else None),
            ("moving ReadResource", "is_send::<ReadResource<'static, %s>>();" % T, acc(sync)),
            ("sharing ReadResource", "is_sync::<ReadResource<'static, %s>>();" % T, acc(sync)),
            ("moving WriteResource", "is_send::<WriteResource<'static, %s>>();" % T, acc(send)),
            ("sharing WriteResource", "is_sync::<WriteResource<'static, %s>>();" % T, acc(sync)),
            ("moving Read", "is_send::<Read<'static, %s>>();" % T, acc(sync)),
            ("sharing Read", "is_sync::<Read<'static, %s>>();" % T, acc(sync)),
            ("moving Write", "is_send::<Write<'static, %s>>();" % T, acc(send)),
            ("sharing Write", "is_sync::<Write<'static, %s>>();" % T, acc(sync)),
            ("moving ReadComponent", "is_send::<ReadComponent<'static, %s>>();" % T, ACCEPT if ss else REJECT if not sync else None),
            ("sharing ReadComponent", "is_sync::<ReadComponent<'static, %s>>();" % T, ACCEPT if ss else REJECT if not sync else None),
            ("moving WriteComponent", "is_send::<WriteComponent<'static, %s>>();" % T, acc(send)),
            ("sharing WriteComponent", "is_sync::<WriteComponent<'static, %s>>();" % T, ACCEPT if ss else REJECT if not sync else None),
            ("cloning WriteResource", "is_clone::<WriteResource<'static, %s>>();" % T, REJECT),
            ("cloning Write", "is_clone::<Write<'static, %s>>();" % T, REJECT),
            ("cloning WriteComponent", "is_clone::<WriteComponent<'static, %s>>();" % T, REJECT),
            ("parallel systems holding the value", "let v: %s = any(); let mut s = goggles::par!(Sys(v), Sys(0u32)); System::<u32>::run(&mut s, &SeqPool, 1u32);" % T, acc(send)),
            ("list of parallel systems holding the value", "let mut s = ParList(vec![Sys(any::<%s>())]); System::<u32>::run(&mut s, &SeqPool, 1u32);" % T, acc(send)),
            ("parallelized systems holding the value", "parallelize::<u32, _>(vec![Sys(any::<%s>())]);" % T, acc(send)),
            ("sequential systems holding the value", "let mut s = goggles::seq!(Sys(any::<%s>()), Sys(0u32)); System::<u32>::run(&mut s, &SeqPool, 1u32);" % T, ACCEPT),
            ("pool join capturing the value", "let v: %s = any(); RayonPool.join(move || end(v), || ());" % T, acc(send)),
            ("pool join sharing the value", "let v: %s = any(); RayonPool.join(|| end(&v), || end(&v));" % T, acc(sync)),
            ("sequential pool join sharing the value", "let v: %s = any(); SeqPool.join(|| end(&v), || end(&v));" % T, acc(sync)),
            ("pool join returning the value", "end(RayonPool.join(|| any::<%s>(), || ()));" % T, acc(send)),
            ("parallel systems given the value by reference", "let v: %s = any(); let mut s = goggles::par!(Sys(1u32), Sys(0u32)); System::<&%s>::run(&mut s, &SeqPool, &v);" % (T, T), acc(sync)),
        ]
        for name, code, want in wops:
            if want == REJECT and not send and re.match("(moving|sharing) (Read|Write)", name):
                continue  # no container takes such a value
            if want:
                yield Prog("threads", "%s with a %s value" % (name, cl), "let mut w: World = mk(); let mut r: ResourceSet = mk(); let mut c: AnyComponentSet = mk(); let mut k: AnyCloneComponentSet = mk(); " + code, want, why, 2, "%s|%s" % (name, cl))
    for ty in ["World", "ResourceSet", "AnyComponentSet", "AnyCloneComponentSet", "Allocator", "Entities<'static>", "Entity", "RwResources<u32>", "WorldResources", "ResourceConflict", "WrongGeneration", "RayonPool", "SeqPool", "LiveBitSet<'static>"]:
        for b in ["send", "sync"]:
            yield Prog("threads", "%s is %s" % (ty, b), "is_%s::<%s>();" % (b, ty), ACCEPT, "holds only values that may cross threads", 1, ty + "|" + b)


EXTRA = r'''
pub struct Sys<T>(pub T);
impl<T, Args> System<Args> for Sys<T> {
    type Resources = RwResources<u8>;
    type Pool = SeqPool;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<RwResources<u8>, ResourceConflict> { loop {} }
    fn run(&mut self, _: &SeqPool, _: Args) -> Result<(), std::convert::Infallible> { loop {} }
}
#[derive(Clone, Default)]
pub struct CopyableStorage;
impl RawStorage for CopyableStorage {
    type Item = V;
    unsafe fn get(&self, _: u32) -> &V { loop {} }
    unsafe fn get_mut(&self, _: u32) -> &mut V { loop {} }
    unsafe fn insert(&mut self, _: u32, _: V) { loop {} }
    unsafe fn remove(&mut self, _: u32) -> V { loop {} }
}
impl TrackedStorage for CopyableStorage {
    fn set_track_modified(&mut self, _: bool) { loop {} }
    fn tracking_modified(&self) -> bool { loop {} }
    fn mark_modified(&self, _: u32) { loop {} }
    fn modified_indexes(&self) -> &ModifiedBitSet { loop {} }
    fn clear_modified(&mut self) { loop {} }
}
'''


# ---- what needs `unsafe` or is private --------------------------------------------------------------
def private_programs():
    ms = "let mut s: MaskedStorage<VecStorage<V>> = mk(); "
    rs = "let mut s: DenseVecStorage<V> = mk(); "
    for name, body in [
        ("raw get", ms + "end(s.raw_storage().get(0));"), ("raw get_mut", ms + "end(s.raw_storage().get_mut(0));"),
        ("raw insert", rs + "s.insert(0, any());"), ("raw remove", rs + "end(s.remove(0));"),
        ("raw get of Flagged", "let s: Flagged<HashMapStorage<V>> = mk(); end(s.get(0));"), ("raw get_mut of Flagged", "let s: Flagged<HashMapStorage<V>> = mk(); end(s.get_mut(0));"),
        ("raw get of HashMapStorage", "let s: HashMapStorage<V> = mk(); end(s.get(0));"), ("raw get_mut of HashMapStorage", "let s: HashMapStorage<V> = mk(); end(s.get_mut(0));"),
        ("Join::get of a storage", ms + "let (m, a) = (&mut s).open(); end(<&mut MaskedStorage<VecStorage<V>> as Join>::get(&a, 0));"),
        ("Join::get of guards", ms + "let (m, a) = s.guard().open(); end(<GuardedJoin<VecStorage<V>> as Join>::get(&a, 0));"),
        ("Join::get of entities", "let al: Allocator = mk(); let (m, a) = (&al).open(); end(<&Allocator as Join>::get(&a, 0));"),
        ("building a guard", "let v: VecStorage<V> = mk(); end(GuardedElement { storage: &v, index: 0 });"),
        ("building a masked storage", "let v: VecStorage<V> = mk(); end(MaskedStorage { mask: BitSet::new(), storage: v });"),
        ("the mask of a masked storage", ms + "s.mask = BitSet::new();"), ("the storage of a masked storage", ms + "s.storage = any();"),
        ("replacing the raw storage of a masked storage", ms + "*s.raw_storage_mut() = any(); end(s.get(0));"),
        ("swapping the raw storages of two masked storages", ms + "let mut t: MaskedStorage<VecStorage<V>> = mk(); std::mem::swap(s.raw_storage_mut(), t.raw_storage_mut()); end(s.get(0));"),
        ("an iterator over other indexes", ms + "let b: BitSet = mk(); let (_, a) = (&mut s).open(); end(goggles::join::JoinIter::<&mut MaskedStorage<VecStorage<V>>>((&b).iter(), a, std::marker::PhantomData));"),
        ("a parallel iterator over other indexes", ms + "let b: BitSet = mk(); let (_, a) = (&mut s).open(); end(goggles::par_join::JoinParIter::<&mut MaskedStorage<VecStorage<V>>>(&b, a));"),
        ("the indexes of an iterator", ms + "let b: BitSet = mk(); let t: MaskedStorage<VecStorage<V>> = mk(); let mut i = (&s).join(); i.0 = (&t).join().0;"),
        ("the index of a guard", ms + "if let Some(mut g) = s.guard().join().next() { g.index = 7; }"),
    ] + [
        ("copying %s of a storage that can be copied" % n, "is_clone::<%s>();" % t) for n, t in [
            ("a guard", "GuardedElement<'static, CopyableStorage>"), ("all guards", "GuardedJoin<'static, CopyableStorage>"),
            ("exclusive modified elements", "ModifiedJoinMut<'static, CopyableStorage>"),
            ("an exclusive iterator", "goggles::join::JoinIter<&'static mut MaskedStorage<CopyableStorage>>"),
            ("an iterator of guards", "goggles::join::JoinIter<GuardedJoin<'static, CopyableStorage>>"),
            ("an exclusive parallel iterator", "goggles::par_join::JoinParIter<&'static mut MaskedStorage<CopyableStorage>>"),
            ("a parallel iterator of guards", "goggles::par_join::JoinParIter<GuardedJoin<'static, CopyableStorage>>"),
        ]
    ] + [
        ("the inside of MakeSync", "let m: MakeSync<Cell<u32>> = mk(); end(&m.0);"),
        ("the inside of a guarded join", ms + "end(s.guard().0);"),
        ("the inside of VecStorage", "let v: VecStorage<V> = mk(); end(v.0);"),
        ("the inside of DenseVecStorage", "let v: DenseVecStorage<V> = mk(); end(v.values);"),
        ("the storage of a resource access", "let w: World = mk(); let a = w.read_component::<V>(); end(a.storage);"),
        ("the storages of a world", "let w: World = mk(); end(w.components);"), ("the allocator of a world", "let mut w: World = mk(); end(&mut w.allocator);"),
        ("the map of a resource set", "let r: ResourceSet = mk(); end(r.resources);"), ("the map of a component set", "let r: AnyComponentSet = mk(); end(r.components);"),
        ("an entity out of nothing", "end(Entity { index: 0, generation: any() });"),
    ]:
        yield Prog("unsafe", name, body, REJECT, "would reach values without the checks that protect them", 1, "unsafe")
    for name, body in [
        ("raw get", ms + "end(unsafe { s.raw_storage().get(0) });"), ("raw get_mut", ms + "end(unsafe { s.raw_storage().get_mut(0) });"),
        ("raw insert", rs + "unsafe { s.insert(0, any()) };"), ("raw remove", rs + "end(unsafe { s.remove(0) });"),
        ("Join::get of a storage", ms + "let (m, a) = (&mut s).open(); end(unsafe { <&mut MaskedStorage<VecStorage<V>> as Join>::get(&a, 0) });"),
        ("Join::get of guards", ms + "let (m, a) = s.guard().open(); end(unsafe { <GuardedJoin<VecStorage<V>> as Join>::get(&a, 0) });"),
        ("changing a raw storage", ms + "end(unsafe { s.raw_storage_mut() });"),
        ("raw slices", rs + "end(s.as_slice().len()); end(s.as_mut_slice().len());"),
        ("reading a raw storage", ms + "end(s.raw_storage());"),
    ]:
        yield Prog("unsafe", name + " in an unsafe block or by shared reference", body, ACCEPT, "the caller takes responsibility, or only reads", 1, "unsafe|ok")


SPACES = {
    "references": "every sequence of operations on every receiver (storages, accesses, guards, entities, containers, worlds, dynamic sets), every result kept until every later step; accepted exactly if no operation needs exclusive access to what is still referenced, or any access to what is exclusively referenced or gone",
    "nested": "a reference obtained through a guard, iterator, access or borrow (each kept until before or after a further operation) and then every operation on the root receiver",
    "lifetimes": "every reference-producing operation and chain of operations, used inside and outside the scope of what it refers to; pairs of references to one and to different elements",
    "threads": "four classes of values (may be moved and/or shared) in every storage, carried to or shared with another thread by every type of the interface, parallel joins, pools and systems",
    "unsafe": "unchecked accesses and private parts, without and with an unsafe block",
}


def programs(thorough):
    pick = (lambda o: [x for x in o if True]) if thorough else representatives
    out = []
    if thorough:
        # all pairs, and all triples of representatives with four of every kind
        def pick(ops):
            o2, n = [], {}
            for o in ops:
                n[o[2]] = n.get(o[2], 0) + 1
                if n[o[2]] <= (5 if o[2] in "SM" else 2):
                    o2.append(o)
            return o2
    out += borrow_programs(3, pick)
    out += nested_programs()
    out += outlive_programs()
    out += thread_programs()
    out += private_programs()
    return out


# ---- compiling ---------------------------------------------------------------------------------------
def compile_batch(progs, path, one=False):
    """Indices (into progs) of the programs with an error -> (code, message)."""
    src, spans, line = [HEADER, EXTRA], [], HEADER.count("\n") + EXTRA.count("\n") + 3
    src = HEADER + "\n" + EXTRA + "\n"
    line = src.count("\n") + 1
    parts = [src]
    for i, p in enumerate(progs):
        t = "pub fn p%d() {\n%s\n}\n" % (i, p.body)
        n = t.count("\n")
        spans.append((line, line + n - 1))
        line += n
        parts.append(t)
    with open(path, "w") as f:
        f.write("".join(parts))
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-o", path + ".rmeta",
                        "--error-format=json", "--cap-lints", "allow", "-L", "dependency=" + os.path.join(REL, "deps"),
                        "--extern", "client=" + os.path.join(REL, "libclient.rlib"), path], capture_output=True, text=True)
    bad, stray = {}, []
    import bisect
    starts = [s for s, _ in spans]
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            stray.append(l)
            continue
        if m.get("level") != "error":
            continue
        code = (m.get("code") or {}).get("code") or ""
        hit = False
        for s in m["spans"]:
            if s["file_name"] == path and s["is_primary"]:
                k = bisect.bisect_right(starts, s["line_start"]) - 1
                if k >= 0 and s["line_start"] <= spans[k][1]:
                    bad.setdefault(k, (code, m["message"]))
                    hit = True
        if not hit and not m["message"].startswith(("aborting due to", "could not compile")):
            # an error in library code because of a client's use (e.g. a macro)
            for s in m["spans"]:
                if s["file_name"] == path:
                    k = bisect.bisect_right(starts, s["line_start"]) - 1
                    if k >= 0:
                        bad.setdefault(k, (code, m["message"]))
                        hit = True
            if not hit:
                stray.append(m["message"])
    for f in (path, path + ".rmeta"):
        try:
            os.unlink(f)
        except OSError:
            pass
    if r.returncode != 0 and not bad or r.returncode == 0 and bad or stray:
        raise RuntimeError("compiler: status %s, %s" % (r.returncode, stray[:3]))
    return bad


BORROWCK = {"E0499", "E0502", "E0505", "E0506", "E0597", "E0515", "E0716", "E0382", "E0503", "E0373", "E0713", "E0521", "E0384", "E0594", "E0596", ""}


def verdicts(progs, tmp):
    """The compiler's verdict on every program."""
    # borrow errors are only found in a crate without type errors: split, and drop the programs with
    # type errors until only borrow errors remain
    res = {}
    chunks = [list(range(i, min(i + 1500, len(progs)))) for i in range(0, len(progs), 1500)]

    def go(job):
        n, idx = job
        left = idx
        for _ in range(12):
            bad = compile_batch([progs[i] for i in left], os.path.join(tmp, "b%d.rs" % n))
            hard = [k for k, (c, _) in bad.items() if c not in BORROWCK]
            for k in hard:
                res[left[k]] = (REJECT, "%s %s" % bad[k])
            if not hard:
                for k, i in enumerate(left):
                    res[i] = (REJECT, "%s %s" % bad[k]) if k in bad else (ACCEPT, "")
                return
            left = [i for k, i in enumerate(left) if k not in set(hard)]
            if not left:
                return
        raise RuntimeError("type errors kept appearing")

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, enumerate(chunks)))
    return res


def alone(p, tmp):
    bad = compile_batch([p], os.path.join(tmp, "alone.rs"))
    return (REJECT, "%s %s" % bad[0]) if bad else (ACCEPT, "")


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    import fcntl
    with open(os.path.join(HC, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=HC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("ERROR: building goggles for client programs failed")
        sys.exit(2)


def violation(p, got):
    return {
        "label": "T01/" + p.space, "choices": [json.dumps(p.name)],
        "msg": "program %s is %s but must be %s: %s" % (p.name, got[0], p.want, p.why),
        "trace": ["model: " + p.why, "compiler: %s %s" % got] + p.body.splitlines(),
    }


def run(thorough, tmp):
    build()
    t0 = time.time()
    progs = programs(thorough)
    spaces, viol = [], None
    for sp, rule in SPACES.items():
        mine = [p for p in progs if p.space == sp]
        t1 = time.time()
        res = verdicts(mine, tmp)
        for i, p in enumerate(mine):
            if res[i][0] != p.want and not viol:
                got = alone(p, tmp)
                if got[0] != p.want:
                    viol = violation(p, got)
        n = len(mine)
        spaces.append({
            "label": "T01/" + sp, "rule": rule, "executions": n, "redundant": 0, "states_visited": sum(p.steps for p in mine),
            "distinct_states": len({p.state for p in mine}), "transitions": sum(p.steps for p in mine),
            "outcomes": len({res[i] for i in range(n)}), "max_depth": max(p.steps for p in mine), "complete": True, "wall_s": round(time.time() - t1, 2),
            "samples": ["%s -> %s" % (mine[k].name, res[k][0]) for k in range(0, n, max(1, n // 3))][:3],
        })
        print("  T01/%-20s programs %6d accepted %6d rejected %6d %.1fs" % (sp, n, sum(r[0] == ACCEPT for r in res.values()), sum(r[0] == REJECT for r in res.values()), time.time() - t1))
        if viol:
            break
    return {"spaces": spaces, "violation": viol}


def replay(path):
    import tempfile
    build()
    with open(path) as f:
        label = f.readline().strip()
        name = json.loads(f.readline())
    for p in programs(True):
        if p.name == name and "T01/" + p.space == label:
            with tempfile.TemporaryDirectory(prefix="gogmc-") as tmp:
                got = alone(p, tmp)
            print("%s\n%s\nmust be %s (%s); compiler: %s %s" % (name, p.body, p.want, p.why, got[0], got[1]))
            return 0 if got[0] == p.want else 1
    print("no such program")
    return 2
