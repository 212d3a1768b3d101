//! R01: borrows of a resource container from several threads, in every interleaving.
use crate::util::*;
use goggles::resource_set::{Read, ResourceSet, Write};
use goggles::storage::VecStorage;
use goggles::world::{ReadComponent, ReadResource, World, WriteComponent, WriteResource};
use goggles::world_common::Component;
use mcx::*;
use std::cell::RefCell;

pub struct A(pub ModelCell<i64>);
pub struct B(pub ModelCell<i64>);
impl Component for A {
    type Storage = VecStorage<A>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    ReadA,
    WriteA,
    ReadB,
    WriteB,
    /// shared twice at the same time by one thread
    ReadA2,
    /// both through one fetch; a conflict on the second releases the first
    FetchAB,
    /// unwinds while holding the exclusive borrow
    PanicA,
    // worlds only: the component A
    ReadCompA,
    WriteCompA,
}
use Op::*;
struct Run {
    /// what is held right now, by (slot): shared count, exclusive count
    held: RefCell<[(i32, i32); 3]>,
    err: RefCell<Option<String>>,
    /// successful writes per slot
    done: RefCell<[i64; 3]>,
    refused: RefCell<u32>,
}
impl Run {
    fn enter(&self, s: usize, w: bool) {
        let mut h = self.held.borrow_mut();
        if h[s].1 > 0 || w && h[s].0 > 0 {
            self.err.borrow_mut().get_or_insert(format!("two conflicting borrows of {} coexist", ["resource A", "resource B", "component A"][s]));
        }
        if w {
            h[s].1 += 1
        } else {
            h[s].0 += 1
        }
    }
    fn leave(&self, s: usize, w: bool) {
        let mut h = self.held.borrow_mut();
        if w {
            h[s].1 -= 1
        } else {
            h[s].0 -= 1
        }
    }
}
/// Reads or writes a held value for a while.
fn shared(r: &Run, s: usize, c: &ModelCell<i64>) {
    r.enter(s, false);
    c.read(|v| *v);
    r.leave(s, false);
}
fn unique(r: &Run, s: usize, c: &mut ModelCell<i64>) {
    r.enter(s, true);
    c.write(|v| *v += 1);
    r.done.borrow_mut()[s] += 1;
    r.leave(s, true);
}
trait Src {
    fn go(&self, r: &Run, o: Op);
    fn end(&mut self) -> [i64; 3];
    /// everything can be borrowed exclusively and shared again
    fn idle(&self) -> Res;
}
impl Src for ResourceSet {
    fn go(&self, r: &Run, o: Op) {
        match o {
            ReadA => shared(r, 0, &self.borrow::<A>().0),
            WriteA => unique(r, 0, &mut self.borrow_mut::<A>().0),
            ReadB => shared(r, 1, &self.fetch::<Read<B>>().0),
            WriteB => unique(r, 1, &mut self.fetch::<Write<B>>().0),
            ReadA2 => {
                let x = self.borrow::<A>();
                let y = self.borrow::<A>();
                drop(x);
                shared(r, 0, &y.0);
            }
            FetchAB => {
                let (a, mut b) = self.fetch::<(Read<A>, Write<B>)>();
                shared(r, 0, &a.0);
                unique(r, 1, &mut b.0);
            }
            PanicA => {
                let mut a = self.borrow_mut::<A>();
                unique(r, 0, &mut a.0);
                panic!("user panic");
            }
            _ => {}
        }
    }
    fn end(&mut self) -> [i64; 3] {
        [*self.get_mut::<A>().0.peek(), *self.get_mut::<B>().0.peek(), 0]
    }
    fn idle(&self) -> Res {
        for _ in 0..2 {
            ensure!(catch(|| drop(self.borrow_mut::<A>())).is_ok() && catch(|| drop(self.borrow_mut::<B>())).is_ok(), "still borrowed after every borrow ended");
            ensure!(catch(|| drop((self.borrow::<A>(), self.borrow::<A>()))).is_ok(), "not readable after every borrow ended");
        }
        Ok(())
    }
}
struct Wd(World, goggles::entity::Entity);
impl Src for Wd {
    fn go(&self, r: &Run, o: Op) {
        let w = &self.0;
        match o {
            ReadA => shared(r, 0, &w.read_resource::<A>().0),
            WriteA => unique(r, 0, &mut w.write_resource::<A>().0),
            ReadB => shared(r, 1, &w.fetch::<ReadResource<B>>().0),
            WriteB => unique(r, 1, &mut w.fetch::<WriteResource<B>>().0),
            ReadA2 => {
                let x = w.read_resource::<A>();
                let y = w.read_resource::<A>();
                drop(x);
                shared(r, 0, &y.0);
            }
            FetchAB => {
                let (a, mut b) = w.fetch::<(ReadComponent<A>, WriteResource<B>)>();
                shared(r, 2, &a.get(self.1).unwrap().0);
                unique(r, 1, &mut b.0);
            }
            PanicA => {
                let mut a = w.write_resource::<A>();
                unique(r, 0, &mut a.0);
                panic!("user panic");
            }
            ReadCompA => shared(r, 2, &w.read_component::<A>().get(self.1).unwrap().0),
            WriteCompA => unique(r, 2, &mut w.fetch::<WriteComponent<A>>().get_mut(self.1).unwrap().0),
        }
    }
    fn end(&mut self) -> [i64; 3] {
        let e = self.1;
        [
            *self.0.get_resource_mut::<A>().0.peek(),
            *self.0.get_resource_mut::<B>().0.peek(),
            *self.0.get_component_mut::<A>().get(e).unwrap().0.peek(),
        ]
    }
    fn idle(&self) -> Res {
        for _ in 0..2 {
            let w = &self.0;
            ensure!(catch(|| drop((w.write_resource::<A>(), w.write_resource::<B>(), w.write_component::<A>()))).is_ok(), "still borrowed after every borrow ended");
            ensure!(catch(|| drop((w.read_resource::<A>(), w.read_resource::<A>(), w.read_component::<A>()))).is_ok(), "not readable after every borrow ended");
        }
        Ok(())
    }
}
/// (shared slots, exclusive slots) a thread's operation may hold
fn touches(o: Op, world: bool) -> (u8, u8) {
    match o {
        ReadA | ReadA2 => (1, 0),
        WriteA | PanicA => (0, 1),
        ReadB => (2, 0),
        WriteB => (0, 2),
        FetchAB => (if world { 4 } else { 1 }, 2),
        ReadCompA => (4, 0),
        WriteCompA => (0, 4),
    }
}
fn go(mut s: Box<dyn Src>, world: bool, progs: &[Vec<Op>]) -> Res {
    let r = Run { held: Default::default(), err: Default::default(), done: Default::default(), refused: Default::default() };
    {
        let sh = Share((&s, &r));
        let sh = &sh;
        threads(
            progs
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    Box::new(move || {
                        let (s, r) = (&sh.0 .0, sh.0 .1);
                        for o in p {
                            let ok = catch(|| s.go(r, *o));
                            note(|| format!("t{i}: {o:?} -> {ok:?}"));
                            let refused = ok.as_ref().err().map_or(false, |m| m != "user panic");
                            *r.refused.borrow_mut() += refused as u32;
                            // a borrow is refused only if somebody else's may conflict with it
                            let (rd, wr) = touches(*o, world);
                            let possible = progs.iter().enumerate().any(|(j, q)| {
                                j != i && q.iter().any(|x| {
                                    let (a, b) = touches(*x, world);
                                    wr & (a | b) != 0 || b & rd != 0
                                })
                            });
                            if refused && !possible {
                                r.err.borrow_mut().get_or_insert(format!("{o:?} refused although nothing conflicts: {ok:?}"));
                            }
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        )?;
    }
    if redundant() {
        return Ok(());
    }
    if let Some(e) = r.err.borrow().as_ref() {
        return Err(e.clone());
    }
    s.idle()?;
    ensure_eq!(s.end(), *r.done.borrow(), "values after {:?} successful writes", r.done.borrow());
    outcome(fp(&(world, progs, *r.done.borrow(), *r.refused.borrow())));
    state(fp(&(world, progs)));
    Ok(())
}
fn mk(world: bool) -> Box<dyn Src> {
    if world {
        let mut w = World::new();
        w.insert_resource(A(ModelCell::new(0)));
        w.insert_resource(B(ModelCell::new(0)));
        w.insert_component::<A>();
        let e = w.create_entity();
        w.get_component_mut::<A>().insert(e, A(ModelCell::new(0))).ok().unwrap();
        Box::new(Wd(w, e))
    } else {
        let mut s = ResourceSet::new();
        s.insert(A(ModelCell::new(0)));
        s.insert(B(ModelCell::new(0)));
        Box::new(s)
    }
}
pub fn run(c: &mut Ctx) {
    static RS: [Op; 7] = [ReadA, WriteA, ReadB, WriteB, ReadA2, FetchAB, PanicA];
    static WS: [Op; 9] = [ReadA, WriteA, ReadB, WriteB, ReadA2, FetchAB, PanicA, ReadCompA, WriteCompA];
    fn body(n: usize, len: usize, ops: &'static [Op], wops: &'static [Op]) -> Res {
        let world = choose(2) == 1;
        let ops = if world { wops } else { ops };
        let mut ids = vec![];
        let progs: Vec<Vec<Op>> = (0..n)
            .map(|_| {
                let k: Vec<usize> = (0..len).map(|_| choose(ops.len())).collect();
                let p = k.iter().map(|k| ops[*k]).collect();
                ids.push(k);
                p
            })
            .collect();
        if ids.windows(2).any(|w| w[0] > w[1]) {
            return Ok(());
        }
        note(|| format!("{} {progs:?}", if world { "World" } else { "ResourceSet" }));
        step();
        go(mk(world), world, &progs)
    }
    const RULE: &str = "borrows of two resources and (worlds) a component of the same type by several threads: shared, exclusive, doubly shared, tuple fetches, unwinding while borrowed; every interleaving of the borrow flags and of the accesses to the values; conflicting borrows never coexist, refusals only when something may conflict, everything available again afterwards";
    c.explore("2x1", RULE, || body(2, 1, &RS, &WS));
    c.explore("2x2", RULE, || body(2, 2, &RS, &WS));
    static RC: [Op; 4] = [ReadA, WriteA, FetchAB, PanicA];
    static WC: [Op; 4] = [ReadA, WriteA, WriteCompA, FetchAB];
    c.explore("3x1", RULE, || body(3, 1, &RC, &WC));
}
