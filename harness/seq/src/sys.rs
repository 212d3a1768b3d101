//! Y01, Y02, Y03: every nesting of systems up to a size.  Compiled into both explorers: `seq` runs
//! parallel groups in every order of their halves, `conc` in every interleaving through RayonPool.
use goggles::resources::{ResourceConflict, Resources, RwResources};
use goggles::system::{parallelize, Error, Par, ParList, Pool, Seq, SeqList, System};
use mcx::*;
use std::cell::RefCell;

pub trait ThePool: Pool + Sync + 'static {
    const NAME: &'static str;
    /// members of a parallel group may overlap
    const OVERLAP: bool;
    fn make() -> Self;
    fn addr(&self) -> usize {
        self as *const Self as *const u8 as usize
    }
}
type R = RwResources<u8>;
pub type Args = (u32, &'static str);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Errs(pub Vec<usize>);
impl Error for Errs {
    fn combine(mut self, o: Errs) -> Errs {
        self.0.extend(o.0);
        self
    }
}
type Sys<P> = Box<dyn System<Args, Resources = R, Pool = P, Error = Errs> + Send>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Start(usize),
    End(usize),
}
thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static POOL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    /// what the systems do in this run: those that fail, the one that panics
    static PLAN: std::cell::Cell<Option<(u64, usize)>> = const { std::cell::Cell::new(None) };
}
const ARGS: Args = (7, "args");

/// Access of a leaf: None is an internal conflict.
pub type Decl = Option<(u8, u8)>;
struct Leaf<P> {
    id: usize,
    fails: bool,
    decl: Decl,
    /// run count of this very object
    n: u32,
    /// two steps, so that overlaps are visible
    points: bool,
    p: std::marker::PhantomData<fn(P)>,
}
impl<P: ThePool> System<Args> for Leaf<P> {
    type Resources = R;
    type Pool = P;
    type Error = Errs;
    fn check_resources(&self) -> Result<R, ResourceConflict> {
        match self.decl {
            None => Err(ResourceConflict::conflict_in::<Self>()),
            Some((r, w)) => Ok(RwResources::from_iters((0..8).filter(move |i| r >> i & 1 == 1), (0..8).filter(move |i| w >> i & 1 == 1))),
        }
    }
    fn run(&mut self, pool: &P, args: Args) -> Result<(), Errs> {
        if args != ARGS {
            BAD.with(|b| *b.borrow_mut() = Some(format!("system {} got arguments {args:?}", self.id)));
        }
        if pool.addr() != POOL.with(|p| p.get()) {
            BAD.with(|b| *b.borrow_mut() = Some(format!("system {} got another pool", self.id)));
        }
        if self.points {
            point(0x5157_0000, Kind::Write, !0);
        }
        LOG.with(|l| l.borrow_mut().push(Ev::Start(self.id)));
        if self.points {
            point(0x5157_0000, Kind::Write, !0);
        }
        LOG.with(|l| l.borrow_mut().push(Ev::End(self.id)));
        self.n += 1;
        let plan = PLAN.with(|p| p.get());
        if plan.is_some_and(|(_, p)| p == self.id) {
            panic!("system {} panics", self.id);
        }
        if plan.map_or(self.fails, |(f, _)| f >> self.id & 1 == 1) {
            Err(Errs(vec![self.id]))
        } else {
            Ok(())
        }
    }
}

/// A composition.
#[derive(Clone, Debug)]
pub enum T {
    Leaf(usize),
    Par(Vec<T>),
    Seq(Vec<T>),
    ParL(Vec<T>),
    SeqL(Vec<T>),
}
impl T {
    pub fn parallel(&self) -> bool {
        matches!(self, T::Par(_) | T::ParL(_))
    }
    pub fn kids(&self) -> &[T] {
        match self {
            T::Leaf(_) => &[],
            T::Par(k) | T::Seq(k) | T::ParL(k) | T::SeqL(k) => k,
        }
    }
    pub fn show(&self) -> String {
        let n = match self {
            T::Leaf(i) => return i.to_string(),
            T::Par(_) => "par!",
            T::Seq(_) => "seq!",
            T::ParL(_) => "ParList",
            T::SeqL(_) => "SeqList",
        };
        format!("{n}({})", self.kids().iter().map(|k| k.show()).collect::<Vec<_>>().join(", "))
    }
}
/// Every tree of size at most `budget`: a system or an empty list has size 1, a one-member list one
/// more than its member, any other group the sum of its members.
fn tree(depth: usize, budget: &mut usize, next: &mut usize) -> T {
    // (kind, members)
    let mut menu: Vec<(usize, usize)> = vec![(0, 0)];
    if depth > 0 {
        for n in 2..=(*budget).min(5) {
            menu.extend([(1, n), (2, n), (3, n), (4, n)]);
        }
        menu.extend([(3, 0), (4, 0)]);
        if *budget >= 2 {
            menu.extend([(3, 1), (4, 1)]);
        }
    }
    let (k, n) = *pick(&menu);
    if n == 0 || n == 1 {
        *budget -= 1;
    }
    if k == 0 {
        *next += 1;
        return T::Leaf(*next - 1);
    }
    let mut kids = vec![];
    for i in 0..n {
        let keep = n - i - 1;
        *budget -= keep;
        kids.push(tree(depth - 1, budget, next));
        *budget += keep;
    }
    match k {
        1 => T::Par(kids),
        2 => T::Seq(kids),
        3 => T::ParL(kids),
        _ => T::SeqL(kids),
    }
}
pub fn any_tree(depth: usize, size: usize) -> (T, usize) {
    let (mut b, mut n) = (size, 0);
    let t = tree(depth, &mut b, &mut n);
    (t, n)
}
pub type DynSys<A, R, P, E> = Box<dyn System<A, Resources = R, Pool = P, Error = E> + Send>;
pub fn build<A, R, P, E>(t: &T, leaf: &dyn Fn(usize) -> DynSys<A, R, P, E>) -> DynSys<A, R, P, E>
where
    A: Copy + Send + 'static,
    R: Resources + 'static,
    P: Pool + Sync + 'static,
    E: Error + Send + 'static,
{
    let mut k: Vec<Option<DynSys<A, R, P, E>>> = t.kids().iter().map(|k| Some(build(k, leaf))).collect();
    let n = k.len();
    // member i, once: a composition that evaluates an argument twice fails
    let mut x = |i: usize| k[i].take().expect("an argument of par! or seq! was evaluated twice");
    match t {
        T::Leaf(i) => leaf(*i),
        T::Par(_) => match n {
            2 => Box::new(goggles::par!(x(0), x(1))),
            3 => Box::new(goggles::par!(x(0), x(1), x(2))),
            4 => Box::new(goggles::par!(x(0), x(1), x(2), x(3),)),
            5 => Box::new(Par::new(x(0), x(1)).with(x(2)).with(x(3)).with(x(4))),
            9 => Box::new(goggles::par!(x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8))),
            _ => Box::new(goggles::par!(x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15), x(16))),
        },
        T::Seq(_) => match n {
            2 => Box::new(goggles::seq!(x(0), x(1))),
            3 => Box::new(goggles::seq!(x(0), x(1), x(2))),
            4 => Box::new(goggles::seq!(x(0), x(1), x(2), x(3),)),
            5 => Box::new(Seq::new(x(0), x(1)).with(x(2)).with(x(3)).with(x(4))),
            9 => Box::new(goggles::seq!(x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8))),
            _ => Box::new(goggles::seq!(x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15), x(16))),
        },
        T::ParL(_) => Box::new(ParList((0..n).map(x).collect())),
        T::SeqL(_) => Box::new(SeqList((0..n).map(x).collect())),
    }
}
fn leaf<P: ThePool>(id: usize, fails: bool, decl: Decl, points: bool) -> Sys<P> {
    Box::new(Leaf { id, fails, decl, n: 0, points, p: Default::default() })
}

/// Leaves that run, in member order, and the errors.
fn expect(t: &T, fails: u64, ran: &mut Vec<usize>) -> Vec<usize> {
    match t {
        T::Leaf(i) => {
            ran.push(*i);
            if fails >> i & 1 == 1 {
                vec![*i]
            } else {
                vec![]
            }
        }
        _ => {
            let mut e = vec![];
            for k in t.kids() {
                let x = expect(k, fails, ran);
                let bad = !x.is_empty();
                e.extend(x);
                if bad && !t.parallel() {
                    break;
                }
            }
            e
        }
    }
}
pub fn leaves(t: &T, out: &mut Vec<usize>) {
    match t {
        T::Leaf(i) => out.push(*i),
        _ => t.kids().iter().for_each(|k| leaves(k, out)),
    }
}
/// Pairs (a, b): a must have ended before b starts.
fn before(t: &T, out: &mut Vec<(usize, usize)>) {
    for (i, k) in t.kids().iter().enumerate() {
        before(k, out);
        if !t.parallel() {
            let mut a = vec![];
            leaves(k, &mut a);
            for l in &t.kids()[i + 1..] {
                let mut b = vec![];
                leaves(l, &mut b);
                out.extend(a.iter().flat_map(|x| b.iter().map(move |y| (*x, *y))));
            }
        }
    }
}
fn check_log(ran: &[usize], order: &[(usize, usize)], what: &str) -> Res {
    if let Some(b) = BAD.with(|b| b.borrow_mut().take()) {
        return Err(b);
    }
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let at = |e: Ev| log.iter().position(|x| *x == e);
    let mut started: Vec<usize> = log.iter().filter_map(|e| if let Ev::Start(i) = e { Some(*i) } else { None }).collect();
    started.sort();
    let mut exp = ran.to_vec();
    exp.sort();
    ensure_eq!(started, exp, "systems that ran, {what}");
    ensure!(log.len() == 2 * ran.len(), "{what}: returned before every system had ended: {log:?}");
    for &(a, b) in order {
        if let (Some(x), Some(y)) = (at(Ev::End(a)), at(Ev::Start(b))) {
            ensure!(x < y, "{what}: system {b} started before system {a} ended: {log:?}");
        }
    }
    outcome(fp(&format!("{log:?}")));
    Ok(())
}
fn run_one<P: ThePool>(s: &mut dyn System<Args, Resources = R, Pool = P, Error = Errs>, pool: &P) -> Result<Result<(), Errs>, String> {
    LOG.with(|l| l.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
    POOL.with(|p| p.set(pool.addr()));
    catch(|| s.run(pool, ARGS)).map_err(|m| format!("running panicked: {m}"))
}

/// (depth, leaves, runs)
pub fn y01<P: ThePool>(c: &mut Ctx, sizes: &[(usize, usize)]) {
    for &(d, n) in sizes {
        c.explore(
            &format!("run {d}/{n} {}", P::NAME),
            &format!("every nesting of par!, seq!, ParList, SeqList of depth <= {d} and size <= {n} (systems plus empty and one-member lists), every subset failing, {}; two runs of the same object; who ran, in which order, with which arguments, and the combined error", if P::OVERLAP { "every interleaving of the members' begin and end steps" } else { "every order the pool may run two halves in" }),
            move || {
                let (t, n) = any_tree(d, n);
                let fails = choose(1 << n) as u64;
                note(|| format!("{} failing {:?}", t.show(), (0..n).filter(|i| fails >> i & 1 == 1).collect::<Vec<_>>()));
                let pool = P::make();
                let mut s: Sys<P> = build(&t, &|i| leaf(i, fails >> i & 1 == 1, Some((0, 0)), P::OVERLAP));
                let (mut ran, mut ord) = (vec![], vec![]);
                let err = expect(&t, fails, &mut ran);
                before(&t, &mut ord);
                for k in 0..if P::OVERLAP { 1 } else { 2 } {
                    step();
                    let r = run_one(&mut *s, &pool)?;
                    if redundant() {
                        return Ok(());
                    }
                    check_log(&ran, &ord, &format!("run {k} of {}", t.show()))?;
                    let e = if err.is_empty() { Ok(()) } else { Err(Errs(err.clone())) };
                    ensure_eq!(r, e, "result of run {k} of {}", t.show());
                }
                state(fp(&(t.show(), fails)));
                Ok(())
            },
        );
    }
}

/// What happened in one run says nothing about the next one.
pub fn y01_again<P: ThePool>(c: &mut Ctx, sizes: &[(usize, usize)]) {
    for &(d, n) in sizes {
        c.explore(
            &format!("run again {d}/{n} {}", P::NAME),
            &format!("every nesting of par!, seq!, ParList, SeqList of depth <= {d} and size <= {n}; no, any one or any two systems fail or any one panics in a run, then no or any one system fails in the next run, then none does"),
            move || {
                let (t, n) = any_tree(d, n);
                let pool = P::make();
                let mut s: Sys<P> = build(&t, &|i| leaf(i, false, Some((0, 0)), false));
                let mut ord = vec![];
                before(&t, &mut ord);
                let boom = choose(n + 1);
                let mut first = 0u64;
                if boom == n {
                    let (a, b) = (choose(n + 1), choose(n + 1));
                    if a > b {
                        return Ok(());
                    }
                    first = [a, b].iter().filter(|i| **i < n).fold(0, |m, i| m | 1 << i);
                }
                let second = choose(n + 1);
                for (k, f) in [first, if second < n { 1 << second } else { 0 }, 0].into_iter().enumerate() {
                    let x = if k == 0 { boom } else { n };
                    note(|| format!("run {k} of {}: failing {:?}{}", t.show(), (0..n).filter(|i| f >> i & 1 == 1).collect::<Vec<_>>(), if x < n { format!(", system {x} panics") } else { String::new() }));
                    step();
                    PLAN.with(|p| p.set(Some((f, x))));
                    let r = run_one(&mut *s, &pool);
                    PLAN.with(|p| p.set(None));
                    let what = format!("run {k} of {}", t.show());
                    if x < n {
                        ensure!(r.is_err(), "{what}: the panic of system {x} did not reach the caller");
                        if let Some(b) = BAD.with(|b| b.borrow_mut().take()) {
                            return Err(b);
                        }
                        let ran: Vec<usize> = LOG.with(|l| std::mem::take(&mut *l.borrow_mut())).into_iter().filter_map(|e| if let Ev::End(i) = e { Some(i) } else { None }).collect();
                        for (i, y) in ran.iter().enumerate() {
                            ensure!(!ran[..i].contains(y), "{what}: system {y} ran twice");
                            ensure!(!ord.contains(&(x, *y)), "{what}: system {y} ran after system {x} of the same sequence panicked");
                        }
                        for (a, _) in ord.iter().filter(|(_, b)| *b == x) {
                            ensure!(ran.contains(a), "{what}: system {a} did not run before system {x}");
                        }
                        continue;
                    }
                    let mut ran = vec![];
                    let err = expect(&t, f, &mut ran);
                    let r = r?;
                    check_log(&ran, &ord, &what)?;
                    let e = if err.is_empty() { Ok(()) } else { Err(Errs(err)) };
                    ensure_eq!(r, e, "result of {what}");
                }
                state(fp(&(t.show(), boom, first, second)));
                Ok(())
            },
        );
    }
}

/// Long groups: par! and seq! of 9 and 17, lists of up to `max`.
fn long_group(max: usize) -> T {
    let k = choose(4);
    let n = if k < 2 { *pick(&[9usize, 17]) } else { choose(max + 1) };
    let kids = (0..n).map(T::Leaf).collect();
    match k {
        0 => T::Par(kids),
        1 => T::Seq(kids),
        2 => T::ParL(kids),
        _ => T::SeqL(kids),
    }
}
pub fn y01_long<P: ThePool>(c: &mut Ctx, max: usize) {
    c.explore(
        &format!("long groups {}", P::NAME),
        &format!("par! and seq! of 9 and 17 systems, ParList and SeqList of up to {max}; none, any one or any two systems failing; two runs of the same object"),
        move || {
            let t = long_group(max);
            let n = t.kids().len();
            let (a, b) = (choose(n + 1), choose(n + 1));
            if a > b {
                return Ok(());
            }
            let fails: u64 = [a, b].iter().filter(|i| **i < n).fold(0, |m, i| m | 1 << i);
            note(|| format!("{} failing {:?}", t.show(), (0..n).filter(|i| fails >> i & 1 == 1).collect::<Vec<_>>()));
            let pool = P::make();
            let mut s: Sys<P> = build(&t, &|i| leaf(i, fails >> i & 1 == 1, Some((0, 0)), false));
            let (mut ran, mut ord) = (vec![], vec![]);
            let err = expect(&t, fails, &mut ran);
            before(&t, &mut ord);
            for k in 0..2 {
                step();
                let r = run_one(&mut *s, &pool)?;
                check_log(&ran, &ord, &format!("run {k} of {}", t.show()))?;
                let e = if err.is_empty() { Ok(()) } else { Err(Errs(err.clone())) };
                ensure_eq!(r, e, "result of run {k} of {}", t.show());
            }
            state(fp(&(t.show(), fails)));
            Ok(())
        },
    );
}
pub fn y02_long<P: ThePool>(c: &mut Ctx, max: usize) {
    c.explore(
        "long groups",
        &format!("par! and seq! of 9 and 17 systems, ParList and SeqList of up to {max}; any two systems accessing one resource in any way, any one system having an internal conflict, the others each accessing a resource of their own or nothing"),
        move || {
            let t = long_group(max);
            let n = t.kids().len();
            let (a, b) = (choose(n + 1), choose(n + 1));
            if a > b {
                return Ok(());
            }
            let (x, y) = (choose(3), choose(3));
            // the others share only reads
            let mut ds: Vec<Decl> = (0..n).map(|_| Some((4, 0))).collect();
            const D: [Decl; 3] = [Some((1, 0)), Some((0, 1)), None];
            if b < n {
                ds[b] = D[y];
            }
            if a < n {
                ds[a] = D[x];
            }
            note(|| format!("{} declaring {ds:?}", t.show()));
            let s: Sys<P> = build(&t, &|i| leaf(i, false, ds[i], false));
            step();
            let exp = expect_check(&t, &ds);
            let got = s.check_resources();
            ensure!(got.is_ok() == exp.is_some(), "check of {} with {ds:?}: reports {}", t.show(), if got.is_ok() { "no conflict" } else { "a conflict" });
            if let (Ok(r), Some(e)) = (&got, exp) {
                same(r, e, &t.show())?;
            }
            state(fp(&(t.show(), &ds)));
            outcome(exp.is_some() as u64);
            Ok(())
        },
    );
}

fn conf(a: (u8, u8), b: (u8, u8)) -> bool {
    a.1 & (b.0 | b.1) != 0 || b.1 & (a.0 | a.1) != 0
}
fn uni(a: (u8, u8), b: (u8, u8)) -> (u8, u8) {
    (a.0 | b.0, a.1 | b.1)
}
fn expect_check(t: &T, d: &[Decl]) -> Option<(u8, u8)> {
    match t {
        T::Leaf(i) => d[*i],
        _ => {
            let mut u = (0, 0);
            for k in t.kids() {
                let x = expect_check(k, d)?;
                if t.parallel() && conf(u, x) {
                    return None;
                }
                u = uni(u, x);
            }
            Some(u)
        }
    }
}
fn same(r: &R, (rd, wr): (u8, u8), what: &str) -> Res {
    let m = |i: &mut dyn Iterator<Item = &u8>| i.fold(0u8, |a, x| a | 1 << x);
    let (gr, gw) = (m(&mut r.reads()), m(&mut r.writes()));
    ensure!(gw == wr && (gr | gw) == (rd | wr), "{what}: reported reads {gr:#b} writes {gw:#b}, declared reads {rd:#b} writes {wr:#b}");
    for i in 0..3u8 {
        for w in [false, true] {
            let o = if w { R::new().write(i) } else { R::new().read(i) };
            let e = conf((rd, wr), if w { (0, 1 << i) } else { (1 << i, 0) });
            ensure!(r.conflicts_with(&o) == e && o.conflicts_with(r) == e, "{what}: conflict of the reported accesses with a {} of {i}", if w { "write" } else { "read" });
        }
    }
    Ok(())
}
pub fn y02<P: ThePool>(c: &mut Ctx, sizes: &[(usize, usize, usize)]) {
    const D: [Decl; 9] = [Some((1, 0)), Some((0, 1)), None, Some((0, 2)), Some((0, 0)), Some((1, 2)), Some((2, 0)), Some((0, 3)), Some((1, 1))];
    for &(d, n, alpha) in sizes {
        c.explore(
            &format!("check {d}/{n}/{alpha}"),
            &format!("every nesting of par!, seq!, ParList, SeqList of depth <= {d} and size <= {n} (systems plus empty and one-member lists), each system declaring one of {:?} (reads, writes; None: an internal conflict); verdict and reported accesses against the definition; checking again gives the same", &D[..alpha]),
            move || {
                let (t, n) = any_tree(d, n);
                let ds: Vec<Decl> = (0..n).map(|_| D[choose(alpha)]).collect();
                note(|| format!("{} declaring {ds:?}", t.show()));
                LOG.with(|l| l.borrow_mut().clear());
                let s: Sys<P> = build(&t, &|i| leaf(i, false, ds[i], false));
                step();
                let exp = expect_check(&t, &ds);
                for k in 0..2 {
                    let got = s.check_resources();
                    ensure!(got.is_ok() == exp.is_some(), "check {k} of {} with {ds:?}: reports {}", t.show(), if got.is_ok() { "no conflict" } else { "a conflict" });
                    if let (Ok(r), Some(e)) = (&got, exp) {
                        same(r, e, &t.show())?;
                    }
                }
                ensure!(LOG.with(|l| l.borrow().is_empty()), "checking ran a system");
                state(fp(&(t.show(), &ds)));
                outcome(exp.is_some() as u64);
                Ok(())
            },
        );
    }
}

const D3: [Decl; 8] = [Some((1, 0)), Some((0, 1)), Some((0, 2)), None, Some((1, 2)), Some((0, 0)), Some((2, 0)), Some((0, 3))];
pub fn y03<P: ThePool>(c: &mut Ctx, n: usize, alpha: usize, failing: bool) {
    const D: [Decl; 8] = D3;
    c.explore(
        &format!("lists {n}/{alpha} {}", P::NAME),
        &format!("every list of up to {n} systems declaring one of {:?}{}: groups against the eager rule, check of the schedule, and a run in which {}", &D[..alpha], if failing { ", at most one failing" } else { "" }, if P::OVERLAP { "every interleaving of begin and end steps occurs" } else { "the pool uses every order" }),
        move || {
            let n = choose(n + 1);
            let ds: Vec<Decl> = (0..n).map(|_| D[choose(alpha)]).collect();
            let fail = if failing { choose(n + 1) } else { n };
            schedule::<P>(&ds, fail)
        },
    );
}
pub fn y03_long<P: ThePool>(c: &mut Ctx, max: usize) {
    c.explore(
        &format!("long lists {}", P::NAME),
        &format!("lists of 7..{max} systems reading one resource, of which any two instead declare any of {D3:?}; none or the first of those failing"),
        move || {
            let n = 7 + choose(max - 6);
            let (a, b) = (choose(n), choose(n));
            if a >= b {
                return Ok(());
            }
            let mut ds: Vec<Decl> = vec![Some((1, 0)); n];
            ds[a] = D3[choose(8)];
            ds[b] = D3[choose(8)];
            let fail = if choose(2) == 0 { n } else { a };
            schedule::<P>(&ds, fail)
        },
    );
}
/// The schedule made of systems with these accesses, one of which fails.
fn schedule<P: ThePool>(ds: &[Decl], fail: usize) -> Res {
    let n = ds.len();
            note(|| format!("systems declaring {ds:?}, failing: {:?}", (fail < n).then_some(fail)));
            // the rule
            let mut groups: Vec<Vec<usize>> = vec![];
            let mut open: Option<(u8, u8)> = None;
            for (i, d) in ds.iter().enumerate() {
                match d {
                    None => {
                        groups.push(vec![i]);
                        open = None;
                    }
                    Some(x) => match open {
                        Some(u) if !conf(u, *x) => {
                            groups.last_mut().unwrap().push(i);
                            open = Some(uni(u, *x));
                        }
                        _ => {
                            groups.push(vec![i]);
                            open = Some(*x);
                        }
                    },
                }
            }
            step();
            LOG.with(|l| l.borrow_mut().clear());
            let systems: Vec<Sys<P>> = ds.iter().enumerate().map(|(i, d)| leaf(i, i == fail, *d, P::OVERLAP)).collect();
            let mut s = catch(|| parallelize::<Args, _>(systems)).map_err(|m| format!("parallelize panicked: {m}"))?;
            ensure!(LOG.with(|l| l.borrow().is_empty()), "parallelize ran a system");
            let chk = System::<Args>::check_resources(&s);
            let want = ds.iter().all(|d| d.is_some());
            ensure!(chk.is_ok() == want, "check of the schedule of {ds:?}: {}", if chk.is_ok() { "no conflict" } else { "conflict" });
            if let Ok(r) = &chk {
                same(r, ds.iter().fold((0, 0), |u, d| uni(u, d.unwrap())), "schedule")?;
            }
            // the schedule is a public value: its non-empty groups
            let pool = P::make();
            let sizes: Vec<usize> = s.0.iter().map(|g| g.0.len()).filter(|k| *k > 0).collect();
            ensure_eq!(sizes, groups.iter().map(|g| g.len()).collect::<Vec<_>>(), "sizes of the groups formed from {ds:?}");
            let r = run_one(&mut s, &pool)?;
            if redundant() {
                return Ok(());
            }
            let (mut ran, mut ord) = (vec![], vec![]);
            for g in &groups {
                for x in &ran {
                    ord.extend(g.iter().map(|y| (*x, *y)));
                }
                ran.extend(g.iter().copied());
                if g.contains(&fail) {
                    break;
                }
            }
            // conflicting systems never overlap and keep their order (implied by the groups)
            for i in 0..n {
                for j in i + 1..n {
                    if let (Some(a), Some(b)) = (ds[i], ds[j]) {
                        if conf(a, b) {
                            ord.push((i, j));
                        }
                    }
                }
            }
            check_log(&ran, &ord, &format!("schedule of {ds:?}"))?;
            let e = if fail < n { Err(Errs(vec![fail])) } else { Ok(()) };
            ensure_eq!(r, e, "result of the schedule of {ds:?}");
            state(fp(&(&ds, fail)));
            Ok(())
}
