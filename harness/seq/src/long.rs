//! Y01, Y02, Y03: lists of very many systems, deep nestings, accesses of very many resources.
use crate::sys::Errs;
use goggles::resources::{ResourceConflict, Resources, RwResources};
use goggles::system::{parallelize, Par, ParList, Pool, Seq, SeqList, SeqPool, System};
use mcx::*;
use std::cell::RefCell;

type R = RwResources<u32>;
thread_local! {
    static LOG: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}
/// Runs the halves in the order given.
struct Order(bool);
impl Pool for Order {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        if self.0 {
            let y = b();
            (a(), y)
        } else {
            SeqPool.join(a, b)
        }
    }
}
type Decl = Option<(Vec<u32>, Vec<u32>)>;
struct Leaf {
    id: u32,
    fails: bool,
    decl: Decl,
}
impl System<u32> for Leaf {
    type Resources = R;
    type Pool = Order;
    type Error = Errs;
    fn check_resources(&self) -> Result<R, ResourceConflict> {
        match &self.decl {
            None => Err(ResourceConflict::conflict_in::<Self>()),
            Some((r, w)) => Ok(RwResources::from_iters(r.iter().copied(), w.iter().copied())),
        }
    }
    fn run(&mut self, _: &Order, args: u32) -> Result<(), Errs> {
        assert_eq!(args, 7);
        LOG.with(|l| l.borrow_mut().push(self.id));
        if self.fails {
            Err(Errs(vec![self.id as usize]))
        } else {
            Ok(())
        }
    }
}
type Sys = Box<dyn System<u32, Resources = R, Pool = Order, Error = Errs> + Send>;
fn plain(id: usize, fails: bool) -> Leaf {
    Leaf { id: id as u32, fails, decl: Some((vec![], vec![])) }
}

/// Sizes around every power of two.
fn sizes(from: u32, to: u32) -> Vec<usize> {
    (from..=to).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect()
}
/// Positions in a list of `n`.
fn spots(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 15, 16, 63, 64, 255, 256, n / 2 - 1, n / 2, n - 2, n - 1].into_iter().filter(|i| *i < n).collect();
    v.sort();
    v.dedup();
    v
}
fn runs(s: &mut dyn System<u32, Resources = R, Pool = Order, Error = Errs>, par: bool, n: usize, fails: &[usize], back: bool, what: &str) -> Res {
    for k in 0..2 {
        step();
        LOG.with(|l| l.borrow_mut().clear());
        let r = catch(|| s.run(&Order(back), 7)).map_err(|m| format!("run {k} of {what} panicked: {m}"))?;
        let mut log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let (ran, errs) = match fails.first() {
            None => (n, vec![]),
            Some(_) if par => (n, fails.to_vec()),
            Some(f) => (f + 1, vec![*f]),
        };
        if par {
            log.sort();
        }
        ensure!(log.len() == ran && log.iter().enumerate().all(|(i, x)| i as u32 == *x), "run {k} of {what}: {} systems ran{}, expected {ran}", log.len(), if par { "" } else { " (or not in order)" });
        let e = if errs.is_empty() { Ok(()) } else { Err(Errs(errs)) };
        ensure_eq!(r, e, "result of run {k} of {what}");
    }
    Ok(())
}
/// None, one or two of the positions.
fn two(spots: &[usize]) -> Vec<usize> {
    let a = choose(spots.len() + 1);
    if a == spots.len() {
        return vec![];
    }
    let b = a + choose(spots.len() - a);
    if a == b {
        vec![spots[a]]
    } else {
        vec![spots[a], spots[b]]
    }
}
pub fn y01(c: &mut Ctx) {
    let top = c.q(15, 18);
    c.explore(
        "very long lists",
        &format!("ParList and SeqList of 2^k-1, 2^k and 2^k+1 systems for 5 < k <= {top}; no system, any one or any two of up to twelve positions failing; first or second half first; two runs of the same object"),
        move || {
            let n = *pick(&sizes(6, top));
            let par = choose_bool();
            let back = par && choose_bool();
            let fails = two(&spots(n));
            let what = format!("{} of {n} systems of which {fails:?} fail", if par { "ParList" } else { "SeqList" });
            note(|| what.clone());
            let v: Vec<Leaf> = (0..n).map(|i| plain(i, fails.contains(&i))).collect();
            let mut s: Sys = if par { Box::new(ParList(v)) } else { Box::new(SeqList(v)) };
            runs(&mut *s, par, n, &fails, back, &what)?;
            state(fp(&(n, par, back, fails)));
            Ok(())
        },
    );
    let deep = c.q(9, 11);
    c.explore(
        "deep nestings",
        &format!("chains of 2^k-1, 2^k and 2^k+1 systems for 5 < k <= {deep}, nested to the left or to the right by par! or seq! (all, or lists of one around every level); no system, any one or any two of up to twelve positions failing; two runs of the same object"),
        move || {
            let n = *pick(&sizes(6, deep));
            let (par, left, lists) = (choose_bool(), choose_bool(), choose_bool());
            let back = par && choose_bool();
            let fails = two(&spots(n));
            let what = format!("{n} systems nested to the {} by {}{}, of which {fails:?} fail", if left { "left" } else { "right" }, if par { "par!" } else { "seq!" }, if lists { " with a list around each level" } else { "" });
            note(|| what.clone());
            let mk = |i: usize| -> Sys { Box::new(plain(i, fails.contains(&i))) };
            let mut s: Sys = mk(if left { 0 } else { n - 1 });
            for k in 1..n {
                s = match (par, left) {
                    (true, true) => Box::new(Par::new(s, mk(k))),
                    (true, false) => Box::new(Par::new(mk(n - 1 - k), s)),
                    (false, true) => Box::new(Seq::new(s, mk(k))),
                    (false, false) => Box::new(Seq::new(mk(n - 1 - k), s)),
                };
                if lists {
                    s = if k % 2 == 0 { Box::new(ParList(vec![s])) } else { Box::new(SeqList(vec![s])) };
                }
            }
            runs(&mut *s, par, n, &fails, back, &what)?;
            state(fp(&(n, par, left, lists, back, fails)));
            Ok(())
        },
    );
}

/// How two members use the shared resource 0; None: an internal conflict.
const USE: [Option<(bool, bool)>; 4] = [Some((true, false)), Some((false, true)), None, Some((false, false))];
fn decl(i: usize, how: Option<(bool, bool)>, wide: usize) -> Decl {
    let own = 1 + (i * wide) as u32;
    how.map(|(r, w)| {
        // own resources, read and written in turn
        let (mut rd, mut wr): (Vec<u32>, Vec<u32>) = (own..own + wide as u32).partition(|x| x % 2 == 0);
        if r {
            rd.push(0)
        }
        if w {
            wr.push(0)
        }
        (rd, wr)
    })
}
fn clash(a: Option<(bool, bool)>, b: Option<(bool, bool)>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.1 && (b.0 || b.1) || b.1 && (a.0 || a.1),
        _ => false,
    }
}
/// The reported accesses against those of every member.
fn exact(r: &R, hows: &[Option<(bool, bool)>], wide: usize, what: &str) -> Res {
    let n = hows.len();
    let w0 = hows.iter().any(|h| h.unwrap().1);
    let r0 = hows.iter().any(|h| h.unwrap().0);
    let mut rd: Vec<u32> = r.reads().copied().collect();
    let mut wr: Vec<u32> = r.writes().copied().collect();
    rd.sort();
    wr.sort();
    let own = 1..1 + (n * wide) as u32;
    let mut ew: Vec<u32> = own.clone().filter(|x| x % 2 == 1).collect();
    if w0 {
        ew.insert(0, 0);
    }
    ensure!(wr == ew, "{what}: reports {} written resources, expected {}", wr.len(), ew.len());
    // whether a written resource is listed as read as well is left open
    let mut all: Vec<u32> = rd.iter().chain(&wr).copied().collect();
    all.sort();
    all.dedup();
    let mut ea: Vec<u32> = own.collect();
    if w0 || r0 {
        ea.insert(0, 0);
    }
    ensure!(all == ea, "{what}: reports {} resources, expected {}", all.len(), ea.len());
    Ok(())
}
pub fn y02(c: &mut Ctx) {
    let top = c.q(10, 13);
    c.explore(
        "very long lists",
        &format!("ParList and SeqList (nested by par!/seq! up to 257) of 2^k-1, 2^k and 2^k+1 systems for 5 < k <= {top}, each with one or three resources of its own; any two of up to twelve positions also reading, writing or not using one shared resource, or having an internal conflict; the others all reading it or not"),
        move || {
            let n = *pick(&sizes(6, top));
            let sp = spots(n);
            let a = choose(sp.len());
            let b = choose(sp.len());
            if a >= b {
                return Ok(());
            }
            let (x, y) = (*pick(&USE), *pick(&USE));
            let rest = Some((choose_bool(), false));
            let wide = *pick(&[1usize, 3]);
            let kind = choose(if n <= 257 { 4 } else { 2 });
            let mut hows = vec![rest; n];
            hows[sp[a]] = x;
            hows[sp[b]] = y;
            let what = format!("{} of {n} systems, number {} using the shared resource as {x:?}, number {} as {y:?}, the others as {rest:?}", ["ParList", "SeqList", "par!", "seq!"][kind], sp[a], sp[b]);
            note(|| what.clone());
            let mut v = hows.iter().enumerate().map(|(i, h)| Leaf { id: i as u32, fails: false, decl: decl(i, *h, wide) });
            let s: Sys = match kind {
                0 => Box::new(ParList(v.collect())),
                1 => Box::new(SeqList(v.collect())),
                _ => {
                    let mut s: Sys = Box::new(v.next().unwrap());
                    for l in v {
                        s = if kind == 2 { Box::new(Par::new(s, l.boxed())) } else { Box::new(Seq::new(s, l.boxed())) };
                    }
                    s
                }
            };
            step();
            let inner = hows.contains(&None);
            let conf = clash(x, y) || n > 2 && (clash(x, rest) || clash(y, rest));
            let exp = !inner && (kind % 2 == 1 || !conf);
            let got = s.check_resources();
            ensure!(got.is_ok() == exp, "check of a {what}: reports {}", if got.is_ok() { "no conflict" } else { "a conflict" });
            if let Ok(r) = got {
                exact(&r, &hows, wide, &what)?;
            }
            state(fp(&(n, a, b, x, y, rest, wide, kind)));
            outcome(exp as u64);
            Ok(())
        },
    );
}
impl Leaf {
    fn boxed(self) -> Sys {
        Box::new(self)
    }
}

pub fn y03(c: &mut Ctx) {
    let top = c.q(10, 13);
    c.explore(
        "very long lists",
        &format!("2^k-1, 2^k and 2^k+1 systems for 5 < k <= {top}, each with a resource of its own; any two of up to twelve positions also reading, writing or not using one shared resource, or having an internal conflict, the others all reading it or not; groups, check and result (none or the first of the two failing)"),
        move || {
            let n = *pick(&sizes(6, top));
            let sp = spots(n);
            let (a, b) = (choose(sp.len()), choose(sp.len()));
            if a >= b {
                return Ok(());
            }
            let (x, y) = (*pick(&USE), *pick(&USE));
            let rest = Some((choose_bool(), false));
            let mut hows = vec![rest; n];
            hows[sp[a]] = x;
            hows[sp[b]] = y;
            let ds = hows.iter().enumerate().map(|(i, h)| decl(i, *h, 1)).collect();
            let fail = if choose_bool() { Some(sp[a]) } else { None };
            schedule(ds, fail, &|| format!("{n} systems, number {} using the shared resource as {x:?}, number {} as {y:?}, the others as {rest:?}, failing: {fail:?}", sp[a], sp[b]))
        },
    );
    let few = c.q(9, 12);
    c.explore(
        "groups of any size",
        &format!("2^k-1, 2^k and 2^k+1 systems for 5 < k <= {few}, the i-th writing resource i mod p (or reading it, every second round) for p = 1, 2, 3, 2^j-1, 2^j, 2^j+1; groups, check and result"),
        move || {
            let n = *pick(&sizes(6, few));
            let mut ps = vec![1, 2];
            ps.extend(sizes(2, few).into_iter().filter(|p| *p <= n));
            let p = *pick(&ps);
            let reads = choose_bool();
            let ds = (0..n).map(|i| if reads && (i / p) % 2 == 1 { Some((vec![(i % p) as u32], vec![])) } else { Some((vec![], vec![(i % p) as u32])) }).collect();
            schedule(ds, None, &|| format!("{n} systems writing{} {p} resources in turn", if reads { " and reading" } else { "" }))
        },
    );
}
fn schedule(ds: Vec<Decl>, fail: Option<usize>, what: &dyn Fn() -> String) -> Res {
    use std::collections::HashMap;
    note(what);
    let n = ds.len();
    // the rule
    let mut groups: Vec<usize> = vec![];
    // accesses of the open group: written?
    let mut open: Option<HashMap<u32, bool>> = None;
    for d in &ds {
        let Some((r, w)) = d else {
            groups.push(1);
            open = None;
            continue;
        };
        let hit = |o: &HashMap<u32, bool>| r.iter().any(|x| o.get(x) == Some(&true)) || w.iter().any(|x| o.contains_key(x));
        match &open {
            Some(o) if !hit(o) => *groups.last_mut().unwrap() += 1,
            _ => {
                groups.push(1);
                open = Some(HashMap::new());
            }
        }
        let o = open.as_mut().unwrap();
        r.iter().for_each(|x| {
            o.entry(*x).or_insert(false);
        });
        w.iter().for_each(|x| {
            o.insert(*x, true);
        });
    }
    step();
    LOG.with(|l| l.borrow_mut().clear());
    let inner = ds.iter().any(|d| d.is_none());
    let v: Vec<Leaf> = ds.into_iter().enumerate().map(|(i, decl)| Leaf { id: i as u32, fails: fail == Some(i), decl }).collect();
    let mut s = catch(|| parallelize::<u32, _>(v)).map_err(|m| format!("parallelize panicked on {}: {m}", what()))?;
    ensure!(LOG.with(|l| l.borrow().is_empty()), "parallelize ran a system of {}", what());
    let got: Vec<usize> = s.0.iter().map(|g| g.0.len()).filter(|k| *k > 0).collect();
    let first = got.iter().zip(&groups).position(|(a, b)| a != b);
    ensure!(got == groups, "{}: {} groups, expected {} (first difference at group {first:?})", what(), got.len(), groups.len());
    ensure!(System::<u32>::check_resources(&s).is_ok() != inner, "check of the schedule of {}", what());
    let r = catch(|| System::<u32>::run(&mut s, &Order(false), 7)).map_err(|m| format!("running {} panicked: {m}", what()))?;
    // up to the end of the failing group, in order (the pool runs the first half first)
    let mut ran = 0;
    for g in &groups {
        ran += g;
        if fail.is_some_and(|f| f < ran) {
            break;
        }
    }
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let mut done = 0;
    for g in &groups {
        let end = (done + g).min(log.len());
        let mut part = log[done.min(end)..end].to_vec();
        part.sort();
        ensure!(part.iter().enumerate().all(|(i, x)| *x as usize == done + i), "{}: systems of the group from {done} did not run in it", what());
        done += g;
    }
    ensure!(log.len() == ran, "{}: {} of {n} systems ran, expected {ran}", what(), log.len());
    ensure_eq!(r, fail.map_or(Ok(()), |f| Err(Errs(vec![f]))), "result of {}", what());
    state(fp(&(n, fail, groups)));
    Ok(())
}
