//! The reduction is checked against brute-force enumeration of every interleaving: for every
//! program of two or three threads of up to two or three operations over two locations, the set of
//! observable outcomes (values read, final memory) is the same.
use mcx::*;
use std::cell::Cell;

#[derive(Clone, Copy, Debug)]
enum Op {
    Load(usize),
    Store(usize),
    Or(usize, u64),
    Inc(usize),        // load, then store: not atomic
    JoinInc(usize),    // two children
    OrRead(usize, u64),
    OrObs(usize, u64),
}
struct Mem([Cell<u64>; 2]);
unsafe impl Sync for Mem {}

fn exec(m: &Mem, o: Op, tid: u64, k: u64, log: &Cell<u64>) {
    let a = |i: usize| &m.0[i] as *const _ as usize;
    let obs = |v: u64| log.set(log.get().wrapping_mul(31).wrapping_add(v + 1));
    match o {
        Op::Load(i) => {
            point(a(i), Kind::Load, !0);
            obs(m.0[i].get());
        }
        Op::Store(i) => {
            point(a(i), Kind::Write, !0);
            m.0[i].set(100 * (tid + 1) + k);
        }
        Op::Or(i, b) => {
            point(a(i), Kind::OrBlind, b);
            m.0[i].set(m.0[i].get() | b);
        }
        Op::OrObs(i, b) => {
            point(a(i), Kind::Or, b);
            obs(m.0[i].get() & b);
            m.0[i].set(m.0[i].get() | b);
        }
        Op::OrRead(i, b) => {
            point(a(i), Kind::Load, b);
            obs(m.0[i].get() & b);
        }
        Op::Inc(i) => {
            point(a(i), Kind::Load, !0);
            let v = m.0[i].get();
            point(a(i), Kind::Write, !0);
            m.0[i].set(v + 1);
        }
        Op::JoinInc(i) => {
            let (l1, l2) = (Cell::new(0), Cell::new(0));
            spawn_join(|| exec(m, Op::Inc(i), tid, k, &l1), || exec(m, Op::Load(1 - i), tid, k, &l2));
            obs(l1.get());
            obs(l2.get());
        }
    }
}
fn outcomes(prog: &[Vec<Op>], brute: bool) -> (u64, u64, std::collections::HashSet<u64>) {
    let body = || {
        let m = Mem([Cell::new(0), Cell::new(0)]);
        let logs: Vec<Cell<u64>> = prog.iter().map(|_| Cell::new(0)).collect();
        struct S<'a>(&'a Mem, &'a [Cell<u64>]);
        unsafe impl Sync for S<'_> {}
        let s = S(&m, &logs);
        let s = &s;
        run_threads(
            prog.iter()
                .enumerate()
                .map(|(t, ops)| {
                    Box::new(move || {
                        for (k, o) in ops.iter().enumerate() {
                            exec(s.0, *o, t as u64, k as u64, &s.1[t]);
                        }
                    }) as Box<dyn FnOnce()>
                })
                .collect(),
        );
        let f: Vec<u64> = m.0.iter().map(|c| c.get()).chain(logs.iter().map(|c| c.get())).collect();
        outcome(fp(&f));
        Ok(())
    };
    let (n, red, o, e) = explore_local(brute, &body);
    assert!(e.is_none(), "{e:?}");
    (n, red, o)
}
fn progs(ops: &[Op], len: usize) -> Vec<Vec<Op>> {
    if len == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in progs(ops, len - 1) {
        for o in ops {
            let mut q = p.clone();
            q.push(*o);
            out.push(q);
        }
    }
    out
}
const ALL: [Op; 12] = [
    Op::Load(0), Op::Load(1), Op::Store(0), Op::Store(1), Op::Or(0, 1), Op::Or(0, 2),
    Op::Inc(0), Op::Inc(1), Op::OrRead(0, 1), Op::OrRead(0, 2), Op::OrObs(0, 1), Op::OrObs(0, 3),
];
#[test]
fn two_threads() {
    let ps = progs(&ALL, 2);
    let (mut b, mut d) = (0, 0);
    for p in &ps {
        for q in &ps {
            let prog = vec![p.clone(), q.clone()];
            let (n1, _, o1) = outcomes(&prog, true);
            let (n2, _, o2) = outcomes(&prog, false);
            assert_eq!(o1, o2, "{prog:?}");
            b += n1;
            d += n2;
        }
    }
    println!("brute {b} dpor {d}");
    assert!(d < b);
}
#[test]
fn three_threads() {
    let ops = [Op::Load(0), Op::Store(0), Op::Or(0, 1), Op::Or(0, 2), Op::Inc(1), Op::OrRead(0, 1), Op::Load(1), Op::OrObs(0, 1), Op::JoinInc(0)];
    let p1 = progs(&ops, 1);
    let p2 = progs(&ops[..8], 2);
    let (mut b, mut d) = (0, 0);
    for p in &p2 {
        for q in &p1 {
            for r in &p1 {
                let prog = vec![p.clone(), q.clone(), r.clone()];
                let (n2, _, o2) = outcomes(&prog, false);
                if n2 > 400 { continue; }
                let (n1, _, o1) = outcomes(&prog, true);
                assert_eq!(o1, o2, "{prog:?}");
                b += n1;
                d += n2;
            }
        }
    }
    println!("brute {b} dpor {d}");
}
#[test]
fn min4() {
    for prog in [
        vec![vec![Op::Load(0), Op::Inc(1)], vec![Op::Inc(1)], vec![Op::Inc(0)], vec![Op::Load(1)]],
        vec![vec![Op::Load(0), Op::Inc(1)], vec![Op::Inc(1)], vec![Op::Load(1)]],
        vec![vec![Op::Inc(1)], vec![Op::Inc(1)], vec![Op::Load(1)]],
        vec![vec![Op::Load(0),Op::Store(1)], vec![Op::Store(1)], vec![Op::Store(0)], vec![Op::Load(1)]],
        vec![vec![Op::Load(0),Op::Store(1)], vec![Op::Store(1)], vec![Op::Store(0)]],
        vec![vec![Op::Load(0),Op::Store(1)], vec![Op::Load(1)], vec![Op::Store(0)]],
        vec![vec![Op::Store(1)], vec![Op::Store(1)], vec![Op::Load(1)]],
        vec![vec![Op::Inc(1)], vec![Op::JoinInc(0)]],
        vec![vec![Op::Load(1)], vec![Op::JoinInc(0)]],
        vec![vec![Op::Store(0)], vec![Op::JoinInc(0)]],
        vec![vec![Op::JoinInc(0)]],
    ] {
        let (n2, r, o2) = outcomes(&prog, false);
        let (n1, _, o1) = outcomes(&prog, true);
        println!("{prog:?} brute {n1} dpor {n2} red {r} outcomes {} {}", o1.len(), o2.len());
    }
}
