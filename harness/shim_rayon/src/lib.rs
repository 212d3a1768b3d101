//! `rayon` whose fork-join primitives run under the explorer: whether to split is a choice, and
//! the two halves are logical threads in every interleaving.  Everything else is rayon itself.
pub use real_rayon::*;

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if mcx::exploring() {
        mcx::spawn_join(a, b)
    } else {
        real_rayon::join(a, b)
    }
}
pub struct FnContext(());
impl FnContext {
    pub fn migrated(&self) -> bool {
        false
    }
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    join(move || a(FnContext(())), move || b(FnContext(())))
}
type Task<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;
/// Tasks of a scope start when its body, or the task that spawned them, has ended.
pub struct Scope<'s>(std::sync::Mutex<Vec<Task<'s>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.0.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, F, R>(op: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R + Send,
    R: Send,
{
    let s = Scope(Default::default());
    let r = op(&s);
    fn tasks<'s>(s: &Scope<'s>, mut l: Vec<Task<'s>>) {
        match l.len() {
            0 => {}
            1 => {
                l.pop().unwrap()(s);
                let l = std::mem::take(&mut *s.0.lock().unwrap());
                tasks(s, l)
            }
            n => {
                let h = l.split_off(n / 2);
                join(|| tasks(s, l), || tasks(s, h));
            }
        }
    }
    let l = std::mem::take(&mut *s.0.lock().unwrap());
    tasks(&s, l);
    r
}
pub fn in_place_scope<'s, F, R>(op: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R,
{
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    impl<T> S<T> {
        fn get(self) -> T {
            self.0
        }
    }
    let op = S(op);
    scope(move |s| S(op.get()(s))).get()
}
pub mod iter {
    pub use real_rayon::iter::*;
    pub mod plumbing {
        pub use real_rayon::iter::plumbing::*;
        pub fn bridge_unindexed<P, C>(producer: P, consumer: C) -> C::Result
        where
            P: UnindexedProducer,
            C: UnindexedConsumer<P::Item>,
        {
            if !mcx::exploring() {
                return real_rayon::iter::plumbing::bridge_unindexed(producer, consumer);
            }
            go(producer, consumer, 0)
        }
        fn go<P, C>(producer: P, consumer: C, depth: usize) -> C::Result
        where
            P: UnindexedProducer,
            C: UnindexedConsumer<P::Item>,
        {
            if consumer.full() {
                return consumer.into_folder().complete();
            }
            // Every split tree up to the bound; index 0 = split, so that the first executions are
            // the parallel ones.
            if depth < mcx::split_bound() && mcx::choose(2) == 0 {
                match producer.split() {
                    (l, Some(r)) => {
                        let (reducer, lc) = (consumer.to_reducer(), consumer.split_off_left());
                        let (a, b) =
                            mcx::spawn_join(move || go(l, lc, depth + 1), move || go(r, consumer, depth + 1));
                        reducer.reduce(a, b)
                    }
                    (p, None) => p.fold_with(consumer.into_folder()).complete(),
                }
            } else {
                producer.fold_with(consumer.into_folder()).complete()
            }
        }
    }
}
