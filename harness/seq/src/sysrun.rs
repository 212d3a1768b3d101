//! The pools of the sequential explorer.
use crate::sys::*;
use goggles::system::{Pool, SeqPool};
use mcx::*;

/// Always runs the second half first.
struct Backwards(#[allow(dead_code)] u8);
impl Pool for Backwards {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let y = b();
        (a(), y)
    }
}
impl ThePool for Backwards {
    const NAME: &'static str = "second half first";
    const OVERLAP: bool = false;
    fn make() -> Self {
        Backwards(0)
    }
}
/// Runs the two halves in either order.
struct EitherOrder(#[allow(dead_code)] u8);
impl Pool for EitherOrder {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        if choose(2) == 0 {
            let x = a();
            (x, b())
        } else {
            let y = b();
            (a(), y)
        }
    }
}
impl ThePool for EitherOrder {
    const NAME: &'static str = "either order";
    const OVERLAP: bool = false;
    fn make() -> Self {
        EitherOrder(0)
    }
}
impl ThePool for SeqPool {
    const NAME: &'static str = "SeqPool";
    const OVERLAP: bool = false;
    fn make() -> Self {
        SeqPool
    }
}
pub fn run01(c: &mut Ctx) {
    y01::<SeqPool>(c, c.q(&[(3, 5), (4, 4)], &[(3, 6), (4, 5)]));
    y01::<EitherOrder>(c, c.q(&[(3, 4), (2, 5)], &[(3, 5), (4, 4)]));
    y01_again::<SeqPool>(c, c.q(&[(3, 4), (2, 5)], &[(3, 5), (4, 4)]));
    y01_again::<EitherOrder>(c, c.q(&[(3, 3)], &[(3, 4)]));
    y01_long::<SeqPool>(c, 40);
    y01_long::<Backwards>(c, 40);
    crate::long::y01(c);
}
pub fn run02(c: &mut Ctx) {
    y02::<SeqPool>(c, c.q(&[(3, 4, 5), (2, 5, 4), (4, 4, 3), (2, 3, 9)], &[(3, 5, 5), (4, 5, 3), (2, 4, 9), (2, 6, 4)]));
    y02_long::<SeqPool>(c, 40);
    crate::long::y02(c);
}
pub fn run03(c: &mut Ctx) {
    y03::<EitherOrder>(c, 6, c.q(7, 8), true);
    y03::<SeqPool>(c, c.q(7, 8), c.q(6, 6), false);
    y03_long::<Backwards>(c, c.q(40, 70));
    crate::long::y03(c);
}
