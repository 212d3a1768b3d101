//! Y01, Y03: composed systems on the real RayonPool, whose fork-join is explorer-controlled.
use crate::sys::*;
use goggles::RayonPool;
use mcx::*;

impl ThePool for RayonPool {
    const NAME: &'static str = "RayonPool";
    const OVERLAP: bool = true;
    fn make() -> Self {
        RayonPool
    }
}
pub fn run01(c: &mut Ctx) {
    y01::<RayonPool>(c, c.q(&[(2, 4), (3, 3), (3, 4)], &[(3, 4), (1, 5), (2, 5), (3, 5)]));
}
pub fn run03(c: &mut Ctx) {
    y03::<RayonPool>(c, c.q(4, 5), c.q(5, 6), true);
}
