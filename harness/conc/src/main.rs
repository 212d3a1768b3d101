//! Schedule exploration of the real code: every atomic access is a scheduling point.
mod e04;
mod par;
mod w04;
mod r01;
#[path = "../../seq/src/sys.rs"]
mod sys;
mod sysrun;
mod util;
mod y04;

#[global_allocator]
static A: mcx::alloc::Poison = mcx::alloc::Poison;

fn main() {
    mcx::main_entry(&[
        mcx::Suite { prop: "E01", name: "concurrent creation", run: e04::creations },
        mcx::Suite { prop: "E05", name: "concurrent creation", run: e04::creations },
        mcx::Suite { prop: "E04", name: "alloc", run: e04::run },
        mcx::Suite { prop: "J02", name: "par_join", run: par::j02 },
        mcx::Suite { prop: "S05", name: "marks", run: par::s05 },
        mcx::Suite { prop: "W04", name: "world", run: w04::run },
        mcx::Suite { prop: "R01", name: "threads", run: r01::run },
        mcx::Suite { prop: "Y01", name: "RayonPool", run: sysrun::run01 },
        mcx::Suite { prop: "Y03", name: "RayonPool", run: sysrun::run03 },
        mcx::Suite { prop: "Y04", name: "shared data", run: y04::run },
    ])
}
