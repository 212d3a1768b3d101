//! Sequential exploration of the real crate: every operation sequence up to a bound against
//! boring reference models.
#[macro_use]
mod world;
mod anyset;
mod ents;
mod joins;
mod long;
mod many;
mod plain;
mod res;
mod sys;
mod sysrun;
mod stores;

#[global_allocator]
static A: mcx::alloc::Poison = mcx::alloc::Poison;

fn main() {
    mcx::main_entry(&[
        mcx::Suite { prop: "E01", name: "ents", run: |c| ents::run(c, ents::Which::Unique) },
        mcx::Suite { prop: "E02", name: "ents", run: |c| ents::run(c, ents::Which::Live) },
        mcx::Suite { prop: "E03", name: "ents", run: |c| ents::run(c, ents::Which::Merge) },
        mcx::Suite { prop: "E05", name: "ents", run: |c| ents::run(c, ents::Which::Compact) },
        mcx::Suite { prop: "S01", name: "stores", run: |c| stores::run(c, stores::Which::Map) },
        mcx::Suite { prop: "S02", name: "stores", run: |c| stores::run(c, stores::Which::Drops) },
        mcx::Suite { prop: "S03", name: "stores", run: |c| stores::run(c, stores::Which::Slices) },
        mcx::Suite { prop: "S04", name: "stores", run: |c| stores::run(c, stores::Which::Tracking) },
        mcx::Suite { prop: "J01", name: "joins", run: joins::run },
        mcx::Suite { prop: "J03", name: "bounds", run: joins::bounds },
        mcx::Suite { prop: "R01", name: "borrows", run: res::r01 },
        mcx::Suite { prop: "R02", name: "sets", run: res::r02 },
        mcx::Suite { prop: "R03", name: "fetch", run: res::r03 },
        mcx::Suite { prop: "Y01", name: "run", run: sysrun::run01 },
        mcx::Suite { prop: "Y02", name: "check", run: sysrun::run02 },
        mcx::Suite { prop: "Y03", name: "parallelize", run: sysrun::run03 },
        mcx::Suite { prop: "S02", name: "world", run: |c| world::run(c, world::Which::Drops) },
        mcx::Suite { prop: "S02", name: "dynamic sets", run: anyset::faults },
        mcx::Suite { prop: "A01", name: "sets", run: anyset::run },
        mcx::Suite { prop: "W01", name: "world", run: |c| world::run(c, world::Which::Die) },
        mcx::Suite { prop: "W02", name: "world", run: |c| world::run(c, world::Which::Dead) },
        mcx::Suite { prop: "W03", name: "world", run: |c| world::run(c, world::Which::Registry) },
    ])
}
