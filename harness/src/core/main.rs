#![allow(clippy::all)]
#[path = "../common/mod.rs"]
mod common;
mod solvers;
mod dds;
mod layers;
mod misc;
mod memory;
mod timeout;
mod workers;
mod history;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("timeout-child") { timeout::child() }
    let bare = matches!(std::env::args().nth(1).as_deref(), Some("memory" | "leak"));
    common::run::BLOCKED_IS_VIOLATION.store(!bare, std::sync::atomic::Ordering::SeqCst);
    common::run::SPIN.store(!bare, std::sync::atomic::Ordering::SeqCst);
    common::run::main_loop(&[
        ("classic", solvers::classic),
        ("barrier", solvers::barrier),
        ("genuine", solvers::genuine),
        ("agree", solvers::agree),
        ("terminate", solvers::terminate),
        ("interrupt", solvers::interrupt),
        ("stop", solvers::stop),
        ("noreexp", solvers::noreexp),
        ("counters", solvers::counters),
        ("anytime", solvers::anytime),
        ("queue", solvers::queue),
        ("bestfirst", solvers::bestfirst),
        ("rerun", solvers::rerun),
        ("timeout", timeout::timeout),
        ("restricted", dds::restricted),
        ("relaxed", dds::relaxed),
        ("cutset", dds::cutset),
        ("width", dds::width),
        ("thresholds", dds::thresholds),
        ("contract", solvers::contract),
        ("workers", workers::workers),
        ("panics", workers::panics),
        ("idle", workers::idle),
        ("repeat", workers::repeat),
        ("selection", layers::selection),
        ("paths", layers::paths),
        ("useless", layers::useless),
        ("fresh", history::fresh),
        ("rising", history::rising),
        ("frontier", misc::frontier),
        ("utils", misc::utils),
        ("memory", memory::memory),
        ("leak", memory::leak),
    ]);
}
