use vpharness::graphchecks::*;
use vpharness::run::*;

pub static CHECK: Check = Check {
    prop: "C07",
    rule: "random operation histories mirrored on a reference model, every query compared after every few operations; a case is non-trivial if its final graph has at least two nodes and a link (or it ran the focused scenario to its end), distinct by operation kinds and final graph",
    assumptions: &["the reference model in harness/src/model.rs and hist.rs states the intended semantics", "only the public interface is observed"],
    suites: &[
        Suite { name: "multi16", quick: 120000, thorough: 5000000, max_size: 100, f: even::<Multi<u16>> },
        Suite { name: "links", quick: 80000, thorough: 3000000, max_size: 80, f: links::<Multi<u16>> },
        Suite { name: "tiny", quick: 60000, thorough: 3000000, max_size: 60, f: tiny::<Multi<u16>> },
        Suite { name: "hub", quick: 20000, thorough: 800000, max_size: 60, f: hub::<u16> },
        Suite { name: "grid", quick: 40000, thorough: 1500000, max_size: 60, f: resize_grid::<Multi<u16>> },
        Suite { name: "multi8", quick: 20000, thorough: 500000, max_size: 60, f: even::<Multi<u8>> },
        Suite { name: "multi32", quick: 20000, thorough: 500000, max_size: 60, f: even::<Multi<u32>> },
        Suite { name: "converted", quick: 30000, thorough: 1000000, max_size: 60, f: converted },
        Suite { name: "large", quick: 200, thorough: 8000, max_size: 40, f: large::<Multi<u16>> },
        Suite { name: "fat", quick: 300, thorough: 10000, max_size: 30, f: fat::<Multi<u16>> },
        Suite { name: "crowd", quick: 200, thorough: 8000, max_size: 30, f: crowd::<u16> },
        Suite { name: "crowd32", quick: 60, thorough: 2000, max_size: 30, f: crowd::<u32> },
        Suite { name: "high", quick: 40, thorough: 1500, max_size: 30, f: high::<Multi<u16>> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
