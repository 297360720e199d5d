use vpharness::graphchecks::*;
use vpharness::run::*;

pub static CHECK: Check = Check {
    prop: "C04",
    rule: "random operation histories mirrored on a reference model, every query compared after every few operations; a case is non-trivial if its final graph has at least two nodes and a link (or it ran the focused scenario to its end), distinct by operation kinds and final graph",
    assumptions: &["the reference model in harness/src/model.rs and hist.rs states the intended semantics", "only the public interface is observed"],
    suites: &[
        Suite { name: "resize", quick: 80000, thorough: 3000000, max_size: 80, f: resize::<Plain<u16>> },
        Suite { name: "resize_multi", quick: 80000, thorough: 3000000, max_size: 80, f: resize::<Multi<u16>> },
        Suite { name: "grid", quick: 60000, thorough: 3000000, max_size: 60, f: resize_grid::<Plain<u16>> },
        Suite { name: "grid_multi", quick: 60000, thorough: 3000000, max_size: 60, f: resize_grid::<Multi<u16>> },
        Suite { name: "resize8", quick: 20000, thorough: 500000, max_size: 60, f: resize::<Plain<u8>> },
        Suite { name: "limits8", quick: 500, thorough: 20000, max_size: 10, f: limits::<u8> },
        Suite { name: "limits16", quick: 500, thorough: 20000, max_size: 10, f: limits::<u16> },
        Suite { name: "limits32", quick: 500, thorough: 20000, max_size: 10, f: limits::<u32> },
        Suite { name: "fat", quick: 300, thorough: 10000, max_size: 30, f: fat::<Plain<u16>> },
        Suite { name: "fat_multi", quick: 300, thorough: 10000, max_size: 30, f: fat::<Multi<u16>> },
        Suite { name: "high", quick: 40, thorough: 1500, max_size: 30, f: high::<Plain<u16>> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
