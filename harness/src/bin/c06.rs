use vpharness::graphchecks::*;
use vpharness::run::*;

pub static CHECK: Check = Check {
    prop: "C06",
    rule: "random operation histories mirrored on a reference model, every query compared after every few operations; a case is non-trivial if its final graph has at least two nodes and a link (or it ran the focused scenario to its end), distinct by operation kinds and final graph",
    assumptions: &["the reference model in harness/src/model.rs and hist.rs states the intended semantics", "only the public interface is observed"],
    suites: &[
        Suite { name: "fail", quick: 120000, thorough: 5000000, max_size: 80, f: fail::<Plain<u16>> },
        Suite { name: "fail_multi", quick: 100000, thorough: 4000000, max_size: 80, f: fail::<Multi<u16>> },
        Suite { name: "fail8", quick: 20000, thorough: 500000, max_size: 60, f: fail::<Plain<u8>> },
        Suite { name: "fat", quick: 600, thorough: 30000, max_size: 30, f: fat::<Plain<u16>> },
        Suite { name: "fat_multi", quick: 400, thorough: 20000, max_size: 30, f: fat::<Multi<u16>> },
        Suite { name: "high", quick: 16, thorough: 600, max_size: 20, f: high::<Plain<u16>> },
        Suite { name: "high_multi", quick: 16, thorough: 600, max_size: 20, f: high::<Multi<u16>> },
        Suite { name: "limits8", quick: 300, thorough: 10000, max_size: 10, f: limits::<u8> },
        Suite { name: "limits16", quick: 300, thorough: 10000, max_size: 10, f: limits::<u16> },
        Suite { name: "limits32", quick: 300, thorough: 10000, max_size: 10, f: limits::<u32> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
