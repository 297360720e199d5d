use vpharness::graphchecks::*;
use vpharness::run::*;

pub static CHECK: Check = Check {
    prop: "C01",
    rule: "random operation histories mirrored on a reference model, every query compared after every few operations; a case is non-trivial if its final graph has at least two nodes and a link (or it ran the focused scenario to its end), distinct by operation kinds and final graph",
    assumptions: &["the reference model in harness/src/model.rs and hist.rs states the intended semantics", "only the public interface is observed"],
    suites: &[
        Suite { name: "plain16", quick: 150000, thorough: 6000000, max_size: 100, f: even::<Plain<u16>> },
        Suite { name: "plain8", quick: 25000, thorough: 800000, max_size: 60, f: even::<Plain<u8>> },
        Suite { name: "plain32", quick: 25000, thorough: 800000, max_size: 60, f: even::<Plain<u32>> },
        Suite { name: "tiny", quick: 60000, thorough: 2000000, max_size: 60, f: tiny::<Plain<u16>> },
        Suite { name: "multi16", quick: 40000, thorough: 1500000, max_size: 60, f: even::<Multi<u16>> },
        Suite { name: "large", quick: 300, thorough: 10000, max_size: 40, f: large::<Plain<u16>> },
        Suite { name: "limits", quick: 300, thorough: 10000, max_size: 10, f: limits::<u16> },
        Suite { name: "fat", quick: 300, thorough: 10000, max_size: 30, f: fat::<Plain<u16>> },
        Suite { name: "fat_multi", quick: 300, thorough: 10000, max_size: 30, f: fat::<Multi<u16>> },
        Suite { name: "high", quick: 40, thorough: 1500, max_size: 30, f: high::<Plain<u16>> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
