use vpharness::graphchecks::*;
use vpharness::run::*;

pub static CHECK: Check = Check {
    prop: "C03",
    rule: "random operation histories mirrored on a reference model, every query compared after every few operations; a case is non-trivial if its final graph has at least two nodes and a link (or it ran the focused scenario to its end), distinct by operation kinds and final graph",
    assumptions: &["the reference model in harness/src/model.rs and hist.rs states the intended semantics", "only the public interface is observed"],
    suites: &[
        Suite { name: "churn", quick: 150000, thorough: 6000000, max_size: 100, f: churn::<Plain<u16>> },
        Suite { name: "churn_multi", quick: 60000, thorough: 2000000, max_size: 80, f: churn::<Multi<u16>> },
        Suite { name: "tiny", quick: 60000, thorough: 2000000, max_size: 60, f: tiny::<Plain<u16>> },
        Suite { name: "tiny_multi", quick: 40000, thorough: 1500000, max_size: 60, f: tiny::<Multi<u16>> },
        Suite { name: "large", quick: 300, thorough: 10000, max_size: 40, f: large::<Plain<u16>> },
        Suite { name: "high", quick: 40, thorough: 1500, max_size: 30, f: high::<Plain<u16>> },
        Suite { name: "high_multi", quick: 40, thorough: 1500, max_size: 30, f: high::<Multi<u16>> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
