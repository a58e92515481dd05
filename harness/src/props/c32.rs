use super::c17;
use crate::engine::*;
use proptest::prelude::*;

pub struct C32;

impl Property for C32 {
    type Case = c17::Case;
    const ID: &'static str = "C32";
    fn rule() -> &'static str {
        "1..3 segments of history as for C17 in a child process in which one chosen file operation, or all from it on, fail with a full disk, or one writes only half of what it was given; the child goes on after a failed flush and ends without closing; the flushes it reports as done must be recovered as an undisturbed copy of the history has them, and the recovered tree is extended, flushed and reopened; non-trivial: an operation of the library failed because of it"
    }
    fn cases(t: Tier) -> u32 {
        t.pick(700, 10_000)
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["failures are those of writes, truncations, creations, renames, removals and syncs; reads succeed", "file operations are counted across all threads of the process, so the exact point inside a flush depends on its schedule", "a child that does not end within 30 s is counted as undecided"]
    }
    fn max_shrink_iters() -> u32 {
        250
    }
    fn replay_times() -> u32 {
        4
    }
    fn witnesses() -> Vec<(&'static str, c17::Case)> {
        vec![("K5", c17::in_snapshot(1, 4)), ("K6", c17::in_new_store(2, 4))]
    }
    fn strategy(_: Tier) -> BoxedStrategy<c17::Case> {
        c17::histories(3..6)
    }
    fn run(c: &c17::Case, cx: &mut Cx) -> Result<(), String> {
        c17::run_case(c, cx, true)
    }
}
