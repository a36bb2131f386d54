//! Generators, one per property, as proptest strategies.
use crate::case::{mix, Case, Op};
use crate::*;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

fn kinds(weights: &[(u32, u32)]) -> BoxedStrategy<u32> {
    let w: Vec<(u32, u32)> = weights.to_vec();
    let total: u32 = w.iter().map(|x| x.1).sum();
    (0..total)
        .prop_map(move |mut r| {
            for (k, n) in &w {
                if r < *n {
                    return *k;
                }
                r -= n;
            }
            unreachable!()
        })
        .boxed()
}

fn op(k: BoxedStrategy<u32>) -> BoxedStrategy<Op> {
    (k, any::<u32>(), any::<u32>(), any::<u32>())
        .prop_map(|(k, a, b, c)| Op { k, a, b, c })
        .boxed()
}
/// An operation that mostly works on the same one or two vectors.
fn near(k: BoxedStrategy<u32>) -> BoxedStrategy<Op> {
    (k, any::<u32>(), 0u32..8, any::<u32>(), any::<u32>())
        .prop_map(|(k, a, near, b, c)| {
            // Bits 0-1 the vector, 2-3 the other vector
            let a = if near < 5 { a & !3 } else { a };
            Op { k, a, b, c }
        })
        .boxed()
}

fn list(o: BoxedStrategy<Op>, lo: usize, hi: usize) -> BoxedStrategy<Vec<Op>> {
    prop_oneof![
        3 => proptest::collection::vec(o.clone(), lo..=(lo + hi) / 4),
        4 => proptest::collection::vec(o.clone(), lo..=(lo + hi) / 2),
        3 => proptest::collection::vec(o, lo..=hi),
    ]
    .boxed()
}

/// flavour, element type, size class, pattern, seed, length, spare
fn head(sizes: &[(u32, u32)]) -> BoxedStrategy<Vec<u32>> {
    (
        0u32..3,
        0u32..8,
        kinds(sizes),
        any::<u32>(),
        any::<u32>(),
        any::<u32>(),
        any::<u32>(),
    )
        .prop_map(|(a, b, c, d, e, f, g)| vec![a, b, c, d, e, f, g])
        .boxed()
}

fn case(head: BoxedStrategy<Vec<u32>>, ops: BoxedStrategy<Vec<Op>>, probe: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Case> {
    (head, ops, probe)
        .prop_map(|(head, ops, probe)| Case { head, ops, probe })
        .boxed()
}

const SIZES: &[(u32, u32)] = &[(0, 200), (1, 500), (2, 500), (3, 500), (4, 400), (5, 160), (6, 40), (7, 2), (8, 1)];
const SMALLER: &[(u32, u32)] = &[(0, 15), (1, 30), (2, 25), (3, 20), (4, 10)];
const LARGER: &[(u32, u32)] = &[(0, 10), (1, 25), (2, 25), (3, 25), (4, 20), (5, 14), (6, 4), (8, 1)];

/// Every editing operation
const EDITS: &[(u32, u32)] = &[
    (OP_PUSH_BACK, 12),
    (OP_PUSH_FRONT, 12),
    (OP_POP_BACK, 8),
    (OP_POP_FRONT, 8),
    (OP_COLLECT, 3),
    (OP_SLICE_FROM_START, 5),
    (OP_SLICE_TO_END, 5),
    (OP_SPLIT_OFF, 10),
    (OP_APPEND, 10),
    (OP_PREPEND, 10),
    (OP_CLONE, 5),
    (OP_APPEND_CLONE, 10),
    (OP_PREPEND_CLONE, 6),
    (OP_EXTRACT, 8),
    (OP_INSERT, 6),
    (OP_REMOVE, 6),
    (OP_REVERSE, 3),
    (OP_REVERSE_RANGE, 5),
    (OP_SET, 3),
    (OP_SWEEP, 2),
    (OP_SORT, 1),
    (OP_CONSTANT, 5),
    (OP_CLEAR, 2),
    (OP_PIECES, 8),
    (OP_CUT_REJOIN, 8),
    (OP_CONSUME, 2),
    (OP_SAW, 4),
];
/// Clones and in-place changes
const CLONING: &[(u32, u32)] = &[
    (OP_PUSH_BACK, 8),
    (OP_PUSH_FRONT, 8),
    (OP_POP_BACK, 6),
    (OP_POP_FRONT, 6),
    (OP_COLLECT, 2),
    (OP_SLICE_FROM_START, 4),
    (OP_SLICE_TO_END, 4),
    (OP_SPLIT_OFF, 6),
    (OP_APPEND, 5),
    (OP_PREPEND, 4),
    (OP_CLONE, 24),
    (OP_APPEND_CLONE, 14),
    (OP_PREPEND_CLONE, 10),
    (OP_EXTRACT, 5),
    (OP_INSERT, 4),
    (OP_REMOVE, 4),
    (OP_REVERSE, 4),
    (OP_REVERSE_RANGE, 6),
    (OP_SET, 20),
    (OP_SWEEP, 14),
    (OP_SORT, 8),
    (OP_CONSTANT, 6),
    (OP_CLEAR, 1),
    (OP_PIECES, 4),
    (OP_CUT_REJOIN, 4),
    (OP_CONSUME, 5),
    (OP_SAW, 3),
];
/// What gives irregular trees
const GROWING: &[(u32, u32)] = &[
    (OP_PUSH_BACK, 14),
    (OP_PUSH_FRONT, 14),
    (OP_POP_BACK, 4),
    (OP_POP_FRONT, 4),
    (OP_COLLECT, 4),
    (OP_SLICE_FROM_START, 3),
    (OP_SLICE_TO_END, 3),
    (OP_SPLIT_OFF, 6),
    (OP_APPEND, 9),
    (OP_PREPEND, 9),
    (OP_CLONE, 3),
    (OP_APPEND_CLONE, 12),
    (OP_PREPEND_CLONE, 6),
    (OP_EXTRACT, 5),
    (OP_INSERT, 4),
    (OP_REMOVE, 3),
    (OP_REVERSE_RANGE, 1),
    (OP_CONSTANT, 4),
    (OP_PIECES, 14),
    (OP_CUT_REJOIN, 8),
    (OP_SAW, 2),
];
/// As GROWING, but nothing is ever shared
const UNSHARED: &[(u32, u32)] = &[
    (OP_PUSH_BACK, 14),
    (OP_PUSH_FRONT, 14),
    (OP_POP_BACK, 6),
    (OP_POP_FRONT, 6),
    (OP_COLLECT, 3),
    (OP_SLICE_FROM_START, 3),
    (OP_SLICE_TO_END, 3),
    (OP_SPLIT_OFF, 6),
    (OP_APPEND, 9),
    (OP_PREPEND, 9),
    (OP_EXTRACT, 5),
    (OP_INSERT, 5),
    (OP_REMOVE, 5),
    (OP_REVERSE, 2),
    (OP_REVERSE_RANGE, 3),
    (OP_SET, 5),
    (OP_SWEEP, 5),
    (OP_SORT, 3),
    (OP_CLEAR, 1),
    (OP_PIECES, 10),
    (OP_CUT_REJOIN, 6),
    (OP_CONSUME, 2),
    (OP_SAW, 3),
];

fn history(w: &[(u32, u32)], lo: usize, hi: usize) -> BoxedStrategy<Vec<Op>> {
    // Either any operations at all or a few kinds only, which gets further in one direction
    let w: Vec<(u32, u32)> = w.to_vec();
    let all = list(near(kinds(&w)), lo, hi);
    let few = proptest::sample::subsequence(w.clone(), 2..=w.len().min(7)).prop_flat_map(move |s| {
        let mut s = s;
        // something that adds elements
        s.push((OP_PUSH_BACK, 6));
        list(near(kinds(&s)), lo, hi)
    });
    prop_oneof![2 => all, 1 => few].boxed()
}

fn probe(n: u32, lo: usize, hi: usize) -> BoxedStrategy<Vec<Op>> {
    list(op((0..n).boxed()), lo, hi)
}
fn plan(lo: usize, hi: usize) -> BoxedStrategy<Vec<Op>> {
    probe(13, lo, hi)
}
fn none() -> BoxedStrategy<Vec<Op>> {
    Just(vec![]).boxed()
}

pub fn strategy(prop: &str) -> BoxedStrategy<Case> {
    match prop {
        "C01" => case(head(LARGER), history(EDITS, 1, 60), none()),
        "C02" => case(head(SIZES), history(CLONING, 2, 50), none()),
        "C03" => case(head(SIZES), history(GROWING, 1, 24), probe(8, 1, 16)),
        "C04" => case(head(SIZES), history(GROWING, 1, 20), probe(10, 2, 50)),
        "C05" => case(head(SIZES), history(GROWING, 1, 20), probe(8, 2, 50)),
        "C06" => case(head(LARGER), plan(0, 12), probe(6, 1, 4)),
        "C07" => case(head(SIZES), plan(0, 16), probe(6, 1, 4)),
        "C08" => case(head(SIZES), plan(0, 12), probe(480, 1, 60)),
        "C09" => case(head(SMALLER), plan(0, 16), probe(70, 1, 5)),
        "C10" => case(head(SIZES), history(CLONING, 2, 50), probe(8, 0, 8)),
        "C11" => case(head(LARGER), history(EDITS, 1, 60), none()),
        "C12" => {
            let pure = case(head(SIZES), history(UNSHARED, 1, 40), none());
            let mixed = case(head(SIZES), history(GROWING, 1, 20), probe(16, 1, 20));
            prop_oneof![pure, mixed].boxed()
        }
        "C13" => case(head(SMALLER), history(GROWING, 1, 12), list(near(kinds(CLONING)), 6, 60)),
        "C14" => case(head(SMALLER), history(CLONING, 1, 16), probe(14, 1, 10)),
        "C15" => case(head(SMALLER), history(GROWING, 0, 16), probe(31, 1, 16)),
        "C16" => case(head(SIZES), history(GROWING, 1, 20), probe(6, 1, 8)),
        "C17" => case(head(LARGER), probe(12, 1, 60), none()),
        _ => panic!("no property {}", prop),
    }
}

/// The case of an index: a function of the seed, the property and the index only.
pub fn generate(s: &BoxedStrategy<Case>, seed: u64, prop: &str, index: u64) -> Case {
    let mut bytes = [0u8; 32];
    let mut h = mix(seed ^ 0x5eed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ index.wrapping_mul(0x9E3779B97F4A7C15));
    for chunk in bytes.chunks_mut(8) {
        h = mix(h.wrapping_add(0x9E3779B97F4A7C15));
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    s.new_tree(&mut runner).expect("the generator rejects nothing").current()
}
