//! Bounds: which configurations, starting trees and alphabets are explored.
use crate::engine::{show, Plan};
use crate::ops::{op, Code, Op};

/// Every structural operation on the given keys.
pub fn basic(keys: &[usize]) -> Vec<Op> {
    let mut v = Vec::new();
    for c in [Code::insert, Code::remove, Code::insert_recursive] {
        for &k in keys {
            v.push(op(c, k, 0));
        }
    }
    v.push(op(Code::remove_lowest, 0, 0));
    v.push(op(Code::remove_highest, 0, 0));
    v
}
fn to(n: usize) -> Vec<u16> {
    (0..=n as u16).collect()
}
/// All trees over keys 1..=n reachable from the empty one (up to `depth` operations).
pub fn closure(cfg: &'static str, n: usize, depth: usize) -> Plan {
    let keys: Vec<usize> = (1..=n).collect();
    Plan {
        cfg,
        label: format!("{} keys 1..={} from empty{}", cfg, n, if depth < 99 { format!(" depth {}", depth) } else { String::new() }),
        seed: vec![],
        alphabet: basic(&keys),
        dom: to(n + 1),
        probes: to(n + 1),
        depth,
        check: true,
        validate: 1,
    }
}
pub fn from_seed(cfg: &'static str, s: &Seed, depth: usize) -> Plan {
    let mut probes = vec![0];
    for &k in &s.keys {
        for p in [k.saturating_sub(1), k, k + 1] {
            probes.push(p as u16)
        }
    }
    probes.push(s.max as u16 + 1);
    probes.sort_unstable();
    probes.dedup();
    Plan {
        cfg,
        label: format!("{} [{}] keys {:?} depth {}", cfg, show(&s.ops), s.keys, depth),
        seed: s.ops.clone(),
        alphabet: basic(&s.keys),
        dom: to(s.max + 1),
        probes,
        depth,
        check: true,
        validate: 1,
    }
}
/// A starting tree and the keys worth operating on in it.
#[derive(Clone)]
pub struct Seed {
    pub ops: Vec<Op>,
    pub keys: Vec<usize>,
    pub max: usize,
}
fn seed(ops: &[Op], keys: &[usize], n: usize) -> Seed {
    let mut keys: Vec<usize> = keys.iter().copied().filter(|k| *k > 0).collect();
    keys.sort_unstable();
    keys.dedup();
    let max = keys.iter().copied().max().unwrap_or(0).max(2 * n);
    Seed { ops: ops.to_vec(), keys, max }
}
/// Trees of several levels, full, ragged and hollowed out. All keys are even, so that odd ones are free.
pub fn seeds(b: usize, l: usize) -> Vec<Seed> {
    use Code::*;
    let two = b * l; // entries of a full two-level tree
    let three = b * b * l;
    let big = three <= 4000;
    let three = if big { three } else { two * 2 + l / 2 };
    let mut v = vec![
        seed(&[op(load, two + 1, 2)], &[1, 2 * l, 2 * l + 1, 2 * two, 2 * two + 1, 2 * two + 2, 2 * two + 3], two + 1),
        seed(&[op(load, two, 2)], &[1, 2 * l, 2 * l + 1, 2 * two - 1, 2 * two, 2 * two + 1], two),
        seed(&[op(load, three, 2)], &[1, 2 * two - 1, 2 * two, 2 * two + 1, 2 * two + 2, 2 * three - 1, 2 * three, 2 * three + 1], three),
    ];
    for c in [ascend, descend, shuffle] {
        let n = two * 5 / 2;
        v.push(seed(&[op(c, n, 2)], &[1, 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1], n));
    }
    // hollow middle, bottom and top
    let (lo, hi) = (2 * l - 1 + l / 2, 2 * three - 3 * l + 1);
    v.push(seed(&[op(load, three, 2), op(remove_range, lo, hi)], &[lo - 2, lo, (lo + hi) / 2, hi - 1, hi, hi + 1, hi + 2, 2 * three + 1], three));
    let h = 2 * two + 2 * l;
    v.push(seed(&[op(load, two * 2 + 1, 2), op(remove_range, 1, h)], &[1, h / 2, 2 * two, h - 1, h, h + 1, h + 2, 4 * two + 3], two * 2 + 1));
    v.push(seed(&[op(load, two * 2 + 1, 2), op(remove_range_desc, h, 4 * two + 2)], &[1, h - 3, h - 2, h - 1, h, h + 1, 4 * two + 2, 4 * two + 3], two * 2 + 1));
    // every other leaf emptied
    let mut o = vec![op(load, two * 2, 2)];
    let mut i = 0;
    while i + 2 * l <= 4 * two {
        o.push(op(remove_range, i + 1, i + 2 * l));
        i += 4 * l;
    }
    v.push(seed(&o, &[1, 2 * l, 2 * l + 1, 2 * l + 2, 4 * l, 4 * l + 1, 2 * two, 2 * two + 1, 4 * two + 1], two * 2));
    // one entry left in a tall tree, and none
    v.push(seed(&[op(load, three + 1, 2), op(drain_lowest, three, 0)], &[1, 2, 3, two, 2 * three, 2 * three + 1, 2 * three + 2, 2 * three + 3], three + 1));
    v.push(seed(&[op(load, three + 1, 2), op(drain_highest, three, 0)], &[1, 2, 3, 4, 2 * two, 2 * three + 2, 2 * three + 3], three + 1));
    v.push(seed(&[op(load, three + 1, 2), op(drain_lowest, three + 1, 0)], &[1, 2, 3, 4, 5, 2 * two], three + 1));
    v
}
/// Complete state spaces over a few keys. `n`: number of keys for the smallest nodes.
pub fn closures(n: usize) -> Vec<Plan> {
    let mut v = vec![];
    for (c, m) in [("U4x4", n), ("U5x5", n), ("U4x5", n.min(10)), ("U5x4", n.min(11)), ("U6x6", n), ("U7x7", n), ("Y4x4", n - 2), ("S4x4", n - 2)] {
        v.push(closure(c, m, 99));
    }
    v
}
/// Bounded exploration around tall trees.
pub fn talls(cfgs: &[(&'static str, usize, usize)], depth: usize) -> Vec<Plan> {
    let mut v = vec![];
    for &(c, b, l) in cfgs {
        for s in seeds(b, l) {
            let mut p = from_seed(c, &s, depth);
            if b * l > 1000 {
                p.validate = 64;
            }
            v.push(p);
        }
    }
    v
}
pub const SMALL: &[(&str, usize, usize)] = &[("U4x4", 4, 4), ("U5x5", 5, 5)];
pub const MIXED: &[(&str, usize, usize)] = &[("U4x4", 4, 4), ("U5x5", 5, 5), ("U4x5", 4, 5), ("U5x4", 5, 4), ("S4x4", 4, 4), ("Y4x4", 4, 4), ("U7x7", 7, 7)];
pub const WIDE: &[(&str, usize, usize)] = &[("T64U", 64, 64)];
