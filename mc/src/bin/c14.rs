//! C14: maps of every size, filled and drained in every order.
use mc::{cfg_dispatch, engine::*, grow::*, ops::*, types::*, want, with_cfg};
use palmtree::{Entry, PalmTree, TreeConfig};
use std::collections::BTreeMap;

/// Sizes around every product of node capacities and halves of them.
fn edges(n: usize) -> bool {
    n <= 8 || [16, 32, 48, 64, 1024, 2048, 4096, 32768, 65536, 131072, 262144].iter().any(|b| n + 1 >= *b && n <= *b + 1) || n % 49_999 == 0
}
fn every(_: usize) -> bool {
    true
}
fn sparse(n: usize) -> bool {
    n % 25 == 0
}
fn sizes<C: TreeConfig<NKey, Val>>(grow: &str, n: usize, t: &mut Tally) -> Result<(), String> {
    for size in 0..=n {
        for drain in DRAINS {
            // the growing itself is looked at step by step once, at the largest size
            let mut r: Run<C> = Run::new(Mode { at: if size == n && *drain == DRAINS[0] { every } else { |_| false }, cost: None }, t);
            let at = |e: String| format!("{} entries by {}, drained by {}: {}", size, grow, drain, e);
            r.grow(grow, size).map_err(at)?;
            r.mode.at = if size < 40 { every } else { sparse };
            r.drain(drain).map_err(at)?;
            // and again from what is left
            for i in order("inside_out", size.min(30)) {
                r.insert("rec plain".split(' ').nth(i % 2).unwrap(), i).map_err(at)?;
            }
            want!("entries after refilling", r.t.len(), size.min(30));
            t.evals += 1;
            t.validated += 1;
        }
    }
    Ok(())
}
fn big<C: TreeConfig<NKey, Val>>(grow: &str, drain: &str, n: usize, t: &mut Tally) -> Result<(), String> {
    let mut r: Run<C> = Run::new(Mode { at: edges, cost: None }, t);
    r.grow(grow, n)?;
    r.drain(drain)?;
    r.grow(if grow == "load" { "ascend" } else { "descend" }, 200)?;
    t.evals += 1;
    t.validated += 1;
    t.count("large trees", 1);
    Ok(())
}
/// As deep a tree as so many insertions can make, with few entries: of the older ones ever fewer are kept, as one
/// thins out backups. Behind every edge node on the way down some entry stays, so nodes fill and split just as if
/// nothing were removed, and the tree is as deep as one of 2^bits entries, at the cost of time only.
fn thinned<C: TreeConfig<NKey, Val>>(way: &str, bits: u32, t: &mut Tally) -> Result<(), String> {
    let n = 1u32 << bits;
    let k = |i: u32| key(if way.starts_with("desc") { n - i } else { i } as usize);
    let mut tree: NTree<C> = PalmTree::new();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let mut ins = |tree: &mut NTree<C>, i: u32| match i % 8 {
        1 => tree.insert_recursive(k(i), Val(i)).map(|v| v.0),
        3 => match tree.entry(k(i)) {
            Entry::Vacant(e) => {
                e.insert(Val(i));
                None
            }
            Entry::Occupied(e) => Some(e.get().0),
        },
        _ => tree.insert(k(i), Val(i)).map(|v| v.0),
    };
    for i in 1..=n {
        let at = |e: String| format!("entry {} of a map thinned out: {}", i, e);
        if let Some(v) = ins(&mut tree, i) {
            return Err(at(format!("insertion of an absent key replaced {}", v)));
        }
        m.insert(k(i).0, i);
        let gone = 16u64 << i.trailing_zeros();
        if gone < i as u64 {
            let j = i - gone as u32;
            let got = tree.remove(&k(j)).map(|(k, v)| (k.0, v.0));
            want!(at(format!("removal of {}", k(j).0)), got, m.remove(&k(j).0).map(|v| (k(j).0, v)));
        }
        if tree.len() != m.len() {
            return Err(at(format!("len(): {}, expected {}", tree.len(), m.len())));
        }
        t.transitions += 2;
        if i.is_power_of_two() || (i + 1).is_power_of_two() || (i - 1).is_power_of_two() || i % 1_000_003 == 0 {
            t.states += 1;
            whole(&mut tree, &m).map_err(at)?;
            // on copies: everything that walks or rebuilds the whole map
            let copy = |tree: &NTree<C>| tree.clone();
            let seen: Vec<(u32, u32)> = copy(&tree).into_iter().map(|(k, v)| (k.0, v.0)).collect();
            want!(at("consumed".into()), seen, m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>());
            let mut c = copy(&tree);
            c.append_right(PalmTree::load(vec![(NKey(2), Val(0))]));
            want!(at("merged".into()), (c.len(), c.get(&NKey(2)).map(|v| v.0)), (m.len() + 1, Some(0)));
            let mut c = copy(&tree);
            let mut left = m.clone();
            while let Some((k, v)) = left.iter().next().map(|(k, v)| (*k, *v)) {
                want!(at("lowest removed".into()), c.remove_lowest().map(|(k, v)| (k.0, v.0)), Some((k, v)));
                left.remove(&k);
                if let Some((k, v)) = left.iter().next_back().map(|(k, v)| (*k, *v)) {
                    want!(at("highest removed".into()), c.remove_highest().map(|(k, v)| (k.0, v.0)), Some((k, v)));
                    left.remove(&k);
                }
            }
            want!(at("drained".into()), (c.len(), c.remove_lowest().is_none(), c.iter().count()), (0, true, 0));
            want!(at("after copies were drained".into()), tree == copy(&tree), true);
            whole(&mut tree, &m).map_err(at)?;
        } else if i % 4096 == 0 {
            tick();
        }
    }
    t.evals += 1;
    t.validated += 1;
    t.count("deep trees of few entries", 1);
    Ok(())
}
pub struct P;
impl Prop for P {
    const ID: &'static str = "C14";
    cfg_dispatch!([U4x4]);
    fn plans(_: Tier, _: bool) -> Vec<Plan> {
        vec![]
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let quick = tier == Tier::Quick;
        let mut v = vec![];
        // large trees first, as they take longest
        let n = if quick { 270_000 } else { 600_000 };
        for (c, g, d) in [("U4x4", "ascend", "lowest"), ("T64U", "ascend", "lowest"), ("T64U", "load", "highest"), ("U4x4", "descend", "highest"), ("T64U", "bitrev", "bitrev"), ("T64Y", "rec_ascend", "both"), ("U4x4", "rec_ascend", "ascend"), ("T64S", "inside_out", "inside_out"), ("U4x4", "bitrev", "bitrev"), ("U5x5", "descend", "ends"), ("U4x4", "load", "ascend")] {
            let m = if c == "U4x4" && g == "ascend" && checked { 420_000 } else if quick && !c.starts_with('T') { n / 3 } else { n };
            v.push(format!("big {} {} {} {}", c, g, d, m));
        }
        let deep = match (quick, checked) {
            (true, false) => 24,
            (true, true) => 22,
            (false, false) => 28,
            _ => 25,
        };
        for (i, (c, g)) in [("U4x4", "ascend"), ("U4x4", "descend"), ("Y4x4", "ascend"), ("S4x4", "descend"), ("U5x5", "ascend"), ("U5x4", "descend"), ("U7x7", "descend")].iter().enumerate() {
            v.insert(0, format!("thinned {} {} {}", c, g, if i < 2 { deep } else { deep - 2 }));
        }
        for c in ["T64U", "U4x4", "U16x17", "U300x4", "S4x300", "Y130x5", "U256x4", "Y4x256"] {
            for g in GROWS {
                for d in DRAINS {
                    v.push(format!("big {} {} {} {}", c, g, d, if quick { 4200 } else { 8500 }));
                }
            }
        }
        if !quick {
            for c in ["T64U", "T64S", "T64Y", "U65x63", "U16x17", "U4x4", "Y4x4"] {
                for g in GROWS {
                    for d in DRAINS {
                        v.push(format!("big {} {} {} {}", c, g, d, 70_000));
                    }
                }
            }
        }
        let scale = match (tier, checked) {
            (Tier::Quick, _) => 2,
            _ => 5,
        };
        for (c, n) in [("U4x4", 90), ("U5x5", 70), ("Y4x4", 70), ("S4x4", 70), ("U4x5", 50), ("U5x4", 50), ("U6x6", 50), ("U7x7", 50), ("U8x9", 40), ("U16x17", 40), ("T64U", 68)] {
            for g in GROWS {
                v.push(format!("sizes {} {} {}", c, g, n * scale));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        t.sample(|| name.to_string());
        with_cfg!(w[1], [U256x4 Y4x256 U300x4 S4x300 Y130x5 U4x4 U5x5 Y4x4 S4x4 U4x5 U5x4 U6x6 U7x7 U8x9 U16x17 U65x63 T64U T64S T64Y], C => match w[0] {
            "thinned" => thinned::<C>(w[2], w[3].parse().unwrap(), t),
            "sizes" => sizes::<C>(w[2], w[3].parse().unwrap(), t),
            _ => big::<C>(w[2], w[3], w[4].parse().unwrap(), t),
        })
    }
    fn state<C: Cfg>(s: &St<C>, _: &mut Tally) -> Result<(), String> {
        contents(s.t, s.m)
    }
}
fn main() {
    main_for::<P>()
}
