//! C01: point operations agree with an ordered map.
use mc::{cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};

/// Every sequence of operations of a length, each carried out on one map from its making to its end. (The search for states
/// goes on from clones, which would leave behind what a map may remember of its past.)
fn inplace<C: Cfg>(name: &str, which: usize, depth: usize, t: &mut Tally) -> Result<(), String> {
    use Code::*;
    let all = seeds(C::B, C::L);
    let (start, keys) = match all.get(which) {
        Some(s) => (s.ops.clone(), s.keys.clone()),
        None => (vec![], vec![1, 2, 3, 4, 5, 6]),
    };
    // those at both ends and in the middle
    let few: Vec<usize> = if keys.len() > 4 && which < all.len() { [0, keys.len() / 3, keys.len() * 2 / 3, keys.len() - 1].iter().map(|i| keys[*i]).collect() } else { keys.clone() };
    let mut a = vec![op(remove_lowest, 0, 0), op(remove_highest, 0, 0)];
    for &k in &few {
        for c in [insert, remove, insert_recursive] {
            a.push(op(c, k, 0))
        }
        if which < all.len() {
            a.push(op(get_mut, k, 0));
            a.push(op(entry_remove, k, 0));
        }
    }
    let mut at = vec![0; depth];
    loop {
        let what = |e: String| format!("{}: {} then {}: {}", name, show(&start), at.iter().map(|i: &usize| a[*i].to_string()).collect::<Vec<_>>().join("; "), e);
        let (mut tr, mut m) = build::<Key, Val, C>(&start).map_err(what)?;
        for &i in &at {
            note_op(a[i]);
            apply::<Key, Val, C>(&mut tr, &mut m, a[i]).map_err(what)?;
        }
        contents(&tr, &m).map_err(what)?;
        for &k in &keys {
            for k in [k - 1, k, k + 1] {
                let key = Key { k: k as u16, tag: 0 };
                let exp = m.get(k as u16).map(|e| e.v);
                want!(what(format!("get({})", k)), tr.get(&key).map(|v| v.0), exp);
                want!(what(format!("get_linear({})", k)), tr.get_linear(&key).map(|v| v.0), exp);
            }
        }
        // and once more, on what is left of it
        if at.iter().all(|i| *i == at[0]) || at[0] == 0 {
            for &k in &few {
                for c in [remove, insert, entry_insert, get_mut] {
                    apply::<Key, Val, C>(&mut tr, &mut m, op(c, k, 0)).map_err(what)?;
                }
            }
            contents(&tr, &m).map_err(what)?;
        }
        t.evals += 1;
        t.transitions += depth as u64;
        let Some(i) = (0..depth).rev().find(|i| at[*i] + 1 < a.len()) else { break };
        at[i] += 1;
        at[i + 1..].fill(0);
    }
    t.count("sequences carried out in place", (a.len() as u64).pow(depth as u32));
    t.validated += 1;
    Ok(())
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C01";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (11, 5),
            (Tier::Quick, false) => (10, 4),
            (Tier::Thorough, true) => (13, 7),
            (Tier::Thorough, false) => (12, 6),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        v.extend(talls(WIDE, 2));
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        let mut v = vec![];
        for c in ["U4x4", "U5x5", "U5x4", "Y4x4", "S4x4"] {
            let more = (tier == Tier::Thorough) as usize;
            let d = 3 + more + (c.ends_with("4x4") && (checked || c == "U4x4")) as usize;
            for i in 0..seeds(4, 4).len() {
                v.push(format!("inplace {} {} {}", c, i, d));
            }
            v.push(format!("inplace {} empty {}", c, d + 1));
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        with_cfg!(w[1], [U4x4 U5x5 U5x4 Y4x4 S4x4], C => inplace::<C>(name, w[2].parse().unwrap_or(99), w[3].parse().unwrap(), t))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let mut c = s.t.clone();
        let mut m = s.m.clone();
        for &k in s.probes {
            let key = Key { k, tag: 0 };
            let exp = s.m.get(k).map(|e| e.v);
            want!(format!("get({})", k), s.t.get(&key).map(|v| v.0), exp);
            want!(format!("get_linear({})", k), s.t.get_linear(&key).map(|v| v.0), exp);
            if let Some(v) = exp {
                want!(format!("[{}]", k), s.t[&key].0, v);
            }
            apply::<Key, Val, C>(&mut c, &mut m, op(Code::get_mut, k as usize, 0))?;
            apply::<Key, Val, C>(&mut c, &mut m, op(Code::index_mut, k as usize, 0))?;
            t.evals += 5;
        }
        contents(&c, &m).map_err(|e| format!("after updating values in place: {}", e))?;
        contents(s.t, s.m).map_err(|e| format!("after lookups: {}", e))?;
        if let Some(e) = s.m.e.first() {
            t.count(&format!("states of height {}", height(s.t, e.k)), 1);
        } else {
            t.count("empty states", 1);
        }
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
