//! C06: every key and value is released exactly once, none early, none leaked.
use mc::{bounds::*, cfg_dispatch, engine::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{PalmTree, TreeConfig};
use std::cell::Cell;

type LTree<C> = Tree<LKey, LVal, C>;

/// Runs `f`, after which every element and every allocation made in it must be gone.
fn balanced(what: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    ledger_reset();
    let base = live_allocs();
    f().map_err(|e| format!("{}: {}", what(), e))?;
    let now = live_allocs();
    if let Some(e) = ledger_err() {
        return Err(format!("{}: {}", what(), e));
    }
    want!(format!("{}: keys and values left when everything is gone", what()), ledger_live(), (0, 0));
    want!(format!("{}: heap blocks left when everything is gone", what()), now - base, 0);
    Ok(())
}
fn healthy(what: &dyn Fn() -> String) -> Result<(), String> {
    ledger_err().map_or(Ok(()), |e| Err(format!("{}: {}", what(), e)))
}
/// Operations tried once on every state, besides those of the alphabet.
fn menu(n: usize, probes: &[u16]) -> Vec<Op> {
    use Code::*;
    let mut v = vec![op(replace_by_clone, 0, 0), op(reload, 0, 0), op(recollect, 0, 0), op(iter_mut_write, 0, 0), op(append_right, 5, 2), op(append_left, 5, 2), op(add_assign, 3, 3), op(append_right, 0, 1)];
    for (i, j) in [(0, 0), (1, 0), (0, 1), (n / 2, 0), (0, n / 2), (n / 2, n / 2), (n, 0), (0, n), (n, 1), (1, n)] {
        v.push(op(consume, i, j));
    }
    let (lo, hi) = (probes[0] as usize, *probes.last().unwrap() as usize);
    v.push(op(range_mut_write, lo + (hi - lo) / 3, hi - (hi - lo) / 3));
    for &k in probes {
        for c in [entry_insert, entry_remove, entry_peek, entry_into_mut, get_mut, index_mut] {
            v.push(op(c, k as usize, 0));
        }
        v.push(op(entry_remove, k as usize, 1));
    }
    v
}
/// The operations between two maps, given up at every point.
fn merges<C: Cfg>(ha: &[Op], hb: &[Op], t: &mut Tally) -> Result<(), String> {
    let show2 = || format!("{} | with {}", show(ha), show(hb));
    let n = {
        let a = build::<LKey, LVal, C>(ha)?.1.e.len();
        a + build::<LKey, LVal, C>(hb)?.1.e.len()
    };
    for what in 0..6 {
        for steps in 0..=(if what < 2 { n + 1 } else { 0 }) {
            balanced(&|| format!("{}: merge {} for {} steps", show2(), what, steps), || {
                let (mut a, _) = build::<LKey, LVal, C>(ha)?;
                let (b, _) = build::<LKey, LVal, C>(hb)?;
                match what {
                    0 | 1 => {
                        let mut left: Box<dyn Iterator<Item = (LKey, LVal)>> = if what == 0 { Box::new(PalmTree::merge_left_iter(a, b)) } else { Box::new(PalmTree::merge_right_iter(a, b)) };
                        for _ in 0..steps {
                            if let Some((k, v)) = left.next() {
                                see(&k, &v);
                            }
                        }
                    }
                    2 => a.append_left(b),
                    3 => a.append_right(b),
                    4 => drop(a + b),
                    _ => a.extend(b),
                }
                Ok(())
            })?;
            t.evals += 1;
        }
    }
    Ok(())
}
fn pairs<C: Cfg>(n: usize, part: usize, parts: usize, t: &mut Tally) -> Result<(), String> {
    let mut scratch = Tally::default();
    let all = collect::<C>(&closure(C::NAME, n, 99), &mut scratch)?;
    t.states += if part == 0 { all.len() as u64 } else { 0 };
    for (i, a) in all.iter().enumerate() {
        if i % parts == part {
            tick();
            for b in &all {
                merges::<C>(&a.2, &b.2, t)?;
                t.transitions += 1;
            }
        }
    }
    Ok(())
}

thread_local! {
    static ZST: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
/// A value without a size, counted.
struct Zero;
impl Zero {
    fn new() -> Self {
        ZST.with(|z| z.set((z.get().0 + 1, z.get().1)));
        Zero
    }
}
impl Clone for Zero {
    fn clone(&self) -> Self {
        Zero::new()
    }
}
impl Drop for Zero {
    fn drop(&mut self) {
        ZST.with(|z| z.set((z.get().0 - 1, z.get().1 + 1)))
    }
}
impl VT for Zero {
    fn mk(_: u32) -> Self {
        Zero::new()
    }
    fn v(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
/// A value that is itself a map, of a few entries.
struct MapVal<C: TreeConfig<u16, BoxVal>>(PalmTree<u16, BoxVal, C>);
impl<C: TreeConfig<u16, BoxVal>> Clone for MapVal<C> {
    fn clone(&self) -> Self {
        MapVal(self.0.clone())
    }
}
impl<C: TreeConfig<u16, BoxVal> + 'static> VT for MapVal<C> {
    fn mk(v: u32) -> Self {
        MapVal((0..v as u16 % 7 + 1).map(|i| (i, BoxVal::mk(v))).collect())
    }
    fn v(&self) -> u32 {
        let v = self.0[&0].v();
        assert!(self.0.len() == v as usize % 7 + 1 && self.0.iter().all(|e| e.1.v() == v), "a torn map inside a map");
        v
    }
    fn set(&mut self, v: u32) {
        for (_, x) in self.0.iter_mut() {
            x.set(v)
        }
        while self.0.len() > v as usize % 7 + 1 {
            self.0.remove_highest();
        }
        for i in self.0.len() as u16..v as u16 % 7 + 1 {
            self.0.insert(i, BoxVal::mk(v));
        }
    }
}
/// Every sequence of operations up to a depth with other element types, whose allocations are counted.
fn layout<K: KT, V: VT, C: Cfg + TreeConfig<K, V>>(seed: &[Op], alphabet: &[Op], depth: usize, t: &mut Tally) -> Result<(), String> {
    fn go<K: KT, V: VT, C: Cfg + TreeConfig<K, V>>(h: &mut Vec<Op>, alphabet: &[Op], depth: usize, t: &mut Tally) -> Result<(), String> {
        tick();
        let z = ZST.with(|z| z.get().0);
        balanced(&|| format!("{} {} with {}/{}: {}", C::NAME, std::any::type_name::<K>(), std::any::type_name::<V>(), depth, show(h)), || {
            let (tr, m) = build::<K, V, C>(h)?;
            contents(&tr, &m)?;
            // half-consume a clone while the original is alive
            let n = m.e.len();
            let mut it = tr.clone().into_iter();
            for _ in 0..n / 2 {
                it.next();
                it.next_back();
            }
            drop(it);
            contents(&tr, &m)
        })?;
        want!(format!("{}: values without a size left over", show(h)), ZST.with(|z| z.get().0), z);
        t.evals += 1;
        t.states += 1;
        if depth > 0 {
            for &o in alphabet {
                h.push(o);
                t.transitions += 1;
                go::<K, V, C>(h, alphabet, depth - 1, t)?;
                h.pop();
            }
        }
        Ok(())
    }
    go::<K, V, C>(&mut seed.to_vec(), alphabet, depth, t)
}
fn layouts<C: Cfg>(which: &str, i: usize, depth: usize, t: &mut Tally) -> Result<(), String>
where
    C: TreeConfig<BoxKey, BoxVal> + TreeConfig<StrKey, StrVal> + TreeConfig<U16Key, Zero> + TreeConfig<BoxKey, Zero> + TreeConfig<BoxKey, PVal> + TreeConfig<StrKey, NoVal> + TreeConfig<PKey, BoxVal> + TreeConfig<U16Key, MapVal<C>> + TreeConfig<u16, BoxVal>,
{
    let s = &seeds(C::B, C::L)[i];
    let mut keys = s.keys.clone();
    let keep = [0, keys.len() / 2, keys.len() - 1];
    keys = keep.iter().map(|i| keys[*i]).collect();
    let a = basic(&keys);
    match which {
        "box" => layout::<BoxKey, BoxVal, C>(&s.ops, &a, depth, t),
        "str" => layout::<StrKey, StrVal, C>(&s.ops, &a, depth, t),
        "zero" => layout::<U16Key, Zero, C>(&s.ops, &a, depth, t),
        "boxzero" => layout::<BoxKey, Zero, C>(&s.ops, &a, depth, t),
        // elements of which only one side, or neither, needs destruction
        "boxplain" => layout::<BoxKey, PVal, C>(&s.ops, &a, depth, t),
        "strnone" => layout::<StrKey, NoVal, C>(&s.ops, &a, depth, t),
        "plainbox" => layout::<PKey, BoxVal, C>(&s.ops, &a, depth, t),
        "plain" => layout::<PKey, PVal, C>(&s.ops, &a, depth, t),
        "map" => layout::<U16Key, MapVal<C>, C>(&s.ops, &a, depth, t),
        _ => panic!("no such layout"),
    }
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C06";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 CU4x4 CS4x4 CU5x4 CS4x5 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (9, 3),
            (Tier::Quick, false) => (9, 3),
            (Tier::Thorough, true) => (11, 4),
            (Tier::Thorough, false) => (10, 4),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        for c in ["CU4x4", "CS4x4"] {
            v.push(closure(c, n - 1, 99));
        }
        v.extend(talls(&[("CU5x4", 5, 4), ("CS4x5", 4, 5)], d));
        v.extend(talls(WIDE, 1));
        v
    }
    fn jobs(tier: Tier, _: bool) -> Vec<String> {
        let (n, parts, d) = if tier == Tier::Quick { (4, 8, 2) } else { (5, 64, 3) };
        let mut v = vec![];
        for c in ["U4x4", "S4x4", "Y4x4", "U5x5", "CU4x4", "CS4x4"] {
            for p in 0..parts {
                v.push(format!("pairs {} {} {} {}", c, n, p, parts));
            }
            for w in ["box", "str", "zero", "boxzero", "boxplain", "strnone", "plainbox", "plain", "map"] {
                for i in 0..13 {
                    v.push(format!("layout {} {} {} {}", c, w, i, d));
                }
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let x = |i: usize| w[i].parse::<usize>().unwrap();
        with_cfg!(w[1], [U4x4 S4x4 Y4x4 U5x5 CU4x4 CS4x4], C => match w[0] {
            "pairs" => pairs::<C>(x(2), x(3), x(4), t),
            _ => layouts::<C>(w[2], x(3), x(4), t),
        })
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let n = s.m.e.len();
        let shared = C::SHARED;
        let m2 = menu(n, s.probes);
        let all = basic(&s.probes.iter().map(|k| *k as usize).collect::<Vec<_>>()).into_iter().chain(m2).collect::<Vec<_>>();
        balanced(&|| "the history itself".into(), || {
            let (tr, m) = build::<LKey, LVal, C>(s.hist)?;
            contents(&tr, &m)?;
            want!("values alive while the map holds all of them", ledger_live().1, n);
            if ledger_live().0 < n {
                return Err(format!("{} keys alive in a map of {}", ledger_live().0, n));
            }
            let base = ledger_live();
            let blocks = live_allocs();
            // every operation on a clone, the original alive beside it
            for &o in &all {
                {
                    let mut c: LTree<C> = tr.clone();
                    let mut cm = Model { e: m.e.clone(), ctr: m.ctr };
                    note_op(o);
                    apply::<LKey, LVal, C>(&mut c, &mut cm, o)?;
                    contents(&c, &cm).map_err(|e| format!("after {}: {}", o, e))?;
                    healthy(&|| format!("{}", o))?;
                    let v = ledger_live().1;
                    if !shared {
                        want!(format!("values alive after {} on a clone", o), v, n + cm.e.len());
                    } else if v < n.max(cm.e.len()) || v > n + cm.e.len() {
                        return Err(format!("{} values alive after {} on a clone of a map of {}", v, o, n));
                    }
                }
                want!(format!("keys and values left after {} on a clone and dropping it", o), ledger_live(), base);
                want!(format!("heap blocks left after {} on a clone and dropping it", o), live_allocs(), blocks);
                healthy(&|| format!("{} on a clone and dropping it", o))?;
                t.evals += 1;
            }
            contents(&tr, &m).map_err(|e| format!("after working on clones: {}", e))
        })?;
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    quarantine();
    main_for::<P>()
}
