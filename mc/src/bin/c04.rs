//! C04: consuming iteration hands out every entry exactly once, from both ends, and releases the rest.
use mc::{bounds::*, cfg_dispatch, engine::*, ops::*, plans::*, provided, types::*, want};
use palmtree::OwnedIter;

fn next<K: KT, V: VT, C: Cfg + palmtree::TreeConfig<K, V>>(it: &mut OwnedIter<K, V, C>, back: bool) -> Option<(K, V)> {
    if back {
        it.next_back()
    } else {
        it.next()
    }
}
fn lens<C: Cfg>(it: &OwnedIter<Key, Val, C>, n: usize) -> Result<(), String> {
    want!("len() of a consuming iterator", it.len(), n);
    want!("size_hint() of a consuming iterator", it.size_hint(), (n, Some(n)));
    Ok(())
}
/// Runs one interleaving to the end and past it.
fn run<C: Cfg>(tr: Tree<Key, Val, C>, exp: &[Ent], what: &dyn Fn() -> String, back: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let mut it = tr.into_iter();
    let (mut lo, mut hi) = (0, exp.len());
    for s in 0..exp.len() {
        lens(&it, hi - lo).map_err(|e| format!("{} before step {}: {}", what(), s, e))?;
        let b = back(s);
        let pos = if b {
            hi -= 1;
            hi
        } else {
            lo += 1;
            lo - 1
        };
        want!(format!("{} step {}", what(), s), kv(next(&mut it, b)), Some(want_seen::<Key, Val>(&exp[pos])));
    }
    let first = exp.is_empty() && back(0) || exp.len() > 0 && back(exp.len() - 1);
    for b in [first, !first, !first, first] {
        lens(&it, 0).map_err(|e| format!("{} after exhaustion: {}", what(), e))?;
        want!(format!("{} after exhaustion", what()), kv(next(&mut it, b)), None);
    }
    Ok(())
}
/// Stops after i steps from the front and j from the back, and drops the rest.
fn stop<C: Cfg>(tr: &Tree<LKey, LVal, C>, n: usize, i: usize, j: usize, back_first: bool) -> Result<(), String> {
    let base = ledger_live();
    let mut held = Vec::new();
    {
        let mut it = tr.clone().into_iter();
        let order: [(bool, usize); 2] = if back_first { [(true, j), (false, i)] } else { [(false, i), (true, j)] };
        for (b, c) in order {
            for _ in 0..c {
                held.push(next(&mut it, b).ok_or("ends early")?);
            }
        }
        drop(it);
    }
    let mut live = ledger_live();
    live = (live.0 - base.0, live.1 - base.1);
    want!(format!("keys and values left after taking {} and {} of {} and dropping the iterator", i, j, n), live, (i + j, i + j));
    for (k, v) in &held {
        k.k();
        v.v();
    }
    drop(held);
    want!("keys and values left after dropping what was taken as well", ledger_live(), base);
    ledger_err().map_or(Ok(()), |e| Err(format!("after taking {} from the front and {} from the back: {}", i, j, e)))
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C04";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (10, 3),
            (Tier::Quick, false) => (9, 3),
            (Tier::Thorough, true) => (11, 5),
            (Tier::Thorough, false) => (11, 4),
        };
        let mut v = closures(n);
        if tier == Tier::Quick {
            for p in v.iter_mut().skip(1) {
                *p = closure(p.cfg, 9, 99);
            }
        }
        v.extend(talls(MIXED, d));
        v.extend(talls(WIDE, 1));
        v
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let exp = &s.m.e[..];
        let n = exp.len();
        // every split of the entries between the two ends, either end first
        let splits: Vec<usize> = if n <= 16 { (0..=n).collect() } else { vec![0, 1, n / 3, n / 2, n - 1, n] };
        for &i in &splits {
            run(s.t.clone(), exp, &|| format!("into_iter() taking {} from the front, then from the back", i), &|s| s >= i)?;
            run(s.t.clone(), exp, &|| format!("into_iter() taking {} from the back, then from the front", i), &|s| s < i)?;
            t.evals += 2;
        }
        // every interleaving of short maps, regular ones of longer maps
        let patterns: Vec<u64> = if n <= 5 { (0..1 << n).collect() } else { vec![0x5555_5555_5555_5555, !0x5555_5555_5555_5555, 0x3333_3333_3333_3333, 0xF0F0_F0F0_F0F0_F0F0] };
        for p in patterns {
            run(s.t.clone(), exp, &|| format!("into_iter() with pattern {:b}", p), &|s| p >> (s % 64) & 1 == 1)?;
            t.evals += 1;
        }
        // the iterator's other methods
        provided!(s.t.clone().into_iter(), |(k, v): (Key, Val)| see(&k, &v), exp, points(n, true), || "into_iter()", t);
        for &i in &splits {
            let at = |i: usize| mkv::<Key, Val>(exp.get(i).copied());
            let mut it = s.t.clone().into_iter();
            want!(format!("into_iter().nth({})", i), kv(it.nth(i)), at(i));
            want!(format!("what follows into_iter().nth({})", i), kv(it.next()), at(i + 1));
            lens(&it, n.saturating_sub(i + 2))?;
            let mut it = s.t.clone().into_iter();
            let at = |i: usize| if i < n { at(n - 1 - i) } else { None };
            want!(format!("into_iter().nth_back({})", i), kv(it.nth_back(i)), at(i));
            want!(format!("what follows into_iter().nth_back({})", i), kv(it.next_back()), at(i + 1));
            lens(&it, n.saturating_sub(i + 2))?;
            want!(format!("into_iter().skip({}).count()", i), s.t.clone().into_iter().skip(i).count(), n - i);
        }
        // stopping early, with counted elements
        ledger_reset();
        {
            let (tr, _) = build::<LKey, LVal, C>(s.hist)?;
            for &i in &splits {
                for &j in &splits {
                    if i + j <= n {
                        stop(&tr, n, i, j, false)?;
                        if i > 0 && j > 0 {
                            stop(&tr, n, i, j, true)?;
                        }
                        t.evals += 1;
                        t.count("early stops", 1);
                    }
                }
            }
        }
        want!("keys and values left after everything is dropped", ledger_live(), (0, 0));
        ledger_err().map_or(Ok(()), Err)?;
        contents(s.t, s.m).map_err(|e| format!("the map clones of which were consumed: {}", e))?;
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
