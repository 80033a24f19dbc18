//! C08: entries point at the right slot and edit exactly it.
use mc::{bounds::*, cfg_dispatch, engine::*, inplace, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::Entry;

/// Every sequence of steps on one map, all but the first through entries, or as likely to matter to them.
fn in_place<C: Cfg>(name: &str, which: &str, depth: usize, t: &mut Tally) -> Result<(), String> {
    use Code::*;
    let (start, keys) = inplace::start::<C>(which);
    let mut last = inplace::ops_on(&[entry_insert, entry_remove, entry_peek, entry_into_mut], &keys);
    let mut before = last.clone();
    before.extend(inplace::ops_on(&[insert, remove], &keys));
    before.extend(inplace::ops_on(&[remove_lowest, remove_highest], &[0]));
    last.extend(inplace::ops_on(&[entry_get_mut], &keys));
    inplace::sequences::<C>(name, &start, &keys, depth, &before, &last, t)
}

pub struct P;
impl Prop for P {
    const ID: &'static str = "C08";
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 U6x6 U7x7 S4x4 Y4x4 T64U]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (10, 4),
            (Tier::Quick, false) => (9, 4),
            (Tier::Thorough, true) => (12, 6),
            (Tier::Thorough, false) => (11, 6),
        };
        let mut v = closures(n);
        v.extend(talls(MIXED, d));
        v.extend(talls(WIDE, 2));
        for p in &mut v {
            // move through the state space by entries
            for o in p.alphabet.iter_mut() {
                match o.c {
                    Code::insert => o.c = Code::entry_insert,
                    Code::remove => {
                        o.c = Code::entry_remove;
                        o.b = o.a % 2
                    }
                    _ => {}
                }
            }
        }
        v
    }
    fn jobs(tier: Tier, checked: bool) -> Vec<String> {
        inplace::jobs(tier, checked)
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        with_cfg!(w[1], [U4x4 U5x4 Y4x4 S4x4], C => in_place::<C>(name, w[2], w[3].parse().unwrap(), t))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let before = fingerprint(s.t, s.probes);
        for &k in s.probes {
            // looking at an entry and letting go of it changes nothing
            let mut c = s.t.clone();
            let mut m = s.m.clone();
            let a = k as usize;
            apply::<Key, Val, C>(&mut c, &mut m, op(Code::entry_peek, a, 0))?;
            if let Entry::Vacant(e) = c.entry(Key::mk(k, 3)) {
                want!("into_key", (e.into_key().tag, m.get(k).is_none()), (3, true));
            }
            contents(&c, s.m).map_err(|e| format!("after looking at entry({}): {}", k, e))?;
            want!(format!("lookups after looking at entry({})", k), fingerprint(&c, s.probes), before);
            // updates in place, one after the other, while the entry stays occupied
            for o in [Code::entry_get_mut, Code::entry_into_mut] {
                apply::<Key, Val, C>(&mut c, &mut m, op(o, a, 0))?;
                contents(&c, &m).map_err(|e| format!("after {} {}: {}", o.name(), k, e))?;
            }
            if let Entry::Occupied(mut e) = c.entry(Key::mk(k, 9)) {
                // a chain on one entry
                let old = m.get(k).ok_or("an occupied entry for an absent key")?.v;
                want!("first replacement", e.insert(Val(50_000)).0, old);
                want!("second replacement", e.insert(Val(50_001)).0, 50_000);
                *e.get_mut() = Val(50_002);
                want!("key after replacements", (e.key().k, e.key().tag), (k, m.get(k).unwrap().tag));
                want!("removal after replacements", { let (k, v) = e.remove_entry(); (k.k, v.0) }, (k, 50_002));
                m.remove(k);
                contents(&c, &m).map_err(|e| format!("after replacing and removing through entry({}): {}", k, e))?;
                // and back again: the entry must now be vacant
                apply::<Key, Val, C>(&mut c, &mut m, op(Code::entry_insert, a, 0))?;
                contents(&c, &m).map_err(|e| format!("after removing and inserting through entry({}): {}", k, e))?;
                t.count("occupied chains", 1);
            } else {
                want!(format!("entry({}) is vacant", k), true, m.get(k).is_none());
                // the reference returned stays good for more than one write
                match c.entry(Key::mk(k, 9)) {
                    Entry::Vacant(e) => {
                        let r = e.insert(Val(60_000));
                        want!("value behind the returned reference", r.0, 60_000);
                        r.0 = 60_001;
                        r.0 += 1;
                        m.insert(k, 9, 60_002);
                    }
                    _ => return Err(format!("entry({}) became occupied by itself", k)),
                }
                contents(&c, &m).map_err(|e| format!("after inserting through entry({}): {}", k, e))?;
                want!(format!("get({}) after inserting through its entry", k), c.get(&Key::mk(k, 0)).map(|v| v.0), Some(60_002));
                apply::<Key, Val, C>(&mut c, &mut m, op(Code::entry_remove, a, 1))?;
                contents(&c, &m).map_err(|e| format!("after inserting and removing through entry({}): {}", k, e))?;
                t.count("vacant chains", 1);
            }
            t.evals += 6;
            for &q in s.probes {
                want!(format!("get({}) after working through entry({})", q, k), c.get(&Key::mk(q, 0)).map(|v| v.0), m.get(q).map(|e| e.v));
            }
        }
        contents(s.t, s.m).map_err(|e| format!("the map a clone of which was worked on: {}", e))?;
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    main_for::<P>()
}
