//! C15: whatever a key's comparison answers, the map never touches foreign memory and always terminates.
use mc::{bounds::*, cfg_dispatch, engine::*, faults::*, ops::*, plans::*, types::*};

const NEVER: u64 = u64::MAX;

struct Lies {
    single: [(u64, i8); 3],
    tail: (u64, i8),
}
/// One operation under one assignment of false answers, then honest (or still dishonest) use of what is left.
/// Returns the number of calls and of answers that were false.
fn one<C: Cfg>(orig: &LTree<C>, m: &Model, f: F, l: &Lies, probes: &[u16], after: i8, t: &mut Tally) -> Result<(u64, u64), String> {
    tick();
    let what = |e: String| format!("{:?} under lies {:?} and from call {} on {}: {}", f, l.single.iter().filter(|x| x.0 != NEVER).collect::<Vec<_>>(), l.tail.0 as i64, l.tail.1, e);
    let mut c = orig.clone();
    let (end, calls) = armed(NEVER, |x| {
        x.lies.set(l.single);
        x.tail.set(l.tail);
    }, || raw(&mut c, f));
    let told = FAULTS.with(|x| x.told.get());
    t.evals += 1;
    match end {
        End::Done | End::Other(_) => {}
        End::Injected => return Err(what("unexpected panic".into())),
        End::Runaway => return Err(what("does not terminate".into())),
        End::Bad(e) => return Err(what(e)),
    }
    if let Some(e) = ledger_err() {
        return Err(what(e));
    }
    if told > 0 {
        t.count("distinct non-trivial", 1);
        let (end, _) = if after == 0 {
            armed(NEVER, |_| {}, || aftermath(c, probes, false))
        } else {
            armed(NEVER, |x| x.tail.set((0, after)), || aftermath(c, probes, false))
        };
        match end {
            End::Done => {}
            End::Bad(e) => return Err(what(e)),
            End::Runaway => return Err(what("what is done with the map later does not terminate".into())),
            End::Injected | End::Other(_) => return Err(what("destroying the map panics".into())),
        }
        if let Some(e) = ledger_err() {
            return Err(what(format!("in what was done with the map later: {}", e)));
        }
        contents(orig, m).map_err(|e| what(format!("the map it was cloned from changed: {}", e)))?;
    }
    Ok((calls, told))
}
fn lies(a: &[(u64, i8)]) -> Lies {
    let mut s = [(NEVER, 0); 3];
    s[..a.len()].copy_from_slice(a);
    Lies { single: s, tail: (NEVER, 0) }
}
fn all_lies<C: Cfg>(orig: &LTree<C>, m: &Model, f: F, probes: &[u16], pairs: bool, t: &mut Tally) -> Result<(), String> {
    let (calls, _) = one(orig, m, f, &lies(&[]), probes, 0, t)?;
    for p in 0..calls {
        for a in 1..=2 {
            let (n, told) = one(orig, m, f, &lies(&[(p, a)]), probes, 0, t)?;
            if told == 0 {
                break; // not a comparison
            }
            if pairs {
                for q in p + 1..n {
                    for b in 1..=2 {
                        if one(orig, m, f, &lies(&[(p, a), (q, b)]), probes, 0, t)?.1 < 2 {
                            break;
                        }
                    }
                }
            }
        }
        for how in 1..=5 {
            let l = Lies { single: [(NEVER, 0); 3], tail: (p, how) };
            one(orig, m, f, &l, probes, 0, t)?;
            if p == 0 {
                for after in 1..=5 {
                    one(orig, m, f, &l, probes, after, t)?;
                }
            }
        }
    }
    Ok(())
}
pub struct P;
impl Prop for P {
    const ID: &'static str = "C15";
    const SHARDS: usize = 4;
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 S4x4 Y4x4 CU4x4 CS4x4]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, _) => (6, 0),
            (Tier::Thorough, true) => (8, 1),
            (Tier::Thorough, false) => (7, 1),
        };
        let mut v = vec![];
        for (c, less) in [("U4x4", 0), ("U5x5", 1), ("U5x4", 1), ("Y4x4", 2), ("S4x4", 2), ("CU4x4", 2), ("CS4x4", 2)] {
            v.push(closure(c, n - less, 99));
        }
        v.extend(talls(&[("U4x4", 4, 4), ("U5x4", 5, 4), ("Y4x4", 4, 4), ("U5x5", 5, 5)], d));
        v
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        ledger_reset();
        let (orig, m) = build::<LKey, LVal, C>(s.hist)?;
        let pairs = s.probes.len() <= 6;
        for f in menu(s.probes, s.probes.len() > 16) {
            all_lies(&orig, &m, f, s.probes, pairs, t)?;
        }
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    quarantine();
    main_for::<P>()
}
