//! C12: a panic in user code, at any point of any operation, never corrupts memory.
use mc::{bounds::*, cfg_dispatch, engine::*, faults::*, ops::*, plans::*, types::*, want, with_cfg};
use palmtree::{PalmTree, TreeConfig};

fn same<C: Cfg>(t: &LTree<C>, m: &Model, probes: &[u16]) -> Result<(), String> {
    contents(t, m)?;
    for &k in probes {
        want!(format!("get({})", k), t.get(&LKey::mk(k, 0)).map(|v| v.v()), m.get(k).map(|e| e.v));
    }
    Ok(())
}
/// One operation, interrupted at every call it makes.
fn points<C: Cfg>(orig: &LTree<C>, make: &dyn Fn() -> Result<LTree<C>, String>, m: &Model, f: F, probes: &[u16], t: &mut Tally) -> Result<(), String> {
    let mut p = 0;
    loop {
        tick();
        let mut c = make()?;
        let (end, calls) = armed(p, |_| {}, || raw(&mut c, f));
        let what = |e: String| format!("{:?} interrupted at call {}: {}", f, p, e);
        t.evals += 1;
        let done = match end {
            // an operation may also have carried on regardless
            End::Done => calls <= p,
            End::Injected => false,
            End::Runaway => return Err(what("does not terminate".into())),
            End::Other(e) => return Err(what(format!("a different panic: {}", e))),
            End::Bad(e) => return Err(what(e)),
        };
        if let Some(e) = ledger_err() {
            return Err(what(e));
        }
        if !done {
            t.count("distinct non-trivial", 1);
            if f.reads_only() {
                same(&c, m, probes).map_err(|e| what(format!("the map changed: {}", e)))?;
            }
        }
        same(orig, m, &[]).map_err(|e| what(format!("the map it was cloned from changed: {}", e)))?;
        aftermath(c, probes, true).map_err(what)?;
        if let Some(e) = ledger_err() {
            return Err(what(format!("in what was done with the map later: {}", e)));
        }
        same(orig, m, &[]).map_err(|e| what(format!("the map it was cloned from changed later: {}", e)))?;
        if done {
            return Ok(());
        }
        p += 1;
    }
}
/// One operation, with a panic in the destruction of each element that is destroyed meanwhile. That may cost entries and
/// more, but not memory safety.
fn drops<C: Cfg>(orig: &LTree<C>, m: &Model, f: F, probes: &[u16], t: &mut Tally) -> Result<(), String> {
    for p in 0.. {
        tick();
        let mut c = orig.clone();
        let (end, _) = armed(u64::MAX, |x| x.drop_at.set(p), || raw(&mut c, f));
        let what = |e: String| format!("{:?} with a panic in the {}th destruction: {}", f, p, e);
        t.evals += 1;
        match end {
            End::Done | End::Injected => {}
            End::Runaway => return Err(what("does not terminate".into())),
            End::Other(e) => return Err(what(format!("a different panic: {}", e))),
            End::Bad(e) => return Err(what(e)),
        }
        let fired = FAULTS.with(|x| x.drops.get()) > p;
        if let Some(e) = ledger_err() {
            return Err(what(e));
        }
        if fired {
            t.count("panics in destructors", 1);
            same(orig, m, &[]).map_err(|e| what(format!("the map it was cloned from changed: {}", e)))?;
            aftermath(c, probes, false).map_err(what)?;
            if let Some(e) = ledger_err() {
                return Err(what(format!("in what was done with the map later: {}", e)));
            }
        } else {
            break;
        }
    }
    Ok(())
}
/// A key which may be copied, and whose comparisons and clones are calls into user code.
#[derive(Copy, Debug)]
struct Bit(u16);
#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Bit {
    fn clone(&self) -> Bit {
        call();
        *self
    }
}
impl PartialEq for Bit {
    fn eq(&self, o: &Bit) -> bool {
        call();
        self.0 == o.0
    }
}
impl Eq for Bit {}
impl PartialOrd for Bit {
    fn partial_cmp(&self, o: &Bit) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bit {
    fn cmp(&self, o: &Bit) -> std::cmp::Ordering {
        call();
        self.0.cmp(&o.0)
    }
}
/// The operations only copyable elements have, interrupted at every call, on every pair of loaded maps up to a size.
fn copies<C: TreeConfig<Bit, u16>, D: TreeConfig<Bit, u16>>(n: u16, t: &mut Tally) -> Result<(), String> {
    let fill = |n: u16, d: u16, o: u16| (0..n).map(move |i| (i * d + o, i));
    for a in 0..=n {
        for b in 0..=n {
            for (d, o) in [(2, 0), (1, 3), (2, 1)] {
                for kind in 0..4 {
                    for p in 0.. {
                        tick();
                        let mut x: PalmTree<Bit, u16, C> = PalmTree::load(fill(a, 2, 0).map(|e| (Bit(e.0), e.1)));
                        let y: PalmTree<Bit, u16, D> = PalmTree::load(fill(b, d, o).map(|e| (Bit(e.0), e.1)));
                        let keep = x.clone();
                        let (end, calls) = armed(p, |_| {}, || {
                            match kind {
                                0 => x += &y,
                                1 => x.extend(&y),
                                2 => x = std::mem::take(&mut x) + &y,
                                _ => x.extend(y.iter().rev().map(|(k, v)| (*k, *v))),
                            }
                            Ok(())
                        });
                        t.evals += 1;
                        let what = |e: String| format!("{} entries {} {} entries ({} apart from {}), interrupted at call {}: {}", a, ["+=", "extended by", "+", "extended backwards by"][kind], b, d, o, p, e);
                        match end {
                            End::Done | End::Injected => {}
                            End::Other(e) => return Err(what(format!("a different panic: {}", e))),
                            _ => return Err(what("does not terminate".into())),
                        }
                        want!(what("the other map".into()), y.iter().map(|(k, v)| (k.0, *v)).collect::<Vec<_>>(), fill(b, d, o).collect::<Vec<_>>());
                        want!(what("the map's clone".into()), keep.iter().map(|(k, v)| (k.0, *v)).collect::<Vec<_>>(), fill(a, 2, 0).collect::<Vec<_>>());
                        let after = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| usable(&mut x)));
                        after.unwrap_or_else(|p| Err(format!("using the map panics: {}", panic_text(p)))).map_err(what)?;
                        if calls <= p {
                            break;
                        }
                        t.count("distinct non-trivial", 1);
                    }
                }
            }
        }
    }
    t.validated += 1;
    Ok(())
}
/// A map that agrees with itself about what it holds, and takes and gives up entries.
fn usable<C: TreeConfig<Bit, u16>>(x: &mut PalmTree<Bit, u16, C>) -> Result<(), String> {
    let mut m: std::collections::BTreeMap<u16, u16> = x.iter().map(|(k, v)| (k.0, *v)).collect();
    want!("the length afterwards", x.len(), x.iter().count());
    want!("the keys afterwards are sorted", x.len(), m.len());
    for (k, v) in &m {
        want!("lookup afterwards", x.get(&Bit(*k)), Some(v));
    }
    for k in [5, 0, 1000] {
        want!("insertion afterwards", x.insert(Bit(k), k), m.insert(k, k));
    }
    for k in [3, 5, 500] {
        want!("removal afterwards", x.remove(&Bit(k)).map(|e| e.1), m.remove(&k));
    }
    want!("contents in the end", x.iter().map(|(k, v)| (k.0, *v)).collect::<Vec<_>>(), m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>());
    while let Some((k, v)) = x.remove_highest() {
        want!("draining afterwards", Some((k.0, v)), m.pop_last());
    }
    want!("draining afterwards", m.len(), 0);
    Ok(())
}
pub struct P;
impl Prop for P {
    const ID: &'static str = "C12";
    const SHARDS: usize = 4;
    cfg_dispatch!([U4x4 U5x5 U4x5 U5x4 S4x4 Y4x4 CU4x4 CS4x4]);
    fn plans(tier: Tier, checked: bool) -> Vec<Plan> {
        let (n, d) = match (tier, checked) {
            (Tier::Quick, true) => (7, 1),
            (Tier::Quick, false) => (7, 1),
            (Tier::Thorough, true) => (9, 2),
            (Tier::Thorough, false) => (8, 2),
        };
        let mut v = vec![];
        for (c, less) in [("U4x4", 0), ("U5x5", 1), ("U5x4", 1), ("Y4x4", 1), ("S4x4", 2), ("CU4x4", 2), ("CS4x4", 2)] {
            v.push(closure(c, n - less, 99));
        }
        v.extend(talls(&[("U4x4", 4, 4), ("U5x4", 5, 4)], d));
        v.extend(talls(&[("Y4x4", 4, 4), ("S4x4", 4, 4), ("U5x5", 5, 5), ("CS4x4", 4, 4)], d - 1));
        v
    }
    fn jobs(tier: Tier, _: bool) -> Vec<String> {
        let n = if tier == Tier::Quick { 14 } else { 26 };
        let mut v = vec![];
        for c in ["U4x4", "U5x5", "S4x4", "Y4x4"] {
            for d in ["U4x4", "U5x5"] {
                v.push(format!("copies {} {} {}", c, d, n));
            }
        }
        v
    }
    fn job(name: &str, t: &mut Tally) -> Result<(), String> {
        let w: Vec<&str> = name.split(' ').collect();
        let n = w[3].parse().unwrap();
        with_cfg!(w[1], [U4x4 U5x5 S4x4 Y4x4], C => with_cfg!(w[2], [U4x4 U5x5], D => copies::<C, D>(n, t)))
    }
    fn state<C: Cfg>(s: &St<C>, t: &mut Tally) -> Result<(), String> {
        let before = t.evals;
        let shared = C::SHARED;
        ledger_reset();
        let (orig, m) = build::<LKey, LVal, C>(s.hist)?;
        for f in menu(s.probes, s.probes.len() > 16) {
            // a clone: for the shared kinds one that shares its root with the original
            points(&orig, &|| Ok(orig.clone()), &m, f, s.probes, t)?;
            drops(&orig, &m, f, s.probes, t)?;
            if shared {
                points(&orig, &|| Ok(build::<LKey, LVal, C>(s.hist)?.0), &m, f, s.probes, t)?;
            }
        }
        t.count(&format!("evals {}", C::NAME), t.evals - before);
        count_state(s, t);
        Ok(())
    }
}
fn main() {
    quarantine();
    main_for::<P>()
}
