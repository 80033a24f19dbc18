//! C18: what is handed out by reference neither outlives nor aliases what it refers to, in any program that compiles.
//!
//! Programs of a few statements on a map and on what it hands out are enumerated, each judged by a model of which
//! borrows are live, and all given to the compiler. A program refused by the model must be refused by the compiler,
//! for its borrows, and one the model accepts must be accepted.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Ty {
    /// A map, owned by the program.
    Map,
    It,
    Im,
    Ow,
    En,
    Oc,
    Va,
    /// Something that can be copied, such as a shared reference.
    Rs,
    /// Something else that can only be used up.
    Rx,
    No,
}
use Ty::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Access {
    /// Reads its place.
    S,
    /// Changes its place or has the exclusive use of it.
    X,
    /// Takes its place away.
    M,
    /// Puts a new value there.
    A,
}
use Access::*;
struct OpDef {
    on: Ty,
    text: &'static str,
    access: Access,
    /// The result borrows the place it comes from: shared, exclusively or not.
    loan: Option<Access>,
    /// The result borrows whatever its place borrows.
    carry: bool,
    out: Ty,
    /// Represents those like it in longer programs.
    rep: bool,
}
const fn op(on: Ty, text: &'static str, access: Access, loan: Option<Access>, carry: bool, out: Ty, rep: bool) -> OpDef {
    OpDef { on, text, access, loan, carry, out, rep }
}
/// `$` is the place. Everything but maps and what can be copied is kept in a `ManuallyDrop` (`D` in, `I` out), so that
/// only what a program says counts as use.
const OPS: &[OpDef] = &[
    // what can be used up or looked at
    op(Map, "use_($);", M, None, false, No, true),
    op(It, "use_($);", M, None, false, No, true),
    op(Im, "use_($);", M, None, false, No, true),
    op(Ow, "use_($);", M, None, false, No, true),
    op(En, "use_($);", M, None, false, No, true),
    op(Oc, "use_($);", M, None, false, No, true),
    op(Va, "use_($);", M, None, false, No, true),
    op(Rx, "use_($);", M, None, false, No, true),
    op(Rs, "use_($);", S, None, false, No, true),
    // references out of a map
    op(Map, "$.get(&1)", S, Some(S), true, Rs, true),
    op(Map, "$.get_linear(&1)", S, Some(S), true, Rs, false),
    op(Map, "Some(&$[&1])", S, Some(S), true, Rs, false),
    op(Map, "$.iter().next()", S, Some(S), true, Rs, false),
    op(Map, "$.iter().next_back()", S, Some(S), true, Rs, false),
    op(Map, "$.range(1..).next()", S, Some(S), true, Rs, false),
    op(Map, "$.range(..=1).next_back()", S, Some(S), true, Rs, false),
    op(Map, "(&$).into_iter().last()", S, Some(S), true, Rs, false),
    op(Map, "$.iter().map(|(k, _)| k).max()", S, Some(S), true, Rs, false),
    op(Map, "D($.iter().collect::<Vec<_>>())", S, Some(S), true, Rx, false),
    op(Map, "D($.iter().rev())", S, Some(S), true, Rx, false),
    op(Map, "D($.range(1..).map(|(_, v)| v))", S, Some(S), true, Rx, false),
    op(Map, "D($.get_mut(&1))", X, Some(X), true, Rx, true),
    op(Map, "D(&mut $[&1])", X, Some(X), true, Rx, false),
    op(Map, "D($.iter_mut().next())", X, Some(X), true, Rx, false),
    op(Map, "D($.iter_mut().next_back())", X, Some(X), true, Rx, false),
    op(Map, "$.iter_mut().map(|(k, _)| k).next()", X, Some(X), true, Rs, false),
    op(Map, "D($.range_mut(1..).next())", X, Some(X), true, Rx, false),
    op(Map, "D($.range_mut(..1).next_back())", X, Some(X), true, Rx, false),
    op(Map, "D((&mut $).into_iter().last())", X, Some(X), true, Rx, false),
    op(Map, "D($.iter_mut().collect::<Vec<_>>())", X, Some(X), true, Rx, false),
    op(Map, "D($.iter_mut().rev())", X, Some(X), true, Rx, false),
    op(Map, "D($.range_mut(..).map(|(_, v)| v))", X, Some(X), true, Rx, false),
    op(Map, "D(match $.entry(1) { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(1) })", X, Some(X), true, Rx, false),
    // iterators and entries
    op(Map, "D($.iter())", S, Some(S), true, It, true),
    op(Map, "D($.range(..))", S, Some(S), true, It, false),
    op(Map, "D($.range(1..))", S, Some(S), true, It, false),
    op(Map, "D((&$).into_iter())", S, Some(S), true, It, false),
    op(Map, "D($.iter_mut())", X, Some(X), true, Im, true),
    op(Map, "D($.range_mut(..))", X, Some(X), true, Im, false),
    op(Map, "D($.range_mut(1..))", X, Some(X), true, Im, false),
    op(Map, "D((&mut $).into_iter())", X, Some(X), true, Im, false),
    op(Map, "D($.entry(1))", X, Some(X), true, En, true),
    op(Map, "D(match $.entry(1) { Entry::Occupied(o) => o, _ => return })", X, Some(X), true, Oc, true),
    op(Map, "D(match $.entry(1) { Entry::Vacant(v) => v, _ => return })", X, Some(X), true, Va, true),
    // looking at a map
    op(Map, "$.len();", S, None, false, No, true),
    op(Map, "$.is_empty();", S, None, false, No, false),
    op(Map, "$.get(&1).copied();", S, None, false, No, false),
    op(Map, "$.iter().count();", S, None, false, No, false),
    op(Map, "$ == mk();", S, None, false, No, false),
    op(Map, "mk() < $;", S, None, false, No, false),
    op(Map, "$.cmp(&mk());", S, None, false, No, false),
    op(Map, "hash(&$);", S, None, false, No, false),
    op(Map, "format!(\"{:?}\", $);", S, None, false, No, false),
    op(Map, "mk() + &$;", S, None, false, No, false),
    op(Map, "$.clone()", S, None, false, Map, true),
    op(Map, "D($.clone().into_iter())", S, None, false, Ow, false),
    op(Map, "mk().extend(&$);", S, None, false, No, false),
    // changing it
    op(Map, "$.insert(1, 1);", X, None, false, No, true),
    op(Map, "$.insert_recursive(1, 1);", X, None, false, No, false),
    op(Map, "$.remove(&1);", X, None, false, No, false),
    op(Map, "$.remove_lowest();", X, None, false, No, false),
    op(Map, "$.remove_highest();", X, None, false, No, false),
    op(Map, "$.append_left(mk());", X, None, false, No, false),
    op(Map, "$.append_right(mk());", X, None, false, No, false),
    op(Map, "$.extend(vec![(1, 1)]);", X, None, false, No, false),
    op(Map, "$ += mk();", X, None, false, No, false),
    op(Map, "$ += &mk();", X, None, false, No, false),
    op(Map, "$[&1] = 1;", X, None, false, No, false),
    op(Map, "std::mem::swap(&mut $, &mut mk());", X, None, false, No, false),
    op(Map, "std::mem::take(&mut $)", X, None, false, Map, true),
    op(Map, "$ = mk();", A, None, false, No, true),
    // taking it away
    op(Map, "drop($);", M, None, false, No, false),
    op(Map, "$", M, None, false, Map, true),
    op(Map, "D($.into_iter())", M, None, false, Ow, true),
    op(Map, "M::merge_left($, mk())", M, None, false, Map, false),
    op(Map, "M::merge_right(mk(), $)", M, None, false, Map, false),
    op(Map, "D(M::merge_left_iter(mk(), $))", M, None, false, Rx, false),
    op(Map, "D(M::merge_right_iter($, mk()))", M, None, false, Rx, false),
    op(Map, "$ + mk()", M, None, false, Map, false),
    op(Map, "mk() + $", M, None, false, Map, false),
    op(Map, "$ + &mk()", M, None, false, Map, false),
    op(Map, "mk().append_left($);", M, None, false, No, false),
    op(Map, "mk().append_right($);", M, None, false, No, false),
    op(Map, "mk().extend($);", M, None, false, No, false),
    op(Map, "M::load($)", M, None, false, Map, false),
    op(Map, "(move || $.len())();", M, None, false, No, false),
    // using an iterator
    op(It, "$.next()", X, None, true, Rs, true),
    op(It, "$.next_back()", X, None, true, Rs, false),
    op(It, "$.nth(1)", X, None, true, Rs, false),
    op(It, "D(I($).clone())", M, None, true, It, false),
    op(It, "D((*$).clone())", S, None, true, It, true),
    op(It, "D($.by_ref())", X, Some(X), true, Rx, true),
    op(It, "format!(\"{:?}\", $);", S, None, false, No, false),
    op(It, "D(I($).rev())", M, None, true, Rx, true),
    op(It, "I($).count();", M, None, false, No, false),
    op(Im, "D($.next())", X, None, true, Rx, true),
    op(Im, "D($.next_back())", X, None, true, Rx, true),
    op(Im, "D($.nth(1))", X, None, true, Rx, false),
    op(Im, "D($.by_ref())", X, Some(X), true, Rx, true),
    op(Im, "format!(\"{:?}\", $);", S, None, false, No, false),
    op(Im, "D(I($).rev())", M, None, true, Rx, false),
    op(Im, "D(I($).collect::<Vec<_>>())", M, None, true, Rx, true),
    op(Im, "I($).for_each(|(_, v)| *v = 1);", M, None, false, No, false),
    op(Ow, "$.next();", X, None, false, No, true),
    op(Ow, "$.next_back();", X, None, false, No, false),
    op(Ow, "$.len();", S, None, false, No, true),
    op(Ow, "D($.by_ref())", X, Some(X), true, Rx, true),
    op(Ow, "I($).collect::<M>()", M, None, true, Map, false),
    // using an entry
    op(En, "D(match I($) { Entry::Occupied(o) => o, _ => return })", M, None, true, Oc, true),
    op(En, "D(match I($) { Entry::Vacant(v) => v, _ => return })", M, None, true, Va, true),
    op(En, "match &*$ { Entry::Occupied(o) => o.get(), Entry::Vacant(v) => v.key() }", S, Some(S), true, Rs, false),
    op(En, "D(match &mut *$ { Entry::Occupied(o) => o.get_mut(), _ => return })", X, Some(X), true, Rx, false),
    op(Oc, "$.key()", S, Some(S), true, Rs, true),
    op(Oc, "$.get()", S, Some(S), true, Rs, true),
    op(Oc, "D($.get_mut())", X, Some(X), true, Rx, true),
    op(Oc, "$.insert(1);", X, None, false, No, true),
    op(Oc, "format!(\"{:?}\", $);", S, None, false, No, false),
    op(Oc, "I($).remove();", M, None, false, No, true),
    op(Oc, "I($).remove_entry();", M, None, false, No, false),
    op(Oc, "D(I($).into_mut())", M, None, true, Rx, true),
    op(Va, "$.key()", S, Some(S), true, Rs, true),
    op(Va, "format!(\"{:?}\", $);", S, None, false, No, false),
    op(Va, "I($).into_key();", M, None, false, No, false),
    op(Va, "D(I($).insert(1))", M, None, true, Rx, true),
];
/// A statement: an operation on a place. Place 0 is the map the program is given, others are what was made on the way.
type Stmt = (u8, u8);

struct Var {
    ty: Ty,
    /// Places borrowed, and how.
    loans: Vec<(u8, Access)>,
    made: usize,
}
/// Which statement is wrong, and why, or the places in existence after the last one.
fn judge(p: &[Stmt]) -> Result<Vec<Var>, String> {
    let mut v = vec![Var { ty: Map, loans: vec![], made: 0 }];
    let mut gone = vec![false];
    // The places each statement uses, to know which are used later on.
    for (i, (o, at)) in p.iter().enumerate() {
        let (d, at) = (&OPS[*o as usize], *at as usize);
        debug_assert!(v[at].ty == d.on);
        if gone[at] && d.access != A {
            return Err(format!("statement {} uses what was taken away", i + 1));
        }
        for (w, var) in v.iter().enumerate() {
            // Not yet put to rest: mentioned again before a new value is put there.
            let later = p[i + 1..].iter().find(|(_, q)| *q as usize == w).is_some_and(|(o, _)| OPS[*o as usize].access != A);
            if !later || var.made > i {
                continue;
            }
            for (q, kind) in &var.loans {
                if *q as usize == at && (d.access != S || *kind == X) {
                    return Err(format!("statement {} touches what v{} borrows, which is used later on", i + 1, w));
                }
            }
        }
        match d.access {
            M => gone[at] = true,
            A => gone[at] = false,
            _ => {}
        }
        if d.out != No {
            let mut loans = if d.carry { v[at].loans.clone() } else { vec![] };
            if let Some(k) = d.loan {
                loans.push((at as u8, k));
            }
            v.push(Var { ty: d.out, loans, made: i });
            gone.push(false);
        }
    }
    Ok(v)
}
fn text(p: &[Stmt]) -> String {
    let mut s = String::new();
    let mut n = 1;
    let name = |i: u8| if i == 0 { "m".to_string() } else { format!("v{}", i) };
    for (o, at) in p {
        let d = &OPS[*o as usize];
        let t = d.text.replace('$', &name(*at));
        if d.out == No {
            s += &t;
        } else {
            s += &format!("let mut v{} = {};", n, t);
            n += 1;
        }
        s.push(' ');
    }
    s
}
fn uses(d: &OpDef) -> bool {
    d.text == "use_($);"
}
/// All programs of `depth` statements which end by using something up. Past a mistake nothing is appended, because that
/// would only be wrong for the same reason.
fn programs(depth: usize, reps: bool, out: &mut Vec<Vec<Stmt>>) {
    fn go(p: &mut Vec<Stmt>, depth: usize, reps: bool, out: &mut Vec<Vec<Stmt>>) {
        let Ok(vars) = judge(p) else { return };
        let tys: Vec<Ty> = vars.iter().map(|v| v.ty).collect();
        drop(vars);
        for (o, d) in OPS.iter().enumerate() {
            let last = p.len() + 1 == depth;
            if last != uses(d) && last || reps && !d.rep {
                continue;
            }
            for (at, ty) in tys.iter().enumerate() {
                if *ty != d.on {
                    continue;
                }
                p.push((o as u8, at as u8));
                if last {
                    out.push(p.clone());
                } else {
                    go(p, depth, reps, out);
                }
                p.pop();
            }
        }
    }
    go(&mut vec![], depth, reps, out)
}

/// Programs about lifetimes rather than uses: whether they are to be accepted, and each as an item of its own.
const SPECIAL: &[(bool, &str)] = &[
    // what is handed out lives as long as the borrow of the map, and no longer
    (true, "fn @<'a>(m: &'a M) -> Option<&'a u32> { m.get(&1) }"),
    (true, "fn @<'a>(m: &'a M, k: &u32) -> Option<&'a u32> { m.get(k) }"),
    (true, "fn @<'a>(m: &'a M, k: &u32) -> Option<&'a u32> { m.get_linear(k) }"),
    (true, "fn @<'a>(m: &'a M, k: &u32) -> &'a u32 { &m[k] }"),
    (true, "fn @<'a>(m: &'a mut M, k: &u32) -> &'a mut u32 { &mut m[k] }"),
    (true, "fn @<'a>(m: &'a mut M, k: &u32) -> Option<&'a mut u32> { m.get_mut(k) }"),
    (true, "fn @<'a>(m: &'a M, k: &u32) -> Iter<'a, u32, u32, C> { m.range((Bound::Excluded(k), Bound::Unbounded)) }"),
    (true, "fn @<'a>(m: &'a M, k: u32) -> Iter<'a, u32, u32, C> { m.range(&k..) }"),
    (true, "fn @<'a>(m: &'a mut M, k: &u32) -> IterMut<'a, u32, u32, C> { m.range_mut((Bound::Included(k), Bound::Excluded(k))) }"),
    (true, "fn @<'a>(m: &'a M) -> Option<(&'a u32, &'a u32)> { m.iter().next() }"),
    (true, "fn @<'a>(i: &mut Iter<'a, u32, u32, C>) -> Option<(&'a u32, &'a u32)> { i.next() }"),
    (true, "fn @<'a>(i: &mut Iter<'a, u32, u32, C>) -> Option<(&'a u32, &'a u32)> { i.next_back() }"),
    (true, "fn @<'a>(i: &mut IterMut<'a, u32, u32, C>) -> Option<(&'a u32, &'a mut u32)> { i.next() }"),
    (true, "fn @<'a>(i: &mut IterMut<'a, u32, u32, C>) -> Option<(&'a u32, &'a mut u32)> { i.next_back() }"),
    (true, "fn @<'a>(e: Entry<'a, u32, u32, C>) -> &'a mut u32 { match e { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(1) } }"),
    (true, "fn @<'a, 'b>(e: &'b Entry<'a, u32, u32, C>) -> &'b u32 { match e { Entry::Occupied(o) => o.get(), Entry::Vacant(v) => v.key() } }"),
    (true, "fn @<'a, 'b>(e: &'b mut Entry<'a, u32, u32, C>) -> &'b mut u32 { match e { Entry::Occupied(o) => o.get_mut(), _ => panic!() } }"),
    (true, "fn @(m: M) -> impl Iterator<Item = (u32, u32)> { m.into_iter() }"),
    (true, "fn @(m: M, n: M) -> impl Iterator<Item = (u32, u32)> + 'static { M::merge_left_iter(m, n) }"),
    (true, "fn @(m: M) -> OwnedIter<u32, u32, C> { m.into_iter() }"),
    (false, "fn @<'a, 'b>(m: &'b M) -> Option<&'a u32> { m.get(&1) }"),
    (false, "fn @<'a, 'b>(m: &'b M, k: &'a u32) -> Option<&'a u32> { m.get(k) }"),
    (false, "fn @<'a, 'b>(m: &'b M, k: &'a u32) -> Option<&'a u32> { m.get_linear(k) }"),
    (false, "fn @<'a, 'b>(m: &'b M, k: &'a u32) -> &'a u32 { &m[k] }"),
    (false, "fn @<'a, 'b>(m: &'b mut M, k: &'a u32) -> &'a mut u32 { &mut m[k] }"),
    (false, "fn @<'a, 'b>(m: &'b mut M, k: &'a u32) -> Option<&'a mut u32> { m.get_mut(k) }"),
    (false, "fn @<'a, 'b>(m: &'b M) -> Iter<'a, u32, u32, C> { m.iter() }"),
    (false, "fn @<'a, 'b>(m: &'b M, k: &'a u32) -> Iter<'a, u32, u32, C> { m.range((Bound::Excluded(k), Bound::Unbounded)) }"),
    (false, "fn @<'a, 'b>(m: &'b mut M) -> IterMut<'a, u32, u32, C> { m.iter_mut() }"),
    (false, "fn @<'a, 'b>(m: &'b mut M, k: &'a u32) -> IterMut<'a, u32, u32, C> { m.range_mut((Bound::Excluded(k), Bound::Unbounded)) }"),
    (false, "fn @<'a, 'b>(m: &'b mut M) -> Entry<'a, u32, u32, C> { m.entry(1) }"),
    (false, "fn @<'a, 'b>(i: Iter<'b, u32, u32, C>) -> Iter<'a, u32, u32, C> { i.clone() }"),
    (false, "fn @<'a, 'b>(mut i: Iter<'b, u32, u32, C>) -> Option<(&'a u32, &'a u32)> { i.next() }"),
    (false, "fn @<'a, 'b>(mut i: Iter<'b, u32, u32, C>) -> Option<(&'a u32, &'a u32)> { i.next_back() }"),
    (false, "fn @<'a, 'b>(mut i: IterMut<'b, u32, u32, C>) -> Option<(&'a u32, &'a mut u32)> { i.next() }"),
    (false, "fn @<'a, 'b>(mut i: IterMut<'b, u32, u32, C>) -> Option<(&'a u32, &'a mut u32)> { i.next_back() }"),
    (false, "fn @<'a, 'b>(e: Entry<'b, u32, u32, C>) -> &'a mut u32 { match e { Entry::Occupied(o) => o.into_mut(), _ => panic!() } }"),
    (false, "fn @<'a, 'b>(e: Entry<'b, u32, u32, C>) -> &'a mut u32 { match e { Entry::Vacant(v) => v.insert(1), _ => panic!() } }"),
    (false, "fn @<'a, 'b>(e: &'b Entry<'a, u32, u32, C>) -> &'a u32 { match e { Entry::Occupied(o) => o.key(), _ => panic!() } }"),
    (false, "fn @<'a, 'b>(e: &'b Entry<'a, u32, u32, C>) -> &'a u32 { match e { Entry::Occupied(o) => o.get(), _ => panic!() } }"),
    (false, "fn @<'a, 'b>(e: &'b Entry<'a, u32, u32, C>) -> &'a u32 { match e { Entry::Vacant(v) => v.key(), _ => panic!() } }"),
    (false, "fn @<'a, 'b>(e: &'b mut Entry<'a, u32, u32, C>) -> &'a mut u32 { match e { Entry::Occupied(o) => o.get_mut(), _ => panic!() } }"),
    (false, "fn @() -> Iter<'static, u32, u32, C> { let m = mk(); m.iter() }"),
    (false, "fn @() -> IterMut<'static, u32, u32, C> { let mut m = mk(); m.iter_mut() }"),
    (false, "fn @() -> Option<&'static u32> { let m = mk(); m.get(&1) }"),
    (false, "fn @() { let i; { let m = mk(); i = m.iter(); } use_(i) }"),
    (false, "fn @() { let i; { let m = mk(); i = m.iter().next(); } use_(i) }"),
    (false, "fn @() { let i; { let mut m = mk(); i = m.iter_mut().next(); } use_(i) }"),
    (false, "fn @() { let i = mk().iter(); use_(i) }"),
    (false, "fn @() { let e = mk().entry(1); use_(e) }"),
    (true, "fn @() { let i = mk().into_iter(); use_(i) }"),
    // keys must not be changed, and shared access changes nothing
    (false, "fn @(m: &mut M) { for (k, _) in m.iter_mut() { *k = 1; } }"),
    (true, "fn @(m: &mut M) { for (_, v) in m.iter_mut() { *v = 1; } }"),
    (false, "fn @(m: &M) { for (_, v) in m.iter() { *v = 1; } }"),
    (false, "fn @(m: &mut M) { if let Entry::Occupied(mut o) = m.entry(1) { *o.key() = 1; } }"),
    (false, "fn @(m: &mut M) { if let Entry::Occupied(mut o) = m.entry(1) { *o.get() = 1; } }"),
    (true, "fn @(m: &mut M) { if let Entry::Occupied(mut o) = m.entry(1) { *o.get_mut() = 1; } }"),
    (false, "fn @(m: &mut M) { if let Entry::Vacant(mut v) = m.entry(1) { *v.key() = 1; } }"),
    (false, "fn @(m: &M) { *m.get(&1).unwrap() = 1; }"),
    (false, "fn @(m: &M) { m[&1] = 1; }"),
    (false, "fn @(m: &M) { m.insert(1, 1); }"),
    (false, "fn @(m: &M) { m.insert_recursive(1, 1); }"),
    (false, "fn @(m: &M) { m.remove(&1); }"),
    (false, "fn @(m: &M) { m.remove_lowest(); }"),
    (false, "fn @(m: &M) { m.remove_highest(); }"),
    (false, "fn @(m: &M) { m.get_mut(&1); }"),
    (false, "fn @(m: &M) { m.iter_mut(); }"),
    (false, "fn @(m: &M) { m.range_mut(1..); }"),
    (false, "fn @(m: &M) { m.entry(1); }"),
    (false, "fn @(m: &M) { m.append_left(mk()); }"),
    (false, "fn @(m: &M) { m.append_right(mk()); }"),
    (false, "fn @(m: &M) { m.extend(vec![(1, 1)]); }"),
    (false, "fn @(m: &M) { for x in *m { } }"),
    (false, "fn @(i: &Iter<'_, u32, u32, C>) { i.next(); }"),
    (false, "fn @(i: &IterMut<'_, u32, u32, C>) { i.next(); }"),
    (false, "fn @(i: &IterMut<'_, u32, u32, C>) { i.next_back(); }"),
    (false, "fn @(i: &OwnedIter<u32, u32, C>) { i.next(); }"),
    (false, "fn @(e: &Entry<'_, u32, u32, C>) { if let Entry::Occupied(o) = e { o.insert(1); } }"),
    (false, "fn @(e: &Entry<'_, u32, u32, C>) { if let Entry::Occupied(o) = e { o.get_mut(); } }"),
    (false, "fn @(e: &mut Entry<'_, u32, u32, C>) { if let Entry::Occupied(o) = e { o.remove(); } }"),
    (false, "fn @(e: &mut Entry<'_, u32, u32, C>) { if let Entry::Vacant(v) = e { v.insert(1); } }"),
    // elements that borrow: nothing shorter-lived gets in through any door
    (true, "fn @<'a>(m: &mut R<'a>, s: &'a u32) { m.insert(s, s); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { m.insert(s, t); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { m.insert(t, s); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { m.insert_recursive(t, s); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32) { for (_, v) in m.iter_mut() { *v = s; } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32) { for (_, v) in m.range_mut(..) { *v = s; } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32) { for (_, v) in m.iter_mut().rev() { *v = s; } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { *m.get_mut(&t).unwrap() = s; }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { m[&t] = s; }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { if let Entry::Vacant(v) = m.entry(t) { v.insert(s); } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { if let Entry::Vacant(v) = m.entry(s) { v.insert(t); } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { if let Entry::Vacant(v) = m.entry(t) { *v.insert(t) = s; } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { if let Entry::Occupied(mut o) = m.entry(t) { o.insert(s); } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { if let Entry::Occupied(mut o) = m.entry(t) { *o.get_mut() = s; } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: &'b u32, t: &'a u32) { if let Entry::Occupied(mut o) = m.entry(t) { *o.into_mut() = s; } }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: R<'b>) { m.append_left(s); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: R<'b>) { m.append_right(s); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: R<'b>) { *m += s; }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: R<'b>) { m.extend(s); }"),
    (false, "fn @<'a, 'b>(m: &mut R<'a>, s: R<'b>) { *m = s; }"),
    (false, "fn @<'a, 'b>(m: R<'b>) -> R<'a> { m }"),
    (false, "fn @<'a, 'b>(m: R<'b>) -> R<'a> { m.clone() }"),
    (false, "fn @<'a, 'b>(m: R<'b>) -> R<'a> { R::load(m) }"),
    (false, "fn @<'a, 'b>(m: R<'b>) -> R<'a> { m.into_iter().collect() }"),
    (false, "fn @<'a, 'b: 'a>(m: R<'b>, n: R<'a>) -> R<'b> { R::merge_left(m, n) }"),
    (false, "fn @<'a, 'b: 'a>(m: R<'b>, n: R<'a>) -> R<'b> { m + n }"),
    (false, "fn @<'a, 'b>(m: R<'b>) -> OwnedIter<&'a u32, &'a u32, C> { m.into_iter() }"),
    (false, "fn @<'a, 'b>(m: &R<'b>) -> Option<&'a u32> { m.get(&&1).copied() }"),
    (true, "fn @<'a, 'b>(m: &'a R<'b>) -> Option<&'b u32> { m.iter().next().map(|(_, v)| *v) }"),
    (true, "fn @<'b>(m: R<'b>) -> Option<&'b u32> { m.into_iter().next().map(|(_, v)| v) }"),
    // exclusive access must not be weakened to one for shorter-lived elements
    (false, "fn @<'x, 'a, 'b: 'a>(m: &'x mut R<'b>) -> &'x mut R<'a> { m }"),
    (false, "fn @<'x, 'a, 'b: 'a>(i: IterMut<'x, &'b u32, &'b u32, C>) -> IterMut<'x, &'b u32, &'a u32, C> { i }"),
    (false, "fn @<'x, 'a, 'b: 'a>(i: IterMut<'x, &'b u32, &'b u32, C>) -> IterMut<'x, &'a u32, &'b u32, C> { i }"),
    (false, "fn @<'x, 'a, 'b: 'a>(i: Entry<'x, &'b u32, &'b u32, C>) -> Entry<'x, &'b u32, &'a u32, C> { i }"),
    (false, "fn @<'x, 'a, 'b: 'a>(i: Entry<'x, &'b u32, &'b u32, C>) -> Entry<'x, &'a u32, &'b u32, C> { i }"),
    (true, "fn @<'x: 'y, 'y>(i: Iter<'x, u32, u32, C>) -> Iter<'y, u32, u32, C> { i }"),
    (true, "fn @<'x: 'y, 'y>(i: IterMut<'x, u32, u32, C>) -> IterMut<'y, u32, u32, C> { i }"),
    // what elements borrow outlives the map that destroys them, and everything that does in its stead
    (false, "fn @() { let mut m = Ds::new(); let s = 1; m.insert(1, Dr(&s)); }"),
    (true, "fn @() { let s = 1; let mut m = Ds::new(); m.insert(1, Dr(&s)); }"),
    (false, "fn @() { let i; let s = 1; let mut m = Ds::new(); m.insert(1, Dr(&s)); i = m.into_iter(); }"),
    (false, "fn @() { let i; let s = 1; let mut m = Ds::new(); m.insert(1, Dr(&s)); i = Ds::merge_right_iter(m, Ds::new()); }"),
    (false, "fn @() { let i; let s = 1; let mut m = Ds::new(); m.insert(1, Dr(&s)); i = m.clone(); }"),
    (false, "fn @() { let mut m = Ds::new(); { let s = 1; m.insert(1, Dr(&s)); } m.len(); }"),
    (false, "fn @() { let mut m = Ds::new(); { let s = 1; m.extend(vec![(1, Dr(&s))]); } m.len(); }"),
    // what there is only one of is not duplicated
    (false, "fn @(i: IterMut<'_, u32, u32, C>) { let j = IterMut::clone(&i); use_(j) }"),
    (false, "fn @(i: Entry<'_, u32, u32, C>) { let j = Entry::clone(&i); use_(j) }"),
    (false, "fn @(m: M) { let n = m; let o = m; }"),
    (false, "fn @(i: Iter<'_, u32, u32, C>) { let j = i; let k = i; }"),
    (false, "fn @(i: IterMut<'_, u32, u32, C>) { let j = i; let k = i; }"),
    (false, "fn @(i: OwnedIter<u32, u32, C>) { let j = i; let k = i; }"),
    (false, "fn @(i: Entry<'_, u32, u32, C>) { let j = i; let k = i; }"),
    // the insides stay inside
    (false, "fn @(m: M) { use_(m.size) }"),
    (false, "fn @(m: M) { use_(m.root) }"),
    (false, "fn @(i: Iter<'_, u32, u32, C>) { use_(i.left) }"),
    (false, "fn @(i: IterMut<'_, u32, u32, C>) { use_(i.right) }"),
    (false, "fn @(i: OwnedIter<u32, u32, C>) { use_(i.tree) }"),
    (false, "fn @(e: Entry<'_, u32, u32, C>) { if let Entry::Occupied(o) = e { use_(o.cursor) } }"),
    (false, "fn @(e: Entry<'_, u32, u32, C>) { if let Entry::Occupied(o) = e { use_(o.tree) } }"),
    (false, "fn @(e: Entry<'_, u32, u32, C>) { if let Entry::Vacant(v) = e { use_(v.cursor) } }"),
    // elements which cannot be cloned cannot get at shared nodes
    (true, "fn @(m: &PalmTree<u32, NoClone, C>) { m.len(); m.get(&1); m.iter().count(); m.range(1..).count(); }"),
    (false, "fn @(m: &mut PalmTree<u32, NoClone, Tree64<Shared>>) { m.get_mut(&1); }"),
    (false, "fn @(m: &mut PalmTree<u32, NoClone, Tree64<Shared>>) { m.iter_mut(); }"),
    (false, "fn @(m: &mut PalmTree<u32, NoClone, Tree64<Shared>>) { m.entry(1); }"),
    (false, "fn @(m: &mut PalmTree<u32, NoClone, Tree64<Shared>>) { m.remove(&1); }"),
    (false, "fn @(m: PalmTree<u32, NoClone, Tree64<Shared>>) { IntoIterator::into_iter(m); }"),
    (false, "fn @(m: PalmTree<u32, NoClone, Tree64<SyncShared>>) { Clone::clone(&m); }"),
];
const HEAD: &str = "#![allow(warnings)] use palmtree::*; use std::ops::Bound; use std::mem::ManuallyDrop; use std::hash::{Hash, Hasher}; \
fn use_<T>(_: T) {} fn D<T>(t: T) -> ManuallyDrop<T> { ManuallyDrop::new(t) } fn I<T>(t: ManuallyDrop<T>) -> T { ManuallyDrop::into_inner(t) } \
fn hash(m: &M) { m.hash(&mut std::collections::hash_map::DefaultHasher::new()) } fn mk() -> M { M::new() } fn main() {} \
type M = PalmTree<u32, u32, C>; type R<'a> = PalmTree<&'a u32, &'a u32, C>; type Ds<'a> = PalmTree<u32, Dr<'a>, C>; \
#[derive(Clone)] struct Dr<'a>(&'a u32); impl<'a> Drop for Dr<'a> { fn drop(&mut self) { use_(*self.0) } } struct NoClone;";
/// What the compiler says when it refuses a program for what it does with lifetimes, borrows and ownership.
const BORROWS: &[&str] = &["E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0510", "E0515", "E0521", "E0594", "E0596", "E0597", "E0621", "E0713", "E0716"];
/// It stops at these before looking at borrows, so programs it refuses this way are checked on their own.
const EARLY: &[&str] = &["E0599", "E0616", "E0277", "E0308", "E0310", "E0624"];

struct Case {
    what: String,
    line: String,
    accept: Result<(), String>,
    statements: u64,
}
/// The explorers' crate, whose dependency on palmtree and whose profiles are used.
fn mc() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("mc")
}
fn here() -> (PathBuf, String, String) {
    let profile = PROFILE_DIR();
    let manifest = mc();
    let toml = std::fs::read_to_string(manifest.join("Cargo.toml")).expect("mc/Cargo.toml");
    let dep = toml.lines().find(|l| l.starts_with("palmtree")).expect("the dependency on palmtree").to_string();
    let profiles = toml[toml.find("[profile.checked]").expect("profiles")..].to_string();
    (std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("work").join(format!("c18-{}", profile)), dep, profiles)
}
#[allow(non_snake_case)]
fn PROFILE_DIR() -> String {
    std::env::current_exe().unwrap().parent().unwrap().file_name().unwrap().to_string_lossy().to_string()
}
/// Has the compiler judge all files of cases; for each its line and the codes of what is wrong with it.
fn compile(files: &[(String, Vec<&Case>)]) -> Result<HashMap<(usize, usize), Vec<String>>, String> {
    let (dir, dep, profiles) = here();
    let src = dir.join("src").join("bin");
    let _ = std::fs::remove_dir_all(dir.join("src"));
    std::fs::create_dir_all(&src).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("Cargo.toml"), format!("[package]\nname = \"programs\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{}\n[workspace]\n{}", dep, profiles)).map_err(|e| e.to_string())?;
    let _ = std::fs::copy(mc().join("Cargo.lock"), dir.join("Cargo.lock"));
    for (i, (cfg, cases)) in files.iter().enumerate() {
        let mut s = format!("{} type C = Tree64<{}>;\n", HEAD, cfg);
        for c in cases {
            s += &c.line;
            s.push('\n');
        }
        std::fs::write(src.join(format!("f{}.rs", i)), s).map_err(|e| e.to_string())?;
    }
    let mut child = Command::new("cargo")
        .args(["check", "--offline", "--keep-going", "--bins", "--message-format=short", "--profile", &PROFILE_DIR(), "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .arg("--target-dir")
        .arg(dir.join("target"))
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(dir.join("log")).map_err(|e| e.to_string())?)
        .spawn()
        .map_err(|e| e.to_string())?;
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    };
    let log = std::fs::read(dir.join("log")).map(|b| String::from_utf8_lossy(&b).to_string()).map_err(|e| e.to_string())?;
    let mut found: HashMap<(usize, usize), Vec<String>> = HashMap::new();
    let mut other = vec![];
    for l in log.lines() {
        let Some(at) = l.find(": error") else {
            if l.starts_with("error") && !l.contains("could not compile") {
                other.push(l.to_string());
            }
            continue;
        };
        let place: Vec<&str> = l[..at].split(':').collect();
        let file = place[0].rsplit('/').next().unwrap();
        let index = file.strip_prefix('f').and_then(|f| f.strip_suffix(".rs")).and_then(|f| f.parse::<usize>().ok());
        let (Some(i), Some(line)) = (index, place.get(1).and_then(|n| n.parse::<usize>().ok())) else {
            other.push(l.to_string());
            continue;
        };
        let rest = &l[at + ": error".len()..];
        let code = rest.strip_prefix('[').and_then(|r| r.split(']').next()).map_or_else(|| rest.trim_start_matches(": ").to_string(), String::from);
        if line < 2 || i >= files.len() || line - 2 >= files[i].1.len() {
            other.push(l.to_string());
        } else {
            found.entry((i, line - 2)).or_default().push(code);
        }
    }
    if !other.is_empty() || !status.success() && found.is_empty() {
        panic!("the compiler did not get as far as judging programs: {:?}\n{}", status, &log[log.len().saturating_sub(3000)..]);
    }
    Ok(found)
}
fn check(tier: Tier, t: &mut Tally) -> Result<(), String> {
    let mut cases: Vec<(usize, Case)> = vec![];
    let mut late: Vec<(usize, Case)> = vec![];
    let mut seen = HashSet::new();
    let mut lists = vec![];
    programs(2, false, &mut lists);
    programs(3, false, &mut lists);
    programs(4, true, &mut lists);
    if tier == Tier::Thorough {
        programs(4, false, &mut lists);
        programs(5, true, &mut lists);
    }
    lists.retain(|p| seen.insert(p.clone()));
    for (mode, cfg) in ["Unique", "Shared", "SyncShared"].iter().enumerate() {
        for (i, p) in lists.iter().enumerate() {
            // the longest ones differ in nothing that depends on who owns the nodes: each is tried under one of the three
            if p.len() > 3 && i % 3 != mode {
                continue;
            }
            let body = text(p);
            let what = format!("{} | {}", cfg, body);
            cases.push((mode, Case { what, line: format!("fn p(mut m: M) {{ {}}}", body), accept: judge(p).map(|_| ()), statements: p.len() as u64 }));
        }
        for (accept, s) in SPECIAL {
            let what = format!("{} | {}", cfg, s);
            let accept = if *accept { Ok(()) } else { Err("its lifetimes, its borrows or its access".to_string()) };
            let early = ["IterMut::clone", "Entry::clone", "use_(m.", "use_(i.", "use_(o.", "use_(v.", "NoClone"].iter().any(|x| s.contains(x));
            (if early { &mut late } else { &mut cases }).push((mode, Case { what, line: s.replace('@', "p"), accept, statements: 1 }));
        }
    }
    const MODES: [&str; 3] = ["Unique", "Shared", "SyncShared"];
    let mut files: Vec<(String, Vec<&Case>)> = vec![];
    for mode in 0..3 {
        let mine: Vec<&Case> = cases.iter().filter(|c| c.0 == mode).map(|c| &c.1).collect();
        for chunk in mine.chunks(4000) {
            files.push((MODES[mode].to_string(), chunk.to_vec()));
        }
    }
    // One file each for those the compiler refuses before it looks at borrows.
    for (mode, c) in &late {
        files.push((MODES[*mode].to_string(), vec![c]));
    }
    // Programs of the same name would be refused for that, so each gets one of its own.
    let renamed: Vec<(String, Vec<Case>)> = files
        .iter()
        .map(|(m, v)| (m.clone(), v.iter().enumerate().map(|(i, c)| Case { what: c.what.clone(), line: c.line.replacen("fn p", &format!("fn p{}", i), 1), accept: c.accept.clone(), statements: c.statements }).collect()))
        .collect();
    let files: Vec<(String, Vec<&Case>)> = renamed.iter().map(|(m, v)| (m.clone(), v.iter().collect())).collect();
    let found = compile(&files)?;
    let _ = std::fs::remove_dir_all(here().0);
    let mut codes: BTreeMap<String, u64> = BTreeMap::new();
    for (i, (_, cases)) in files.iter().enumerate() {
        let early_in_file = (0..cases.len()).any(|j| found.get(&(i, j)).is_some_and(|c| c.iter().any(|c| EARLY.contains(&c.as_str()))));
        if early_in_file && cases.len() > 1 {
            let (j, c) = (0..cases.len()).find_map(|j| found.get(&(i, j)).filter(|c| c.iter().any(|c| EARLY.contains(&c.as_str()))).map(|c| (j, c))).unwrap();
            if cases[j].accept.is_ok() {
                return Err(format!("the program `{}` is refused ({}) although nothing it does conflicts", cases[j].what, c.join(", ")));
            }
            return Err(format!("the program `{}` is refused for its types ({}), so that its borrows cannot be judged", cases[j].what, c.join(", ")));
        }
        for (j, c) in cases.iter().enumerate() {
            t.evals += 1;
            t.states += 1;
            t.transitions += c.statements;
            let got = found.get(&(i, j));
            match (&c.accept, got) {
                (Ok(()), None) => t.count("programs accepted", 1),
                (Err(_), Some(list)) => {
                    for code in list {
                        if !BORROWS.contains(&code.as_str()) && !code.contains("lifetime may not live long enough") && cases.len() > 1 {
                            return Err(format!("the program `{}` is refused for another reason than its borrows: {}", c.what, code));
                        }
                        *codes.entry(if code.starts_with('E') { code.clone() } else { "lifetime".into() }).or_default() += 1;
                    }
                    t.count("programs refused", 1)
                }
                (Ok(()), Some(list)) => return Err(format!("the program `{}` is refused ({}) although nothing it does conflicts", c.what, list.join(", "))),
                (Err(why), None) => return Err(format!("the program `{}` is accepted, in spite of {}", c.what, why)),
            }
            t.validated += 1;
            if i % 3 == 0 && j % 1500 == 7 {
                t.sample(|| format!("{}: {}", c.what, if c.accept.is_ok() { "accepted" } else { "refused" }));
            }
        }
    }
    for (c, n) in codes {
        t.count(&format!("refused with {}", c), n);
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Tier {
    Quick,
    Thorough,
}
#[derive(Default)]
struct Tally {
    states: u64,
    transitions: u64,
    evals: u64,
    validated: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
}
impl Tally {
    fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.to_string()).or_default() += n;
    }
    fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 8 {
            self.samples.push(f());
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t0 = std::time::Instant::now();
    let profile = PROFILE_DIR();
    let job = match a.get(1).map(|s| s.as_str()) {
        Some("run") => format!("programs {}", if a[2] == "thorough" { "thorough" } else { "quick" }),
        Some("replay") => std::fs::read_to_string(&a[2]).expect("replay file").lines().find_map(|l| l.strip_prefix("job ").map(String::from)).expect("job"),
        _ => {
            eprintln!("usage: run TIER OUT FAIL CRASH | replay FILE");
            std::process::exit(2)
        }
    };
    let mut t = Tally::default();
    let r = check(if job.ends_with("quick") { Tier::Quick } else { Tier::Thorough }, &mut t);
    if a[1] == "replay" {
        match &r {
            Ok(()) => println!("replay: property C18 holds ({})", profile),
            Err(e) => println!("replay: property C18 is broken ({}): {}", profile, e),
        }
        std::process::exit(r.is_err() as i32)
    }
    if let Err(e) = &r {
        std::fs::write(&a[4], format!("property C18\nprofile {}\njob {}\nwhy {}\n", profile, job, e)).expect("failure file");
    }
    let list = |l: Vec<String>| l.join(", ");
    let stats = format!(
        "{{\"property\": \"C18\", \"profile\": {:?}, \"wall_s\": {:.2}, \"states\": {}, \"transitions\": {}, \"evaluations\": {}, \"validated\": {}, \"outcomes\": 0, \"jobs\": 1, \"job_kinds\": {{{:?}: 1}}, \"plans\": [], \"counters\": {{{}}}, \"samples\": [{}]}}",
        profile,
        t0.elapsed().as_secs_f64(),
        t.states,
        t.transitions,
        t.evals,
        t.validated,
        job,
        list(t.counters.iter().map(|(k, v)| format!("{:?}: {}", k, v)).collect()),
        list(t.samples.iter().map(|s| format!("{:?}", s)).collect()),
    );
    std::fs::write(&a[3], stats).expect("stats file");
    std::process::exit(r.is_err() as i32)
}
