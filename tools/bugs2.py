exec(open(__file__.replace("bugs2", "bugs1") if "__file__" in globals() else "/verif/tools/bugs1.py").read().split("bugs = []")[0])
bugs = []
def bug(id, property, needs, breaks, edits, demo, profile="dev"):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=P + demo, profile=profile))

bug("c01-append-fast-path", "C01", "insert_recursive of a key which is the highest of a leaf that has room left",
    "the key is stored a second time instead of being overwritten",
    [("src/leaf.rs", """        match self.keys().binary_search(&key) {
            Ok(index) => InsertResult::Replaced(""", """        // Keys tend to arrive in order, so spare those the search.
        let found = if !self.is_full() && !self.is_empty() && self.highest() <= &key {
            Err(self.len())
        } else {
            self.keys().binary_search(&key)
        };
        match found {
            Ok(index) => InsertResult::Replaced(""")],
    '''
fn main() {
    let mut m = Map::new();
    for i in 0..50 { m.insert_recursive(i, i); }
    for i in 0..50 { assert_eq!(m.insert_recursive(i, i + 1), Some(i)); }
    assert_eq!(m.len(), 50);
    assert_eq!(list(&m), (0..50).map(|i| (i, i + 1)).collect::<Vec<_>>());
}
''')

bug("c02-third-level", "C02", "stepping backwards into a neighbouring subtree of three branch levels or more",
    "iterating from the back skips the last child of each such subtree",
    [("src/search.rs", """                                // If it's a branch, push it on the stack and go through the loop again with this branch.
                                self.stack.push((child, child.len() as isize));
                                continue;""", """                                // If it's a branch, its last child comes next.
                                let last = child.len() - 1;
                                self.stack.push((child, last as isize));
                                if child.has_branches() {
                                    continue;
                                }
                                self.leaf = child.get_leaf_unchecked(last);
                                self.index = (*self.leaf).keys().len() - 1;
                                break;""")],
    '''
fn main() {
    let m = Map::load((0..1000).map(|i| (i, i)));
    let mut l = list(&m);
    l.reverse();
    assert_eq!(m.iter().rev().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), l);
}
''')

bug("c03-leaf-local-end", "C03", "mutable iteration taken from both ends, whose ends meet at equal indices of different leaves",
    "the iteration stops early, leaving the entries in between unvisited",
    [("src/search.rs", """        let left = self.stack.iter().map(|(_, index)| index);
        let right = other.stack.iter().map(|(_, index)| index);
        left.cmp(right).then(self.index.cmp(&other.index))""", """        let depth = self.stack.len().saturating_sub(3);
        let left = self.stack[depth..].iter().map(|(_, index)| index);
        let right = other.stack[depth..].iter().map(|(_, index)| index);
        left.cmp(right).then(self.index.cmp(&other.index))"""),
     ("src/iter/mut_iter.rs", """        let result = unsafe { self.left.step_forward() };
        debug_assert!(result);""", """        let stepped = unsafe { self.left.step_forward() };
        debug_assert!(stepped);""")],
    '''
fn main() {
    let mut m = Map::load((0..1000).map(|i| (i, i)));
    assert_eq!(m.iter_mut().count(), 1000);
    for (_, v) in m.iter_mut() { *v += 1 }
    assert_eq!(list(&m), (0..1000).map(|i| (i, i + 1)).collect::<Vec<_>>());
}
''')

bug("c03-value-of-first", "C03", "a mutable range which is exhausted by one step from the back where both ends point at the same entry of a leaf other than the first",
    "next_back hands out the value at the cursor's index of the leaf the front cursor left",
    [("src/iter/mut_iter.rs", """        let value = self.right_value().unwrap();
        if cmp == Ordering::Equal {
            self.left.clear();
            self.right.clear();
        } else {
            self.step_back();
        }
        Some((right_key, value))""", """        let value = if cmp == Ordering::Equal {
            // Only one entry left, no need to step.
            self.right.clear();
            self.left_value().unwrap()
        } else {
            let value = self.right_value().unwrap();
            self.step_back();
            value
        };
        Some((right_key, value))"""),
     ("src/iter/mut_iter.rs", """        let left_key = self.left_key()?;
        self.right_key()?;""", """        let left_key = self.left_key()?;
        if self.right.is_null() {
            self.right = self.left.clone();
        }""")],
    '''
fn main() {
    let mut m = Map::load((0..50).map(|i| (i, i)));
    for lo in 0..50 { for hi in lo..50 {
        let mut i = m.range_mut(lo..=hi);
        for k in (lo..=hi).rev() { assert_eq!(i.next_back().map(|(k, _)| *k), Some(k)); }
        assert!(i.next_back().is_none());
        assert!(i.next().is_none());
    } }
}
''')

bug("c04-nth-by-leaf", "C04", "nth on a consuming iterator whose front stands on a leaf it has just drained",
    "skipping counts the drained leaf as if it still held an entry",
    [("src/iter/owned.rs", """    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.remaining, Some(self.remaining))
    }""", """    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        // Drop whole leaves at a time instead of moving their entries out.
        while n > 0 && self.remaining > n {
            let leaf = unsafe { self.left.deref_mut_leaf() }?;
            let skipped = n.min(leaf.len()).max(1);
            for _ in 0..skipped {
                if leaf.pop_front().is_some() {
                    self.remaining -= 1;
                }
            }
            n -= skipped;
            if leaf.is_empty() {
                unsafe { self.left.step_forward() };
            }
        }
        if n > 0 {
            while self.next().is_some() {}
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let remaining = self.remaining;
        (remaining, Some(remaining))
    }""")],
    '''
fn main() {
    for n in 0..40u32 { for back in 0..n as usize { for skip in 0..n as usize + 1 { for first in 0..7.min(n as usize - back) {
        let mut v: std::collections::VecDeque<u32> = (0..n).collect();
        let mut i = Map::load((0..n).map(|i| (i, i))).into_iter();
        for _ in 0..first { assert_eq!(i.next().map(|e| e.0), v.pop_front()); }
        for _ in 0..back { assert_eq!(i.next_back().map(|e| e.0), v.pop_back()); }
        let mut want = None;
        for _ in 0..=skip { want = v.pop_front(); }
        assert_eq!(i.nth(skip).map(|e| e.0), want, "{} entries, {} + {} taken, nth({})", n, first, back, skip);
        assert_eq!(i.len(), v.len());
    } } } }
}
''')

bug("c04-back-forgets-front", "C04", "a consuming iterator taken from the back until it reaches the leaf the front has drained in part",
    "entries the front already handed out are dropped again by the back",
    [("src/iter/owned.rs", """                self.remaining -= 1;
                return leaf.pop_back();""", """                self.remaining -= 1;
                let result = leaf.pop_back();
                if leaf.is_empty() && self.remaining > 0 {
                    // Move on right away, so the next call needn't.
                    unsafe { self.right.step_back() };
                    unsafe { self.right.step_back() };
                }
                return result;""")],
    '''
fn main() {
    for n in 0..60u32 {
        let mut i = Map::load((0..n).map(|i| (i, i))).into_iter();
        for k in (0..n).rev() { assert_eq!(i.next_back(), Some((k, k))); }
        assert!(i.next_back().is_none());
    }
    let mut m = Map::new();
    for n in 0..200u32 { m.insert(n * 7 % 200, n); }
    for k in 0..200 { if k % 3 > 0 { m.remove(&k); } }
    let l = list(&m);
    for take in 0..l.len() {
        let mut i = m.clone().into_iter();
        for e in &l[..take] { assert_eq!(i.next(), Some(*e)); }
        for e in l[take..].iter().rev() { assert_eq!(i.next_back(), Some(*e)); }
        assert!(i.next_back().is_none() && i.next().is_none());
    }
}
''')

bug("c05-extend-keeps-old", "C05", "extending a map from a sequence at least as long as the map, whose keys overlap",
    "the existing values win over the new ones",
    [("src/lib.rs", """    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
        for (k, v) in iter {
            self.insert(k, v);
        }
    }
}

impl<'a, K, V, C> Extend<(&'a K, &'a V)>""", """    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
        let iter = iter.into_iter();
        if iter.size_hint().0 >= self.len() + 8 {
            // Collecting and merging is cheaper than that many insertions.
            let other = iter.collect();
            return self.append_left(other);
        }
        iter.for_each(|(key, value)| {
            self.insert(key, value);
        });
    }
}

impl<'a, K, V, C> Extend<(&'a K, &'a V)>""")],
    '''
fn main() {
    let mut m = Map::load((0..10).map(|i| (i, i)));
    m.extend((5..30).map(|i| (i, i + 100)));
    let mut b: BTreeMap<u32, u32> = (0..10).map(|i| (i, i)).collect();
    b.extend((5..30).map(|i| (i, i + 100)));
    assert_eq!(list(&m), b.into_iter().collect::<Vec<_>>());
}
''')

bug("c05-collect-dedup", "C05", "collecting more than 32 pairs in which a key occurs more than once",
    "the first value of a repeated key wins, not the last",
    [("src/lib.rs", """        let mut out = Self::new();
        for (key, value) in iter {
            out.insert(key, value);
        }
        out""", """        let mut pairs: Vec<(K, V)> = iter.into_iter().collect();
        if pairs.len() <= 32 {
            let mut out = Self::new();
            for (key, value) in pairs {
                out.insert(key, value);
            }
            return out;
        }
        pairs.sort_by(|(left, _), (right, _)| left.cmp(right));
        pairs.dedup_by(|(left, _), (right, _)| left == right);
        Self::load(pairs)""")],
    '''
fn main() {
    let m: Map = (0..100u32).map(|i| (i % 60, i)).collect();
    let b: BTreeMap<u32, u32> = (0..100u32).map(|i| (i % 60, i)).collect();
    assert_eq!(list(&m), b.into_iter().collect::<Vec<_>>());
}
''')

bug("c06-owned-forget", "C06", "a consuming iterator which is exhausted before it is dropped",
    "the drained nodes and the keys in their branches are never released",
    [("src/iter/owned.rs", """                let result = leaf.pop_front();
                self.remaining -= 1;
                return result;""", """                let entry = leaf.pop_front();
                self.remaining -= 1;
                if self.remaining == 0 {
                    // Everything has been handed out, spare the drop a walk over empty leaves.
                    std::mem::forget(self.tree.take());
                }
                return entry;""")],
    '''
use std::rc::Rc;
fn main() {
    let k = Rc::new(1);
    type M = PalmTree<(u32, Rc<u32>), u32, C4>;
    let m = M::load((0..50).map(|i| ((i, k.clone()), i)));
    assert_eq!(m.into_iter().count(), 50);
    assert_eq!(Rc::strong_count(&k), 1);
}
''')

bug("c06-replaced-key-kept", "C06", "overwriting an entry whose stored key is not identical to the key given",
    "the entry's key is overwritten in place without being dropped",
    [("src/leaf.rs", """            Ok(index) => InsertResult::Replaced(std::mem::replace(
                unsafe { self.values_mut().get_unchecked_mut(index) },
                value,
            )),""", """            Ok(index) => {
                unsafe { self.keys_mut().as_mut_ptr().add(index).write(key) };
                InsertResult::Replaced(std::mem::replace(
                    unsafe { self.values_mut().get_unchecked_mut(index) },
                    value,
                ))
            }""")],
    '''
use std::rc::Rc;
fn main() {
    let k = Rc::new(1);
    type M = PalmTree<(u32, Rc<u32>), u32, C4>;
    let mut m = M::new();
    for n in 0..3 { for i in 0..50 { m.insert_recursive((i, k.clone()), n); } }
    drop(m);
    assert_eq!(Rc::strong_count(&k), 1);
}
''')

bug("c07-range-mut-path-first", "C07", "a mutable range over a shared map with a clone alive, when the paths were found in the shared nodes",
    "what is written goes to the clone",
    [("src/iter/mut_iter.rs", """        // The iterator hands out mutable references into nodes, so they must be ours alone.
        if let Some(ref mut root) = tree.root {
            Pointer::make_mut(root);
        }
        if let Some((left, right)) = paths_from_range(tree, range) {
            Self { left, right }
        } else {
            Self::null()
        }""", """        let paths = paths_from_range(tree, range);
        match (paths, &mut tree.root) {
            (Some((left, right)), Some(ref mut root)) => {
                // The iterator hands out mutable references into nodes, so they must be ours alone.
                Pointer::make_mut(root);
                Self { left, right }
            }
            _ => Self::null(),
        }""")],
    '''
fn main() {
    let mut m = PalmTree::<u32, u32, S4>::load((0..50).map(|i| (i, i)));
    let c = m.clone();
    for (_, v) in m.range_mut(5..) { *v += 100 }
    assert_eq!(list(&c), (0..50).map(|i| (i, i)).collect::<Vec<_>>());
    assert_eq!(list(&m), (0..50).map(|i| (i, if i < 5 { i } else { i + 100 })).collect::<Vec<_>>());
}
''')

bug("c07-shared-branch-key", "C07", "removing the last entry of a leaf below a shared root whose branch is shared",
    "Rc::get_mut_unchecked-like access to a node with other owners: the clone sees the change",
    [("src/pointer.rs", """        Rc::make_mut(&mut *self.data.as_mut_ptr().cast::<Rc<A>>())""", """        let rc = &mut *self.data.as_mut_ptr().cast::<Rc<A>>();
        if Rc::strong_count(rc) > 2 {
            *rc = Rc::new((**rc).clone());
        }
        &mut *(Rc::as_ptr(rc) as *mut A)""")],
    '''
fn main() {
    let mut m = PalmTree::<u32, u32, S4>::load((0..50).map(|i| (i, i)));
    let c = m.clone();
    m.insert(7, 100);
    assert_eq!(c.get(&7), Some(&7));
}
''')

bug("c09-narrow-index", "C09", "a branch of more than 128 children",
    "a child index above 127 goes negative on its way through the path",
    [("src/search.rs", """type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;""", """type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;

/// Child indices are small, and a path of them is copied a lot.
#[inline(always)]
fn child_index(index: usize) -> isize {
    isize::from(index as i8)
}"""), ("src/search.rs", """            path.push((branch, index as isize));""", """            path.push((branch, child_index(index)));""")],
    '''
use typenum::{U256};
cfg!(C256, U256, U4, Unique);
fn main() {
    let mut m = PalmTree::<u32, u32, C256>::new();
    for i in 0..2000 { m.insert(i, i); }
    for i in 0..2000 { assert_eq!(m.range(i..).next(), Some((&i, &i))); assert_eq!(m.remove(&i), Some((i, i))); m.insert(i, i); }
}
''')

bug("c09-align-of-values", "C09", "values of stricter alignment than the keys, in a map with leaves at capacity",
    "the highest value of a full leaf is read from the wrong place when values are larger than 64 bytes",
    [("src/array.rs", """        if index < length {
            self.mut_ptr()
                .add(index)
                .copy_to(self.mut_ptr().add(index + 1), length - index);
        }
        self.mut_ptr().add(index).write(value);""", """        if std::mem::size_of::<A>() > 64 {
            // Few large elements are moved faster one by one.
            for index in index..length {
                let element = self.mut_ptr().add(index).read();
                self.mut_ptr().add(index + 1).write(element);
            }
        } else if index < length {
            self.mut_ptr()
                .add(index)
                .copy_to(self.mut_ptr().add(index + 1), length - index);
        }
        self.mut_ptr().add(index).write(value);""")],
    '''
fn main() {
    type V = [u32; 40];
    let mut m = PalmTree::<u32, V, C4>::new();
    for i in 0..100 { let k = i * 37 % 100; m.insert(k, [k; 40]); }
    for i in 0..100 { assert_eq!(m.get(&i), Some(&[i; 40])); }
}
''')

bug("c10-len-first", "C10", "comparing two maps of different length where the longer one is lexicographically lower",
    "ordering goes by length first, disagreeing with partial_cmp and the standard map",
    [("src/lib.rs", """        self.iter().cmp(other.iter())""", """        // Most maps can be told apart by their sizes alone.
        let len = self.len().cmp(&other.len());
        len.then_with(|| self.iter().cmp(other.iter()))""")],
    '''
fn main() {
    let a = Map::load(vec![(1, 1), (2, 2)]);
    let b = Map::load(vec![(2, 2)]);
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Less);
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
''')

bug("c11-check-late", "C11", "a descending range whose start lies above every key of the map",
    "the range is accepted as empty instead of being rejected",
    [("src/iter/mod.rs", """            if left.cmp(right) == Ordering::Greater =>""", """            if left.cmp(right) == Ordering::Greater
                && tree.root.as_ref().map_or(true, |root| {
                    root.is_empty() || right <= root.highest()
                }) =>""")],
    '''
fn main() {
    let m = Map::load((0..20).map(|i| (i, i)));
    for lo in 0..60u32 { for hi in 0..lo {
        let m = &m;
        assert!(std::panic::catch_unwind(|| m.range(lo..hi).count()).is_err(), "{}..{}", lo, hi);
    } }
}
''')

bug("c11-load-checks-leaves", "C11", "bulk loading a sequence whose only violation falls on a leaf boundary",
    "the violation is not noticed",
    [("src/lib.rs", """                if let Some(last_key) = last_key {
                    if last_key >= key {""", """                if let Some(last_key) = last_key {
                    if last_key >= key && !leaf.is_full() {""")],
    '''
fn main() {
    for n in 2..30u32 { for at in 1..n {
        let r = std::panic::catch_unwind(|| Map::load((0..n).map(|i| (if i == at { i - 1 } else { i }, i))));
        assert!(r.is_err(), "{} of {}", at, n);
    } }
}
''')

bug("c12-insert-before-clone", "C12", "a panic while cloning the key of a leaf's first entry or of a key past the highest",
    "a branch counts a child whose key was never written",
    [("src/branch.rs", """            keys: unsafe { Array::unit(leaf.highest().clone()) },
            children: unsafe { Array::unit(leaf.into()) },
        }""", """            keys: unsafe { Array::unit(leaf.highest().clone()) },
            children: unsafe { Array::unit(leaf.into()) },
        }
        .counted()"""), ("src/branch.rs", """    pub(crate) fn push_leaf(&mut self, key: K, leaf: Pointer<Leaf<K, V, C>, C::PointerKind>) {""", """    pub(crate) fn counted(mut self) -> Self {
        self.length = 1;
        self
    }

    #[inline(always)]
    pub(crate) fn push_leaf(&mut self, key: K, leaf: Pointer<Leaf<K, V, C>, C::PointerKind>) {"""),
     ("src/branch.rs", """                let leaf = Pointer::new(Leaf::unit(key.clone(), value));
                self.push_leaf(key, leaf);
                InsertResult::Added""", """                let leaf = unsafe {
                    self.length += 1;
                    let end = self.len();
                    let leaf = Pointer::new(Leaf::unit(key.clone(), value));
                    self.keys_mut().as_mut_ptr().add(end - 1).write(key);
                    leaf
                };
                self.length -= 1;
                unsafe { self.children.push(self.length, leaf.into()) };
                self.length += 1;
                InsertResult::Added""")],
    '''
use std::cell::Cell;
thread_local! { static ARMED: Cell<bool> = const { Cell::new(false) }; }
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K(Box<u32>);
impl Clone for K { fn clone(&self) -> K { if ARMED.with(|a| a.get()) { panic!("clone") } K(self.0.clone()) } }
fn main() {
    for n in 0..60u32 {
        let mut m = PalmTree::<K, u32, C4>::new();
        for i in 0..n { m.insert_recursive(K(Box::new(i)), i); }
        ARMED.with(|a| a.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.insert_recursive(K(Box::new(n)), n); }));
        ARMED.with(|a| a.set(false));
        let l: Vec<u32> = m.iter().map(|(k, _)| *k.0).collect();
        assert!(l.len() >= n as usize);
        for i in 0..n { assert_eq!(m.get(&K(Box::new(i))), Some(&i)); }
        m.insert(K(Box::new(n + 1)), 0);
        drop(m);
    }
}
''')

bug("c12-drain-mid-remove", "C12", "a panic while comparing keys of the next item during append, with part of the tree already merged",
    "the consuming iterator counts entries it has not moved out, and the size survives the root",
    [("src/lib.rs", """    pub fn append_left(&mut self, other: Self)
    where
        V: Clone,
    {
        if self.root.is_some() {
            // A panic while merging leaves us empty, so the size must go with the root.
            let left = std::mem::take(self).into_iter();""", """    pub fn append_left(&mut self, other: Self)
    where
        V: Clone,
    {
        if self.root.is_some() {
            let left = OwnedIter::new(self.root.take(), self.size);"""),
     ("src/lib.rs", """            *self = Self::load(Self::merge_left_from(left, right));""", """            let merged = Self::load(Self::merge_left_from(left, right));
            self.root = merged.root.clone();
            self.size = merged.size;""")],
    '''
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static FUSE: Cell<i32> = const { Cell::new(-1) }; }
#[derive(PartialEq, Eq, Clone)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering {
    FUSE.with(|f| { let n = f.get(); if n == 0 { f.set(-1); panic!("cmp") } f.set(n - 1) });
    self.0.cmp(&o.0) } }
fn main() {
    for fuse in 0..60 {
        let mut a = PalmTree::<K, u32, C4>::load((0..20).map(|i| (K(i * 2), i)));
        let b = PalmTree::<K, u32, C4>::load((0..20).map(|i| (K(i * 2 + 1), i)));
        FUSE.with(|f| f.set(fuse));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.append_left(b)));
        FUSE.with(|f| f.set(-1));
        assert_eq!(a.len(), a.iter().count());
        assert_eq!(a.remove_lowest().is_some(), a.len() > 0 || a.iter().count() > 0);
        a.insert(K(7), 7);
        assert_eq!(a.get(&K(7)), Some(&7));
        assert_eq!(a.len(), a.iter().count());
    }
}
''')

bug("c13-send-iter", "C13", "sending an iterator over values which may not be shared between threads",
    "a shared iterator of a map of Cells can be sent to another thread while its map is still in use",
    [("src/iter/ref_iter.rs", """    left: PathedPointer<&'a (K, V), K, V, C>,
    right: PathedPointer<&'a (K, V), K, V, C>,
}

impl<'a, K, V, C> Clone for Iter""", """    left: PathedPointer<&'a (K, V), K, V, C>,
    right: PathedPointer<&'a (K, V), K, V, C>,
}

// An iterator only reads.
unsafe impl<'a, K: Send, V: Send, C: TreeConfig<K, V>> Send for Iter<'a, K, V, C> {}
unsafe impl<'a, K: Send, V: Send, C: TreeConfig<K, V>> Sync for Iter<'a, K, V, C> {}

impl<'a, K, V, C> Clone for Iter"""), ("src/pointer.rs", """    unsafe fn clone<A: Clone>(&self) -> Self {
        Self::from_arc::<A>((&*self.data.as_ptr().cast::<Arc<A>>()).clone())
    }""", """    unsafe fn clone<A: Clone>(&self) -> Self {
        Self::from_arc::<A>(Arc::clone(&*self.data.as_ptr().cast::<Arc<A>>()))
    }""")],
    '''
struct Is<T>(PhantomData<T>);
trait No { const SEND: bool = false; }
impl<T> No for T {}
impl<T: Send> Is<T> { const SEND: bool = true; }
fn main() {
    assert!(!<Is<Iter<'static, u32, std::cell::Cell<u32>, C4>>>::SEND);
    assert!(!<Is<Iter<'static, u32, std::rc::Rc<u32>, C4>>>::SEND);
}
''')

bug("c13-count-then-write", "C13", "two threads dropping or modifying clones at the same time",
    "uniqueness is decided by a count which another thread's clone may change before the write (a weak count is ignored, and the count read without synchronisation)",
    [("src/pointer.rs", """        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())""", """        let arc = &mut *self.data.as_mut_ptr().cast::<Arc<A>>();
        let ours: *const usize = arc as *const Arc<A> as *const usize;
        if Arc::strong_count(arc) > 1 {
            // Give up our share first, or the last other owner might do the same copying.
            let copy = A::clone(arc);
            let count = (*ours as *mut usize).read();
            (*ours as *mut usize).write(count - 1);
            std::ptr::write(arc, Arc::new(copy));
        }
        &mut *(Arc::as_ptr(arc) as *mut A)""")],
    '''
use std::sync::{Arc, Barrier};
cfg!(Y4, U4, U4, SyncShared);
fn main() {
    let elem = Arc::new(0u32);
    for _ in 0..3000 {
        let m = PalmTree::<u32, Arc<u32>, Y4>::load((0..4).map(|i| (i, elem.clone())));
        let b = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|_| { let mut m = m.clone(); let b = b.clone(); let e = elem.clone(); std::thread::spawn(move || { b.wait(); m.insert(1, e); drop(m) }) }).collect();
        drop(m);
        for h in hs { h.join().unwrap(); }
        assert_eq!(Arc::strong_count(&elem), 1);
    }
}
''')

bug("c14-remove-three-levels", "C14", "removing the last entry below a chain of five branches",
    "an emptied branch stays in the tree five levels up",
    [("src/search.rs", """            while let Some((branch, index)) = self.stack.pop() {
                let branch = &mut *(branch as *mut Branch<K, V, C>);
                let index = index as usize;
                if branch.has_leaves() {""", """            for _ in 0..4 {
                let (branch, index) = match self.stack.pop() {
                    Some(parent) => parent,
                    None => break,
                };
                let branch = &mut *(branch as *mut Branch<K, V, C>);
                let index = index as usize;
                if branch.has_leaves() {""")],
    '''
fn main() {
    let mut m = Map::load((0..5000).map(|i| (i, i)));
    for i in 0..4000 { assert_eq!(m.remove(&i), Some((i, i))); }
    assert_eq!(list(&m), (4000..5000).map(|i| (i, i)).collect::<Vec<_>>());
    for i in 0..5000 { m.insert(i, i); }
    assert_eq!(list(&m), (0..5000).map(|i| (i, i)).collect::<Vec<_>>());
}
''')

bug("c15-sentinel-search", "C15", "a comparison which answers differently the second time, in a leaf at capacity",
    "a scan relying on the highest key as sentinel runs past the leaf",
    [("src/leaf.rs", """        for (index, stored_key) in self.keys().iter().enumerate() {
            if stored_key == key {
                return Some(unsafe { self.values().get_unchecked(index) });
            }
        }
        None""", """        // The highest key is a sentinel which needn't be checked for on the way.
        if self.highest() < key {
            return None;
        }
        let mut index = 0;
        unsafe {
            while self.keys().get_unchecked(index) < key {
                index += 1;
            }
            if self.keys().get_unchecked(index) == key {
                Some(self.values().get_unchecked(index))
            } else {
                None
            }
        }""")],
    '''
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static LIE: Cell<i32> = const { Cell::new(-1) }; static SEEN: Cell<bool> = const { Cell::new(false) }; }
#[derive(Clone)]
struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering {
    if self.0 > 1000 || o.0 > 1000 { SEEN.with(|s| s.set(true)); }
    if LIE.with(|l| { let n = l.get(); if n > 0 { l.set(n - 1) } n == 0 }) { return Ordering::Less; }
    self.0.cmp(&o.0) } }
fn main() {
    let m = PalmTree::<K, u32, C4>::load((0..4).map(|i| (K(i), i)));
    for lie in 0..6 {
        LIE.with(|l| l.set(lie));
        let v = m.get_linear(&K(3)).copied();
        LIE.with(|l| l.set(-1));
        assert!(v.map_or(true, |v| v < 4), "read {:?}", v);
    }
    assert!(!SEEN.with(|s| s.get()), "compared with a key that was never stored");
}
''')

bug("c16-get-mut-clones-first", "C16", "get_mut on a map no clone shares nodes with",
    "the path is copied even though nobody shares it: each in-place update duplicates the root's subtree",
    [("src/lib.rs", """        if let Some(ref mut root) = self.root {
            Pointer::make_mut(root).get_mut(key)
        } else {""", """        if let Some(ref mut root) = self.root {
            if root.len() == 1 && root.has_leaves() {
                // A lone leaf is cheap to copy, which keeps later clones from sharing it.
                *root = Pointer::new(Branch::clone(root));
            }
            let root = Pointer::make_mut(root);
            root.get_mut(key)
        } else {""")],
    '''
use std::cell::Cell;
thread_local! { static CLONES: Cell<u32> = const { Cell::new(0) }; }
struct V;
impl Clone for V { fn clone(&self) -> V { CLONES.with(|c| c.set(c.get() + 1)); V } }
fn main() {
    let mut m = PalmTree::<u32, V, S4>::new();
    for i in 0..20 { m.insert(i, V); m.get_mut(&i).unwrap(); }
    assert_eq!(CLONES.with(|c| c.get()), 0);
}
''')

bug("c16-range-walks", "C16", "positioning a range whose end lies just past a gap between leaves",
    "the position is found by stepping from the lowest key instead of by searching",
    [("src/search.rs", """        if let Some((path, leaf)) = path_for(tree, key) {
            let mut ptr = Self::null();
            ptr.stack = path;
            ptr.index = find_key_or_prev(leaf.keys(), key);
            ptr.leaf = leaf;
            // If we've found a value equal to key, we step back one key.""", """        if let Some((path, leaf)) = path_for(tree, key) {
            let mut ptr = Self {
                stack: path,
                ..Self::null()
            };
            if ptr.stack.len() > 2 && leaf.keys()[0] > *key {
                // The entry wanted lies in another branch.
                let mut next = Self::lowest(tree);
                while unsafe { next.key_unchecked() } < key {
                    ptr = next.clone();
                    unsafe { next.step_forward() };
                }
                return ptr;
            }
            ptr.index = find_key_or_prev(leaf.keys(), key);
            ptr.leaf = leaf;
            // If we've found a value equal to key, we step back one key.""")],
    '''
use std::cell::Cell;
use std::cmp::Ordering;
thread_local! { static N: Cell<u32> = const { Cell::new(0) }; }
#[derive(PartialEq, Eq, Clone)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let m = PalmTree::<K, u32, C4>::load((0..1000).map(|i| (K(i * 2), i)));
    for i in 0..2000 {
        N.with(|n| n.set(0));
        m.range(..K(i));
        assert!(N.with(|n| n.get()) < 60, "{} comparisons for ..{}", N.with(|n| n.get()), i);
    }
}
''')

bug("c08-split-wrong-slot", "C08", "a vacant entry inserted into a full leaf, so that the leaf is split on the way",
    "the reference returned is to another entry's value",
    [("src/search.rs", """                                let index = leaf
                                    .keys()
                                    .binary_search(&key)""", """                                let place = leaf
                                    .keys()
                                    .binary_search(&key)"""),
     ("src/search.rs", """                                self.leaf = leaf;
                                self.index = index;
                                assert!(
                                    index <= leaf.len(),
                                    "index {} > len {}",
                                    index,
                                    leaf.len()
                                );
                                let leaf = self.deref_mut_leaf_unchecked();
                                leaf.insert_unchecked(index, key, value);""", """                                self.leaf = leaf;
                                self.index = index.min(leaf.len());
                                assert!(
                                    place <= leaf.len(),
                                    "index {} > len {}",
                                    place,
                                    leaf.len()
                                );
                                let leaf = self.deref_mut_leaf_unchecked();
                                leaf.insert_unchecked(place, key, value);""")],
    '''
fn main() {
    for lo in 0..40u32 {
        let mut m = Map::load((0..40).filter(|i| *i != lo).map(|i| (i, i)));
        match m.entry(lo) { Entry::Vacant(e) => { let v = e.insert(1000); assert_eq!(*v, 1000); *v = 1001; } _ => panic!() }
        for i in 0..40 { assert_eq!(m.get(&i), Some(&if i == lo { 1001 } else { i })); }
    }
}
''')

bug("c10-debug-limit", "C10", "formatting a map of more than 256 entries",
    "the output is cut short, so that maps of different contents print alike",
    [("src/lib.rs", """        f.debug_map().entries(self.iter()).finish()""", """        f.debug_map().entries(self.iter().take(256)).finish()""")],
    '''
fn main() {
    let m = Map::load((0..1000).map(|i| (i, i)));
    let b: BTreeMap<u32, u32> = (0..1000).map(|i| (i, i)).collect();
    assert_eq!(format!("{:?}", m), format!("{:?}", b));
}
''')

bug("c13-phantom-fn", "C13", "sending a map whose values (not keys) are not Send to another thread",
    "nodes no longer depend on the auto traits of their values, so maps to Rc cross threads",
    [("src/branch/node.rs", """    types: PhantomData<(K, V, C)>,""", """    types: PhantomData<fn() -> (K, V)>,""")],
    '''
struct Is<T>(PhantomData<T>);
trait No { const SEND: bool = false; }
impl<T> No for T {}
impl<T: Send> Is<T> { const SEND: bool = true; }
fn main() {
    assert!(<Is<PalmTree<u32, u32, C4>>>::SEND);
    assert!(!<Is<PalmTree<u32, std::rc::Rc<u32>, C4>>>::SEND);
}
''')

bug("c14-get-mut-levels", "C14", "get_mut in a tree of more than eight levels of branches",
    "every key is reported absent",
    [("src/branch.rs", """        let mut branch = self;
        loop {
            if branch.is_empty() {
                return None;
            }
            if let Some(index) = find_key(branch.keys(), key) {
                if branch.has_branches() {
                    branch = branch.get_branch_mut(index);
                } else {
                    return branch.get_leaf_mut(index).get_mut(key);
                }
            } else {
                return None;
            }
        }""", """        let mut branch = self;
        // No tree is higher than this.
        for _ in 0..8 {
            if branch.is_empty() {
                return None;
            }
            if let Some(index) = find_key(branch.keys(), key) {
                if branch.has_branches() {
                    branch = branch.get_branch_mut(index);
                } else {
                    return branch.get_leaf_mut(index).get_mut(key);
                }
            } else {
                return None;
            }
        }
        None""")],
    '''
fn main() {
    let mut m = Map::new();
    for i in 0..5000 { m.insert(i, i); }
    for i in 0..5000 { assert_eq!(m.get_mut(&i).copied(), Some(i)); }
}
''')

bug("c15-both-or-neither", "C15", "iterating from the back with comparisons that never report the two ends equal, past the first entry",
    "the iterator reads through its null back cursor",
    [("src/iter/ref_iter.rs", """    fn next_back(&mut self) -> Option<Self::Item> {
        let left_key = self.left_key()?;
        let right_key = self.right_key()?;""", """    fn next_back(&mut self) -> Option<Self::Item> {
        // The two ends are always cleared together.
        let left_key = self.left_key()?;
        let right_key = unsafe { self.right().key_unchecked() };""")],
    '''
use std::cmp::Ordering;
#[derive(Clone)]
struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { false } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(Ordering::Less) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { std::hint::black_box(self.0 + o.0); Ordering::Less } }
fn main() {
    let m = PalmTree::<K, u32, C4>::load((0..10).map(|i| (K(i), i)));
    let mut i = m.iter();
    let mut n = 0;
    for _ in 0..20 { n += i.next_back().map_or(0, |(k, v)| std::hint::black_box(k.0 + v)); }
    println!("{}", n);
}
''', profile="release")
