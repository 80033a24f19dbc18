P = '''
#![allow(dead_code, unused)]
use palmtree::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use typenum::{U4, U5, U6, U7, U8, U9};

pub struct Small<B, L, P>(PhantomData<(B, L, P)>);
macro_rules! cfg { ($name:ident, $b:ty, $l:ty, $p:ty) => {
    pub struct $name;
    impl<K, V> TreeConfig<K, V> for $name { type BranchSize = $b; type LeafSize = $l; type PointerKind = $p; }
} }
cfg!(C4, U4, U4, Unique);
cfg!(C5, U5, U5, Unique);
cfg!(S4, U4, U4, Shared);
type Map = PalmTree<u32, u32, C4>;
fn list<C: TreeConfig<u32, u32>>(m: &PalmTree<u32, u32, C>) -> Vec<(u32, u32)> { m.iter().map(|(k, v)| (*k, *v)).collect() }
'''
bugs = []
def bug(id, property, needs, breaks, edits, demo, profile="dev"):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=P + demo, profile=profile))

bug("c01-size-on-root-split", "C01", "an insert_recursive that finds every node on its path full, so that the root has to be split",
    "the length counts the new entry twice after each such split",
    [("src/lib.rs", """                        self.insert(key, value)
                    }
                }""", """                        let replaced = self.insert(key, value);
                        self.size += replaced.is_none() as usize;
                        replaced
                    }
                }""")],
    '''
fn main() {
    let mut m = Map::new();
    for i in 0..200 { m.insert_recursive(i, i); assert_eq!(m.len(), i as usize + 1); }
}
''')

bug("c01-linear-stops-early", "C01", "get_linear of an absent key lying between the last two keys of a leaf",
    "get_linear answers with the value of the leaf's last key",
    [("src/leaf.rs", """        for (index, stored_key) in self.keys().iter().enumerate() {
            if stored_key == key {
                return Some(unsafe { self.values().get_unchecked(index) });
            }
        }
        None""", """        // The highest key needs no comparison: we were led here because it isn't lower than `key`.
        let last = self.len() - 1;
        for (index, stored_key) in self.keys()[..last].iter().enumerate() {
            if stored_key == key {
                return Some(unsafe { self.values().get_unchecked(index) });
            }
        }
        if self.highest() >= key {
            self.values().last()
        } else {
            None
        }""")],
    '''
fn main() {
    let mut m = Map::new();
    for i in 0..50 { m.insert(i * 2, i); }
    for i in 0..100 { assert_eq!(m.get_linear(&i), m.get(&i), "key {}", i); }
}
''')

bug("c01-drop-level", "C01", "removing the last entry below a branch that is the only child of its parent (three levels, ragged after removals)",
    "an emptied branch stays in the tree when it is its parent's only child, and later insertions above it go astray",
    [("src/search.rs", """                if branch.has_leaves() {
                    branch.remove_leaf(index);
                } else {
                    branch.remove_branch(index);
                }""", """                if branch.has_leaves() {
                    branch.remove_leaf(index);
                } else if branch.len() > 1 || self.stack.is_empty() {
                    branch.remove_branch(index);
                } else {
                    // Its parent will drop it.
                    break;
                }""")],
    '''
fn main() {
    // every way to remove all but the last few entries in ascending and descending order
    for n in 0..90u32 {
        for rev in [false, true] {
            let mut m = Map::load((0..n).map(|i| (i, i)));
            let mut r: BTreeMap<u32, u32> = (0..n).map(|i| (i, i)).collect();
            for j in 0..n {
                let k = if rev { n - 1 - j } else { j };
                assert_eq!(m.remove(&k), r.remove(&k).map(|v| (k, v)));
                assert_eq!(list(&m).len(), r.len());
                m.insert(k, 7); r.insert(k, 7);
                assert_eq!(list(&m), r.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>());
                m.remove(&k); r.remove(&k);
            }
        }
    }
}
''')

bug("c02-gap-at-start", "C02", "a range starting between a leaf's highest remaining key and its branch key (after a removal), with more leaves to the right",
    "the range comes out empty instead of starting in the next leaf",
    [("src/search.rs", """                if ptr.key_unchecked() < key && !ptr.step_forward() {
                    // If we can't step forward, we were at the highest key already, so the iterator is empty.
                    ptr = Self::null();
                }""", """                if ptr.key_unchecked() < key {
                    // We were at the highest key already, so the iterator is empty.
                    ptr = Self::null();
                }""")],
    '''
fn main() {
    let mut m = Map::load((0..12).map(|i| (i, i)));
    m.remove(&3);
    let got: Vec<u32> = m.range(3..).map(|(k, _)| *k).collect();
    assert_eq!(got, (4..12).collect::<Vec<_>>());
}
''')


bug("c02-last-ignores-start", "C02", "calling last() on a range that is empty or whose front has been advanced past its back",
    "last() answers from the back cursor alone",
    [("src/iter/ref_iter.rs", """    fn next(&mut self) -> Option<Self::Item> {
        let left_key = self.left_key()?;
        let right_key = self.right_key()?;
        // If left key is greather than right key, we're done.
        let cmp = left_key.cmp(right_key);
        if cmp == Ordering::Greater {
            self.left.clear();
            self.right.clear();
            return None;
        }
        let value = self.left_value().unwrap();""", """    fn last(self) -> Option<Self::Item> {
        self.left_key()?;
        Some((self.right_key()?, self.right_value()?))
    }

    fn next(&mut self) -> Option<Self::Item> {
        let left_key = self.left_key()?;
        // If left key is greather than right key, we're done.
        let cmp = left_key.cmp(self.right_key()?);
        if cmp == Ordering::Greater {
            self.left.clear();
            self.right.clear();
            return None;
        }
        let value = self.left_value().unwrap();""")],
    '''
fn main() {
    let m = Map::load((0..12).map(|i| (i * 10, i)));
    assert_eq!(m.range(41..49).last(), None);
    assert_eq!(m.range(40..=49).last(), Some((&40, &4)));
}
''')

bug("c03-back-value-of-front", "C03", "taking from the back of a mutable iterator when front and back are in the same leaf and more than one entry is left",
    "next_back pairs the back key with the front value",
    [("src/iter/mut_iter.rs", """        let value = self.right_value().unwrap();
        if cmp == Ordering::Equal {""", """        let value = if std::ptr::eq(
            unsafe { self.left.deref_leaf_unchecked() },
            unsafe { self.right.deref_leaf_unchecked() },
        ) {
            // Both ends are in the same leaf.
            self.left_value().unwrap()
        } else {
            self.right_value().unwrap()
        };
        if cmp == Ordering::Equal {""")],
    '''
fn main() {
    let mut m = Map::load((0..12).map(|i| (i, i)));
    for (k, v) in m.iter_mut().rev() { assert_eq!(k, v); }
}
''')

bug("c03-first-leaf-skipped", "C03", "mutable iteration that steps across a leaf boundary into a leaf holding a single entry (after removals)",
    "forward steps skip the only entry of a one-entry leaf that is not its branch's last child",
    [("src/search.rs", """                                // Prefetch the next leaf.
                                let next_index = (index + 1) as usize;
                                if next_index < (*branch).len() {
                                    prefetch((*branch).get_leaf_unchecked(next_index));
                                }
                                break;""", """                                // Prefetch the next leaf.
                                let next_index = (index + 1) as usize;
                                if next_index < (*branch).len() {
                                    let next_leaf = (*branch).get_leaf_unchecked(next_index);
                                    prefetch(next_leaf);
                                    if (*self.leaf).len() < 2 {
                                        // Nothing else to see here.
                                        continue;
                                    }
                                }
                                break;""")],
    '''
fn main() {
    let mut m = Map::load((0..16).map(|i| (i, i)));
    for i in 5..8 { m.remove(&i); }
    let n = m.iter_mut().map(|(_, v)| *v += 100).count();
    assert_eq!(n, m.len());
    for (_, v) in m.iter() { assert!(*v >= 100); }
}
''')

bug("c04-remaining-per-leaf", "C04", "consuming from the back across a leaf boundary",
    "every drained leaf passed on the way back is counted as an entry handed out: the length is wrong and entries are lost",
    [("src/iter/owned.rs", """        loop {
            let leaf = match unsafe { self.right.deref_mut_leaf() } {""", """        loop {
            self.remaining -= 1;
            let leaf = match unsafe { self.right.deref_mut_leaf() } {"""),
     ("src/iter/owned.rs", """            } else {
                self.remaining -= 1;
                return leaf.pop_back();""", """            } else {
                return leaf.pop_back();""")],
    '''
fn main() {
    let m = Map::load((0..16).map(|i| (i, i)));
    let mut i = m.into_iter();
    for n in (0..16).rev() { assert_eq!(i.next_back(), Some((n, n))); assert_eq!(i.len(), n as usize); }
    assert_eq!(i.next_back(), None);
}
''', "release")


bug("c05-first-keys-equal", "C05", "merging two maps whose lowest keys are equal",
    "the lowest key comes out twice",
    [("src/iter/merge.rs", """        let mut out = Self {
            left,
            right,
            next_left,
            next_right,
            next,
            compare,
            equal,
        };
        out.check_eq();
        out""", """        Self {
            left,
            right,
            next_left,
            next_right,
            next,
            compare,
            equal,
        }""")],
    '''
fn main() {
    let a = Map::load(vec![(1, 1), (2, 2)]);
    let b = Map::load(vec![(1, 10), (3, 30)]);
    let m: Vec<_> = Map::merge_right_iter(a, b).collect();
    assert_eq!(m, vec![(1, 10), (2, 2), (3, 30)]);
}
''')

bug("c05-full-last-branch", "C05", "bulk loading a number of entries that leaves the last leaf to be stored when its parent branch is full",
    "load stores one leaf too many in a full branch",
    [("src/lib.rs", """        // At end of input, push last leaf into parent, as above.
        if parent.is_full() {
            push_stack(Pointer::new(parent), &mut stack);
            parent = Branch::new(false);
        }
        parent.push_leaf""", """        // At end of input, push last leaf into parent.
        parent.push_leaf""")],
    '''
fn main() {
    for n in 0..200u32 {
        let m: Map = PalmTree::load((0..n).map(|i| (i, i)));
        assert_eq!(list(&m), (0..n).map(|i| (i, i)).collect::<Vec<_>>());
    }
}
''')

bug("c05-add-ref-left", "C05", "adding a borrowed map which shares a key with the other, with a different value",
    "+ with a borrowed map keeps the left value on duplicates",
    [("src/lib.rs", """    fn add(self, other: &PalmTree<K, V, C2>) -> Self::Output {
        Self::load(Self::merge_right_from(""", """    fn add(self, other: &PalmTree<K, V, C2>) -> Self::Output {
        Self::load(Self::merge_left_from(""")],
    '''
fn main() {
    let a = Map::load(vec![(1, 1), (2, 2)]);
    let b = Map::load(vec![(2, 20)]);
    assert_eq!(list(&(a + &b)), vec![(1, 1), (2, 20)]);
}
''')

COUNT = '''
use std::cell::RefCell;
thread_local!(static LIVE: RefCell<BTreeMap<u64, u32>> = RefCell::new(BTreeMap::new()); static NEXT: RefCell<u64> = RefCell::new(0));
fn fresh() -> u64 { NEXT.with(|n| { *n.borrow_mut() += 1; let i = *n.borrow(); LIVE.with(|l| l.borrow_mut().insert(i, 0)); i }) }
#[derive(Debug)] struct T(u32, u64);
impl T { fn new(x: u32) -> T { T(x, fresh()) } }
impl Clone for T { fn clone(&self) -> T { LIVE.with(|l| assert!(l.borrow().contains_key(&self.1), "clone of a dead element")); T::new(self.0) } }
impl Drop for T { fn drop(&mut self) { LIVE.with(|l| if l.borrow_mut().remove(&self.1).is_none() { eprintln!("destroyed twice"); std::process::exit(9) }) } }
impl PartialEq for T { fn eq(&self, o: &T) -> bool { self.0 == o.0 } }
impl Eq for T {}
impl PartialOrd for T { fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for T { fn cmp(&self, o: &T) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn live() -> usize { LIVE.with(|l| l.borrow().len()) }
'''


bug("c06-forgotten-root", "C06", "inserting into a map that was emptied by removals and kept its root",
    "the old root node is never released",
    [("src/entry.rs", """            self.tree.root = Some(Branch::unit(Leaf::unit(self.key, value).into()).into());
            self.tree.size = 1;""", """            // Nothing of the old root needs dropping: all its entries are gone.
            let fresh = Some(Branch::unit(Leaf::unit(self.key, value).into()).into());
            std::mem::forget(std::mem::replace(&mut self.tree.root, fresh));
            self.tree.size = 1;""")],
    '''
use std::alloc::*;
use std::sync::atomic::*;
struct A; static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let before = N.load(Ordering::SeqCst);
    {
        let mut m = Map::new();
        m.insert(1, 1); m.remove(&1); m.insert(2, 2);
    }
    assert_eq!(N.load(Ordering::SeqCst), before);
}
''')


bug("c07-shared-leaves", "C07", "cloning a shared map, writing to one clone through insert_recursive or get_mut (fine), then through entries",
    "a branch's copy shares its leaves, which entries, removals and mutable iteration modify in place",
    [("src/branch.rs", """                self.children.clone_with(self.length, |node| {
                    Pointer::new(node.as_leaf().clone()).into()
                })""", """                // Leaves can be shared, they are copied once they're modified.
                self.children.clone_with(self.length, |node| node.share_leaf())"""),
     ("src/branch/node.rs", """    #[inline(always)]
    pub(crate) unsafe fn as_branch(&self) -> &Branch<K, V, C> {""", """    #[inline(always)]
    pub(crate) unsafe fn share_leaf(&self) -> Self
    where
        K: Clone,
        V: Clone,
    {
        Self {
            types: PhantomData,
            node: ManuallyDrop::new(Pointer::clone_cast::<Leaf<K, V, C>>(&self.node)),
        }
    }

    #[inline(always)]
    pub(crate) unsafe fn as_branch(&self) -> &Branch<K, V, C> {"""),
     ("src/pointer.rs", """    pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {""", """    pub(crate) unsafe fn clone_cast<B: Clone>(this: &Self) -> Self {
        Self::from_data(this.data.clone::<B>())
    }

    pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {""")],
    '''
fn main() {
    let mut a: PalmTree<u32, u32, S4> = (0..10).map(|i| (i, i)).collect();
    let b = a.clone();
    a.insert(3, 300);
    assert_eq!(b.get(&3), Some(&3));
    assert_eq!(list(&b), (0..10).map(|i| (i, i)).collect::<Vec<_>>());
}
''')

bug("c07-get-mut-in-place", "C07", "get_mut (or an index assignment) on a clone whose root is a single-leaf branch shared with another map",
    "make_mut takes a shared root for its own when exactly two maps share it and a weak check passes",
    [("src/pointer.rs", """    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        Rc::make_mut(&mut *self.data.as_mut_ptr().cast::<Rc<A>>())
    }""", """    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        let this = &mut *self.data.as_mut_ptr().cast::<Rc<A>>();
        // Copy out while others hold on to it.
        if Rc::strong_count(this) > 2 {
            *this = Rc::new((**this).clone());
        }
        &mut *(Rc::as_ptr(this) as *mut A)
    }""")],
    '''
fn main() {
    let mut a: PalmTree<u32, u32, S4> = (0..10).map(|i| (i, i)).collect();
    let b = a.clone();
    *a.get_mut(&3).unwrap() = 300;
    assert_eq!(b.get(&3), Some(&3));
}
''')

bug("c08-stale-index", "C08", "a vacant entry's insert that had to split the leaf and landed in its right half",
    "the reference returned by insert points at a different slot than the one filled",
    [("src/search.rs", """                                self.leaf = leaf;
                                self.index = index;
                                assert!(""", """                                self.leaf = leaf;
                                self.index = self.index.min(leaf.len());
                                assert!(""")],
    '''
fn main() {
    for n in 1..60u32 {
        for at in 0..=n {
            let mut m: Map = (0..n).map(|i| (i * 2 + 1, 0)).collect();
            match m.entry(at * 2) { Entry::Vacant(e) => *e.insert(5) += 1, _ => panic!() }
            assert_eq!(m.get(&(at * 2)), Some(&6), "n {} at {}", n, at);
        }
    }
}
''')

bug("c08-occupied-key", "C08", "into_mut on the entry of the last key of a full leaf",
    "OccupiedEntry::into_mut gives access to the neighbouring value",
    [("src/search.rs", """        let key: *mut K = &mut leaf.keys_mut()[index];
        let value: *mut V = &mut leaf.values_mut()[index];""", """        let key: *mut K = &mut leaf.keys_mut()[index];
        let last = leaf.len() - leaf.is_full() as usize - 1;
        let value: *mut V = &mut leaf.values_mut()[index.min(last)];""")],
    '''
fn main() {
    let mut m = Map::load((0..8).map(|i| (i, i)));
    for i in 0..8 { match m.entry(i) { Entry::Occupied(e) => assert_eq!(*e.into_mut(), i), _ => panic!() } }
}
''')

bug("c09-odd-leaf-split", "C09", "splitting a leaf of odd capacity",
    "a leaf of odd length is split at another place than its separator says",
    [("src/leaf.rs", """            let half = this.length / 2;""", """            let half = (this.length + 1) / 2;""")],
    '''
fn main() {
    let mut m: PalmTree<u32, u32, C5> = PalmTree::new();
    for i in (0..100).rev() { m.insert(i, i); }
    for i in 0..100 { assert_eq!(m.get(&i), Some(&i)); }
}
''')

bug("c09-branch-capacity-by-leaf", "C09", "a configuration whose branches are smaller than its leaves",
    "a branch takes itself for full by the leaves' capacity",
    [("src/branch.rs", """        self.len() == C::BranchSize::USIZE
""", """        self.len() >= C::BranchSize::USIZE.min(C::LeafSize::USIZE) && self.len() == C::LeafSize::USIZE.max(4)
""")],
    '''
cfg!(C46, U4, U6, Unique);
fn main() {
    let mut m: PalmTree<u32, u32, C46> = PalmTree::new();
    for i in 0..200 { m.insert(i, i); }
    for i in 0..200 { assert_eq!(m.get(&i), Some(&i)); }
}
''')

bug("c10-prefix-order", "C10", "comparing maps one of which is a proper prefix of the other",
    "such maps compare as Equal in total order though they are unequal",
    [("src/lib.rs", """        self.iter().cmp(other.iter())
""", """        self.iter()
            .zip(other.iter())
            .map(|(left, right)| left.cmp(&right))
            .find(|order| *order != Ordering::Equal)
            .unwrap_or(Ordering::Equal)
""")],
    '''
fn main() {
    let a = Map::load((0..5).map(|i| (i, i)));
    let b = Map::load((0..6).map(|i| (i, i)));
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Less);
}
''')

bug("c10-hash-capacity", "C10", "hashing maps with equal entries one of which was emptied and refilled, or cut down, so that it kept a different root",
    "the hash covers whether the root bears branches",
    [("src/lib.rs", """        for entry in self {
            entry.hash(state);
        }""", """        self.root.as_ref().map(|root| root.has_branches()).hash(state);
        self.iter().for_each(|entry| entry.hash(state));""")],
    '''
use std::collections::hash_map::DefaultHasher; use std::hash::*;
fn h(m: &Map) -> u64 { let mut s = DefaultHasher::new(); m.hash(&mut s); s.finish() }
fn main() {
    let a = Map::load((0..3).map(|i| (i, i)));
    let mut b = Map::load((0..40).map(|i| (i, i)));
    for i in 3..40 { b.remove(&i); }
    assert!(a == b);
    assert_eq!(h(&a), h(&b));
}
''')

bug("c10-same-root-equal", "C10", "comparing a map with a clone sharing its root when a value is not equal to itself",
    "maps sharing a root are taken for equal without comparing, which a NaN value contradicts",
    [("src/lib.rs", """        self.len() == other.len() && self.iter().eq(other.iter())""", """        let same = match (&self.root, &other.root) {
            (Some(left), Some(right)) => std::ptr::eq::<Branch<K, V, C>>(&**left, &**right),
            (left, right) => left.is_none() && right.is_none(),
        };
        same || (self.len() == other.len() && self.iter().eq(other.iter()))""")],
    '''
fn main() {
    let a: PalmTree<u32, f64, S4> = PalmTree::load(vec![(1, f64::NAN)]);
    let b = a.clone();
    assert!(a != b);
}
''')

bug("c11-empty-map-range", "C11", "a descending range on a map that never held anything",
    "the bounds are only checked once there is a root",
    [("src/iter/mod.rs", """    match (range.start_bound(), range.end_bound()) {
        (Bound::Excluded(left), Bound::Excluded(right)) if left == right => {""", """    let root = tree.root.as_ref()?;
    match (range.start_bound(), range.end_bound()) {
        (Bound::Excluded(left), Bound::Excluded(right)) if left == right => {"""),
     ("src/iter/mod.rs", """    let left;
    let right;

    if let Some(ref tree) = tree.root {
        left""", """    let left;
    let right;

    {
        let tree = root;
        left"""),
     ("src/iter/mod.rs", """        Some((left, right))
    } else {
        // Tree has no root, iterator is empty.
        None
    }""", """        Some((left, right))
    }""")],
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = Map::new();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.range(5..1).count())).is_err());
}
''')

bug("c11-excluded-start-descending", "C11", "a range with an excluded start greater than an included end",
    "such a range is accepted",
    [("src/iter/mod.rs", """        (Bound::Included(left), Bound::Included(right))
        | (Bound::Included(left), Bound::Excluded(right))
        | (Bound::Excluded(left), Bound::Included(right))
        | (Bound::Excluded(left), Bound::Excluded(right))
            if left.cmp(right) == Ordering::Greater =>""", """        (Bound::Included(left), Bound::Included(right))
        | (Bound::Included(left), Bound::Excluded(right))
        | (Bound::Excluded(left), Bound::Excluded(right))
            if left.cmp(right) == Ordering::Greater =>""")],
    '''
use std::ops::Bound::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = Map::load((0..9).map(|i| (i, i)));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.range((Excluded(5), Included(1))).count())).is_err());
}
''')

PANIC = COUNT.replace("impl Clone for T { fn clone(&self) -> T {", "thread_local!(static FUSE: RefCell<i32> = RefCell::new(-1));\nimpl Clone for T { fn clone(&self) -> T { FUSE.with(|f| { let mut f = f.borrow_mut(); if *f == 0 { *f = -1; drop(f); panic!() } if *f > 0 { *f -= 1 } });")

bug("c12-leaf-clone-length", "C12", "a panic while cloning a key or value of a leaf",
    "the half-filled copy already has its full length, so dropping it destroys elements that were never there",
    [("src/leaf.rs", """        Self {
            length: self.length,
            keys: unsafe { self.keys.clone(self.length) },
            values: unsafe { self.values.clone(self.length) },
        }
    }
}

impl<K, V, C> Leaf<K, V, C>
where
    C: TreeConfig<K, V>,
{
    pub(crate) fn new()""", """        let mut out = Self::new();
        out.length = self.length;
        out.keys = unsafe { self.keys.clone(self.length) };
        out.values = unsafe { self.values.clone(self.length) };
        out
    }
}

impl<K, V, C> Leaf<K, V, C>
where
    C: TreeConfig<K, V>,
{
    pub(crate) fn new()""")],
    PANIC + '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for fuse in 0..40 {
        let m: PalmTree<u32, T, C4> = (0..10).map(|i| (i, T::new(i))).collect();
        FUSE.with(|f| *f.borrow_mut() = fuse);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(m.clone())));
        FUSE.with(|f| *f.borrow_mut() = -1);
        for (k, v) in m.iter() { assert_eq!(*k, v.0); }
    }
}
''')

bug("c12-steal-before-push", "C12", "a panic in Clone of the key while a leaf is appended along the right edge by insert_recursive",
    "the leaf's length covers a slot whose value has not been written yet",
    [("src/branch.rs", """                        unsafe { leaf.push_unchecked(key.clone(), value) };
                        self.keys_mut()[end_index] = key;
                        return InsertResult::Added;""", """                        unsafe { leaf.push_with(|| (key.clone(), value)) };
                        self.keys_mut()[end_index] = key;
                        return InsertResult::Added;"""),
     ("src/leaf.rs", """    pub(crate) unsafe fn insert_unchecked(""", """    pub(crate) unsafe fn push_with(&mut self, entry: impl FnOnce() -> (K, V)) {
        self.length += 1;
        let (key, value) = entry();
        self.keys.push(self.length - 1, key);
        self.values.push(self.length - 1, value);
    }

    pub(crate) unsafe fn insert_unchecked(""")],
    PANIC + '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (fuse, n) in (0..60).map(|i| (i % 5, i as u32 / 5 + 1)) {
        let mut m: PalmTree<T, u32, C4> = (0..n).map(|i| (T::new(i), i)).collect();
        FUSE.with(|f| *f.borrow_mut() = fuse);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.insert_recursive(T::new(50), 50); }));
        FUSE.with(|f| *f.borrow_mut() = -1);
        let n = m.iter().count();
        assert_eq!(n, m.len());
        for (k, v) in m.iter() { assert_eq!(k.0, *v); }
        drop(m);
        assert_eq!(live(), 0);
    }
}
''')

bug("c13-rc-for-arc", "C13", "clones of a thread-safely shared map taken or dropped by two threads at once",
    "SyncShared counts its references without atomics",
    [("src/pointer.rs", """pub struct SyncShared {
    data: MaybeUninit<Arc<()>>,
}""", """use self::Rc as Arc_;
pub struct SyncShared {
    data: MaybeUninit<Arc_<()>>,
}"""),
     ("src/pointer.rs", """    unsafe fn from_arc<A>(data: Arc<A>) -> Self {
        let mut out = Self {
            data: MaybeUninit::uninit(),
        };
        out.data.as_mut_ptr().cast::<Arc<A>>().write(data);
        out
    }

    unsafe fn cast_into<A>(self) -> Arc<A> {""", """    unsafe fn from_arc<A>(data: Arc_<A>) -> Self {
        let mut out = Self {
            data: MaybeUninit::uninit(),
        };
        out.data.as_mut_ptr().cast::<Arc_<A>>().write(data);
        out
    }

    unsafe fn cast_into<A>(self) -> Arc_<A> {"""),
     ("src/pointer.rs", """        Self::from_arc(Arc::new(value))""", """        Self::from_arc(Arc_::new(value))"""),
     ("src/pointer.rs", """        NonNull::new_unchecked(Arc::into_raw(self.cast_into::<A>()) as *mut A)""", """        NonNull::new_unchecked(Arc_::into_raw(self.cast_into::<A>()) as *mut A)"""),
     ("src/pointer.rs", """        Self::from_arc(Arc::from_raw(ptr.as_ptr()))""", """        Self::from_arc(Arc_::from_raw(ptr.as_ptr()))"""),
     ("src/pointer.rs", """        (*self.data.as_ptr().cast::<Arc<A>>()).deref()""", """        (*self.data.as_ptr().cast::<Arc_<A>>()).deref()"""),
     ("src/pointer.rs", """        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())""", """        Arc_::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc_<A>>())"""),
     ("src/pointer.rs", """        std::ptr::drop_in_place(self.data.as_mut_ptr().cast::<Arc<A>>())""", """        std::ptr::drop_in_place(self.data.as_mut_ptr().cast::<Arc_<A>>())"""),
     ("src/pointer.rs", """        Self::from_arc::<A>((&*self.data.as_ptr().cast::<Arc<A>>()).clone())""", """        Self::from_arc::<A>((&*self.data.as_ptr().cast::<Arc_<A>>()).clone())"""),
     ("src/pointer.rs", """    sync::Arc,
""", "")],
    '''
use std::sync::*;
use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct T;
impl T { fn new() -> T { LIVE.fetch_add(1, Ordering::SeqCst); T } }
impl Clone for T { fn clone(&self) -> T { T::new() } }
impl Drop for T { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
cfg!(Y4, U4, U4, SyncShared);
fn main() {
    for _ in 0..200 {
        {
            let m: PalmTree<u32, T, Y4> = (0..4).map(|i| (i, T::new())).collect();
            let b = Barrier::new(4);
            std::thread::scope(|s| for _ in 0..4 { s.spawn(|| { b.wait(); for _ in 0..2000 { std::hint::black_box(m.clone()); } }); });
        }
        if LIVE.load(Ordering::SeqCst) != 0 { eprintln!("leaked or destroyed twice"); std::process::exit(7); }
    }
}
''', "release")

bug("c13-last-hit", "C13", "two threads reading leaves at once, one moving the shared hint between another's check and its use of it",
    "a lookup checks a position remembered process-wide, then reads it again to fetch the value",
    [("src/leaf.rs", """        self.keys()
            .binary_search(key)
            .ok()
            .map(|index| unsafe { self.values().get_unchecked(index) })""", """        // Repeated lookups tend to hit the same position, so try that first.
        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static LAST: AtomicUsize = AtomicUsize::new(0);
        if self.keys().get(LAST.load(Relaxed)) == Some(key) {
            return self.values().get(LAST.load(Relaxed));
        }
        let index = self.keys().binary_search(key).ok()?;
        LAST.store(index, Relaxed);
        self.values().get(index)""")],
    '''
use std::sync::*;
fn main() {
    let m: StdPalmTree<u32, u32> = PalmTree::load((0..64).map(|i| (i, i)));
    let b = Barrier::new(4);
    std::thread::scope(|s| for t in 0..4u32 { let (m, b) = (&m, &b); s.spawn(move || {
        b.wait();
        for i in 0..20_000_000u32 { let k = (i / 2 + t * 16) % 64; if m.get(&k) != Some(&k) { eprintln!("wrong value"); std::process::exit(7) } }
    }); });
}
''', "release")

bug("c14-fold-once", "C14", "bulk loading enough entries for at least three levels of branches above the leaf level's parents",
    "load folds its stack of parents only once, so all but the topmost two levels are lost",
    [("src/lib.rs", """        while stack.len() > 1 {
            let parent = stack.pop().unwrap();
            push_stack(parent, &mut stack);
        }""", """        if stack.len() > 1 {
            let parent = stack.pop().unwrap();
            push_stack(parent, &mut stack);
        }""")],
    '''
fn main() {
    for n in [10, 100, 300, 1000, 2000u32] {
        let m = Map::load((0..n).map(|i| (i, i)));
        assert_eq!(m.len(), m.iter().count());
    }
}
''')

bug("c14-deep-right-edge", "C14", "appending at the right edge of a tree at least five levels high",
    "the right-edge walk only goes down four levels' worth of branches before it gives up and splits the root, without end",
    [("src/search.rs", """        } else {
            // Walk up the tree to find somewhere to split.
            loop {
                if let Some((branch, index)) = self.stack.pop() {""", """        } else {
            // Walk up the tree to find somewhere to split. Past a handful of levels it's cheaper
            // to split the root instead.
            let mut levels = 5;
            loop {
                levels -= 1;
                if levels == 0 && self.stack.len() > 1 {
                    self.stack.truncate(1);
                }
                if let Some((branch, index)) = self.stack.pop() {""")],
    '''
fn main() {
    let mut m = Map::new();
    for i in 0..20000 { m.insert(i, i); }
    for i in 0..20000 { assert_eq!(m.get(&i), Some(&i)); }
    let mut m = Map::new();
    for i in (0..20000).rev() { m.insert(i, i); }
    for i in 0..20000 { assert_eq!(m.get(&i), Some(&i)); }
}
''')

bug("c15-unreachable-unchecked", "C15", "an ordering that answers differently when the key is looked for again after a branch was split",
    "the failed search is declared impossible to the compiler",
    [("src/search.rs", """                            unreachable!("walk_path() failed to produce a leaf, even though the leaf should be there!")""",
      """                            // walk_path() always produces a leaf here.
                            std::hint::unreachable_unchecked()""")],
    '''
use std::cell::Cell; use std::cmp::Ordering;
thread_local!(static N: Cell<i64> = Cell::new(i64::MAX));
#[derive(Clone, Debug)] struct K(u32);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { let n = N.with(|n| { let x = n.get(); n.set(x - 1); x }); if n <= 0 { Ordering::Less } else { self.0.cmp(&o.0) } } }
fn main() {
    // every point from which the ordering lies, for an insertion that splits a branch; only a
    // clean panic or a wrong answer is allowed
    std::panic::set_hook(Box::new(|_| {}));
    for n in 17..100u32 { for at in 0..=n { for from in 0..16 {
        let mut m: PalmTree<K, u32, C4> = PalmTree::load((0..n).map(|i| (K(2 * i + 1), i)));
        N.with(|c| c.set(from));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.insert(K(2 * at), 7); }));
        N.with(|c| c.set(i64::MAX));
        if m.iter().count() > 200 { std::process::exit(3) }
    } } }
}
''', "release")

bug("c15-unchecked-split-index", "C15", "an ordering that calls an absent key present when it is searched for again after a split",
    "the failed expectation is skipped: the entry is written at an index that was never validated",
    [("src/search.rs", """                                let index = leaf
                                    .keys()
                                    .binary_search(&key)
                                    .expect_err("tried to insert() a key that already exists");""", """                                let index = leaf
                                    .keys()
                                    .binary_search(&key)
                                    .err()
                                    .unwrap_or(leaf.len() + 2);"""),
     ("src/search.rs", """                                assert!(
                                    index <= leaf.len(),
                                    "index {} > len {}",
                                    index,
                                    leaf.len()
                                );
                                let leaf""", """                                let leaf""")],
    COUNT + '''
use std::cell::Cell; use std::cmp::Ordering;
thread_local!(static N: Cell<i64> = Cell::new(i64::MAX));
#[derive(Clone, Debug)] struct K(u32, T);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { let n = N.with(|n| { let x = n.get(); n.set(x - 1); x }); if n == 0 { Ordering::Equal } else { self.0.cmp(&o.0) } } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in 4..30u32 { for at in 0..=n { for from in 0..30 {
        let mut m: PalmTree<K, u32, C4> = PalmTree::load((0..n).map(|i| (K(2 * i + 1, T::new(i)), i)));
        N.with(|c| c.set(from));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.insert(K(2 * at, T::new(9)), 7); }));
        N.with(|c| c.set(i64::MAX));
        drop(m);
        assert_eq!(live(), 0);
    } } }
}
''', "release")

bug("c16-linear-branches", "C16", "lookups in maps with large branches",
    "get compares linearly inside branches",
    [("src/branch.rs", """    pub(crate) fn get(&self, key: &K) -> Option<&V> {
        let mut branch = self;
        loop {
            if let Some(index) = find_key(branch.keys(), key) {""", """    pub(crate) fn get(&self, key: &K) -> Option<&V> {
        let mut branch = self;
        loop {
            if let Some(index) = find_key_linear(branch.keys(), key) {""")],
    '''
use std::cell::Cell; use std::cmp::Ordering;
thread_local!(static N: Cell<u64> = Cell::new(0));
#[derive(Clone, PartialEq, Eq)] struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let m: StdPalmTree<K, u32> = PalmTree::load((0..4096).map(|i| (K(i), i)));
    N.with(|n| n.set(0));
    m.get(&K(4000));
    let n = N.with(|n| n.get());
    assert!(n <= 40, "{} comparisons", n);
}
''')

bug("c16-split-copies", "C16", "an insertion that splits a leaf",
    "splitting a leaf clones the values of its upper half and destroys the originals",
    [("src/leaf.rs", """                values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
            });""", """                values: unsafe {
                    let mut upper = Array::<V, C::LeafSize>::steal_from(&mut this.values, this.length, half);
                    let copy = upper.clone(this.length - half);
                    upper.drop(this.length - half);
                    copy
                },
            });""")],
    '''
use std::cell::Cell;
thread_local!(static N: Cell<u64> = Cell::new(0));
struct V; impl Clone for V { fn clone(&self) -> V { N.with(|n| n.set(n.get() + 1)); V } }
fn main() {
    let mut m: PalmTree<u32, V, C4> = PalmTree::new();
    for i in 0..100 { m.insert(i * 7 % 100, V); }
    assert_eq!(N.with(|n| n.get()), 0);
}
''')

bug("c16-clone-deep", "C16", "cloning a shared-ownership map",
    "a clone of a shared map copies the whole tree",
    [("src/pointer.rs", """    unsafe fn clone<A: Clone>(&self) -> Self {
        Self::from_rc::<A>((&*self.data.as_ptr().cast::<Rc<A>>()).clone())
    }""", """    unsafe fn clone<A: Clone>(&self) -> Self {
        Self::new(self.deref::<A>().clone())
    }""")],
    '''
use std::cell::Cell;
thread_local!(static N: Cell<u64> = Cell::new(0));
struct V; impl Clone for V { fn clone(&self) -> V { N.with(|n| n.set(n.get() + 1)); V } }
fn main() {
    let m: PalmTree<u32, V, S4> = PalmTree::load((0..100).map(|i| (i, V)));
    let c = m.clone();
    assert_eq!(c.len(), 100);
    assert_eq!(N.with(|n| n.get()), 0);
}
''')

bug("c02-gap-back", "C02", "taking from the back of a range that lies in a gap between two adjacent keys",
    "next_back yields the entry before the gap",
    [("src/iter/ref_iter.rs", """        let left_key = self.left_key()?;
        let right_key = self.right_key()?;
        // If left key is greather than right key, we're done.
        let cmp = left_key.cmp(right_key);
        if cmp == Ordering::Greater {
            self.left.clear();
            self.right.clear();
            return None;
        }
        let value = self.right_value().unwrap();""", """        let left_key = self.left_key()?;
        let right_key = self.right_key()?;
        let cmp = left_key.cmp(right_key);
        let value = self.right_value().unwrap();""")],
    '''
fn main() {
    let m = Map::load((0..12).map(|i| (i * 10, i)));
    assert_eq!(m.range(41..49).next_back(), None);
}
''')

bug("c06-assigned-over", "C06", "overwriting a value through insert_recursive",
    "the old value is both destroyed in place and handed back",
    [("src/leaf.rs", """            Ok(index) => InsertResult::Replaced(std::mem::replace(
                unsafe { self.values_mut().get_unchecked_mut(index) },
                value,
            )),""", """            Ok(index) => {
                let slot = &mut self.values_mut()[index];
                let old = unsafe { std::ptr::read(slot) };
                *slot = value;
                InsertResult::Replaced(old)
            }""")],
    COUNT + '''
fn main() {
    {
        let mut m: PalmTree<u32, T, C4> = PalmTree::new();
        for i in 0..10 { m.insert_recursive(i, T::new(i)); }
        assert_eq!(m.insert_recursive(1, T::new(100)).unwrap().0, 1);
    }
    assert_eq!(live(), 0);
}
''')

bug("c06-keys-after-children", "C06", "dropping any map: the keys of its branches",
    "a branch destroys its keys after its length went down to zero, that is, not at all",
    [("src/branch.rs", """            self.keys.drop(self.length);
            while self.length > 0 {""", """            while self.length > 0 {"""),
     ("src/branch.rs", """                    node.unwrap_leaf();
                }
            }
        }
    }
}""", """                    node.unwrap_leaf();
                }
            }
            self.keys.drop(self.length);
        }
    }
}""")],
    COUNT + '''
fn main() {
    { let _m: PalmTree<T, u32, C4> = PalmTree::load((0..20).map(|i| (T::new(i), i))); }
    assert_eq!(live(), 0);
}
''')
