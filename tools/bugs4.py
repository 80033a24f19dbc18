exec(open(__file__.replace("bugs4", "bugs1") if "__file__" in globals() else "/verif/tools/bugs1.py").read().split("bugs = []")[0])
bugs = []
P += '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = LIVE.fetch_add(l.size() as isize, Relaxed) + l.size() as isize;
        PEAK.fetch_max(now, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn live() -> isize { LIVE.load(Relaxed) }
fn peak<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let base = live();
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - base)
}
cfg!(S5, U5, U5, Shared);
'''
def bug(id, property, needs, breaks, edits, demo, profile="dev"):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=P + demo, profile=profile))

bug("c17-last-off", "C17", "insertion in descending order, or anywhere where splits follow one another on the lower half",
    "a full leaf sheds its highest entry only, so each entry ends up in a leaf of its own",
    [("src/leaf.rs", "            let half = this.length / 2;\n            let right = Pointer::new(Leaf {", "            let half = this.length - 1;\n            let right = Pointer::new(Leaf {"),
     ("src/leaf.rs", "        &self.keys()[self.len() / 2 - 1]", "        &self.keys()[self.len() - 2]")],
    '''
fn main() {
    let base = live();
    let mut m: StdPalmTree<u32, u32> = PalmTree::new();
    for i in (0..20_000).rev() { m.insert(i, i); }
    let got = live() - base;
    assert!(got < 20_000 * 8 * 4, "{} bytes for {} entries", got, m.len());
}
''')
bug("c17-load-by-four", "C17", "loading (or merging or appending) with leaves of more than 16 slots",
    "a quarter of each leaf is filled, so a loaded map takes four times the memory",
    [("src/lib.rs", "            if leaf.is_full() {\n                // If parent", "            // Leave room for insertions.\n            if leaf.is_full() || leaf.len() >= 16.max(C::LeafSize::USIZE / 4) {\n                // If parent"),
     ("src/lib.rs", "use search::PathedPointer;\n", "use search::PathedPointer;\nuse typenum::Unsigned;\n")],
    '''
fn main() {
    let base = live();
    let m: StdPalmTree<u32, u32> = PalmTree::load((0..20_000).map(|i| (i, i)));
    let got = live() - base;
    assert!(got < 20_000 * 8 * 3, "{} bytes for {} entries", got, m.len());
}
''')
bug("c17-cmp-collects", "C17", "comparing large maps",
    "comparing gathers all entries of both maps first",
    [("src/lib.rs", "        self.iter().cmp(other.iter())\n", "        let (left, right): (Vec<_>, Vec<_>) = (self.iter().collect(), other.iter().collect());\n        left.cmp(&right)\n")],
    '''
fn main() {
    let m: StdPalmTree<u32, u32> = PalmTree::load((0..20_000).map(|i| (i, i)));
    let n: StdPalmTree<u32, u32> = PalmTree::load((0..20_000).map(|i| (i, i + 1)));
    let (o, p) = peak(|| m.cmp(&n));
    assert_eq!(o, std::cmp::Ordering::Less);
    assert!(p < 10_000, "{} bytes meanwhile", p);
}
''')
bug("c17-edge-leaves", "C17", "insert_recursive in ascending order on nodes with larger leaves than branches",
    "leaves on the right edge are taken for full by the branches' capacity",
    [("src/branch.rs", "                    if !leaf.is_full() {\n                        unsafe { leaf.push_unchecked(key.clone(), value) };", "                    if leaf.len() < C::LeafSize::USIZE.min(C::BranchSize::USIZE) {\n                        unsafe { leaf.push_unchecked(key.clone(), value) };")],
    '''
struct W;
impl<K, V> TreeConfig<K, V> for W { type BranchSize = U4; type LeafSize = typenum::U64; type PointerKind = Unique; }
fn main() {
    let base = live();
    let mut m: PalmTree<u32, u32, W> = PalmTree::new();
    for i in 0..20_000 { m.insert_recursive(i, i); }
    let got = live() - base;
    assert!(got < 20_000 * 8 * 4, "{} bytes for {} entries", got, m.len());
}
''')
bug("c17-weak-kept", "C17", "clones of a thread-safely shared map coming and going",
    "each clone leaves a node's memory behind",
    [("src/pointer.rs", "        Self::from_arc::<A>((&*self.data.as_ptr().cast::<Arc<A>>()).clone())", "        let data = &*self.data.as_ptr().cast::<Arc<A>>();\n        // Keep make_mut from touching the original in place while it is being cloned.\n        let guard = Arc::downgrade(data);\n        let out = Self::from_arc::<A>(data.clone());\n        if Arc::strong_count(data) > 2 {\n            std::mem::forget(guard);\n        }\n        out")],
    '''
fn main() {
    let base = live();
    {
        let m: SyncPalmTree<u32, u32> = PalmTree::load((0..100).map(|i| (i, i)));
        let (a, b) = (m.clone(), m.clone());
        assert_eq!(a, b);
    }
    assert_eq!(live(), base);
}
''')
bug("c07-empty-root-reused", "C07", "a map emptied by removal, cloned, then given an entry by insert_recursive",
    "the entry also goes into the clone's root",
    [("src/lib.rs", "                *root = Pointer::new(Branch::unit(Pointer::new(Leaf::unit(key, value))));\n                self.size = 1;\n                None", "                if root.has_leaves() && root.is_empty() {\n                    // The root we have will do.\n                    let root = &**root as *const Branch<K, V, C> as *mut Branch<K, V, C>;\n                    unsafe { root.as_mut() }.unwrap().push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));\n                } else {\n                    *root = Pointer::new(Branch::unit(Pointer::new(Leaf::unit(key, value))));\n                }\n                self.size += 1;\n                None")],
    '''
fn main() {
    let mut m: PalmTree<u32, u32, S4> = PalmTree::new();
    m.insert(1, 1);
    m.remove(&1);
    let c = m.clone();
    m.insert_recursive(2, 2);
    assert_eq!(c.get(&2), None);
    assert_eq!(list(&c), vec![]);
}
''')
bug("c08-remove-entry-key", "C08", "keys that compare equal but can be told apart",
    "remove_entry gives back the key the entry was asked for with, not the stored one",
    [("src/entry.rs", "                Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),", "                Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor, key }),"),
     ("src/entry.rs", "    tree: &'a mut PalmTree<K, V, C>,\n    cursor: PathedPointer<&'a mut (K, V), K, V, C>,\n}", "    tree: &'a mut PalmTree<K, V, C>,\n    cursor: PathedPointer<&'a mut (K, V), K, V, C>,\n    key: K,\n}"),
     ("src/entry.rs", "        unsafe { self.cursor.remove(&mut self.tree.size) }", "        let (_, value) = unsafe { self.cursor.remove(&mut self.tree.size) };\n        (self.key, value)")],
    '''
#[derive(Clone, Debug)] struct T(u32, u32);
impl PartialEq for T { fn eq(&self, o: &T) -> bool { self.0 == o.0 } }
impl Eq for T {}
impl PartialOrd for T { fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for T { fn cmp(&self, o: &T) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut m: PalmTree<T, u32, C4> = PalmTree::new();
    m.insert(T(1, 1), 1);
    match m.entry(T(1, 2)) {
        Entry::Occupied(e) => assert_eq!((e.remove_entry().0).1, 1),
        _ => panic!(),
    }
}
''')
bug("c10-nan-passed-over", "C10", "values that do not compare, with later entries that do",
    "partial_cmp passes over them and answers by what follows",
    [("src/lib.rs", "        self.iter().partial_cmp(other.iter())\n", "        for (left, right) in self.iter().zip(other.iter()) {\n            match left.partial_cmp(&right) {\n                None | Some(Ordering::Equal) => {}\n                decided => return decided,\n            }\n        }\n        self.len().partial_cmp(&other.len())\n")],
    '''
fn main() {
    let m: PalmTree<u32, f64, C4> = vec![(1, f64::NAN), (2, 1.0)].into_iter().collect();
    let n: PalmTree<u32, f64, C4> = vec![(1, f64::NAN), (2, 2.0)].into_iter().collect();
    assert_eq!(m.partial_cmp(&n), None);
}
''')
bug("c11-index-next", "C11", "indexing an absent key with a present key above it",
    "indexing gives the next higher key's value instead of panicking",
    [("src/lib.rs", "        self.get(index).expect(\"no entry found for key\")", "        self.range(index.clone()..)\n            .next()\n            .map(|(_, value)| value)\n            .expect(\"no entry found for key\")")],
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let m = Map::load((0..9).map(|i| (2 * i, i)));
    assert_eq!(m[&4], 2);
    for i in 0..10 {
        assert!(std::panic::catch_unwind(|| m[&(2 * i + 1)]).is_err());
    }
}
''')
bug("c11-load-repeats", "C11", "loading a sequence which repeats a key in a build with debug assertions",
    "a repeated key is let through",
    [("src/lib.rs", "                    if last_key >= key {", "                    if last_key > key {")],
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| Map::load(vec![(1, 1), (2, 2), (2, 3)])).is_err());
}
''')
bug("c13-send-owned", "C13", "a consuming iterator of a map of single-threaded sharing (or of Rc's) sent to another thread while a clone stays",
    "OwnedIter is Send whatever it holds",
    [("src/iter/owned.rs", "impl<K, V, C> OwnedIter<K, V, C>\nwhere\n    K: Clone + Ord,\n    C: TreeConfig<K, V>,\n{\n    pub(crate) fn new(", "// The nodes are the iterator's own.\nunsafe impl<K, V, C> Send for OwnedIter<K, V, C> where C: TreeConfig<K, V> {}\n\nimpl<K, V, C> OwnedIter<K, V, C>\nwhere\n    K: Ord + Clone,\n    C: TreeConfig<K, V>,\n{\n    pub(crate) fn new(")],
    '''
struct Wrap<T>(PhantomData<T>);
trait No { const SEND: bool = false; }
impl<T> No for Wrap<T> {}
impl<T: Send> Wrap<T> { const SEND: bool = true; }
fn main() {
    assert!(!<Wrap<OwnedIter<u32, std::rc::Rc<u32>, C4>>>::SEND);
    assert!(!<Wrap<OwnedIter<u32, u32, S4>>>::SEND);
}
''')
bug("c16-remove-linear", "C16", "removing or asking for the entry of a key in a large leaf",
    "the leaf is searched from its start",
    [("src/search.rs", "            match leaf.keys().binary_search(key) {\n                Ok(index) => Ok(Self {", "            let keys = leaf.keys();\n            let index = keys.iter().position(|k| k >= key).unwrap_or(keys.len());\n            let found = keys.get(index).map_or(false, |k| k == key);\n            match if found { Ok(index) } else { Err(index) } {\n                Ok(index) => Ok(Self {")],
    '''
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
#[derive(Clone, Debug)] struct T(u32);
impl PartialEq for T { fn eq(&self, o: &T) -> bool { N.with(|n| n.set(n.get() + 1)); self.0 == o.0 } }
impl Eq for T {}
impl PartialOrd for T { fn partial_cmp(&self, o: &T) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for T { fn cmp(&self, o: &T) -> std::cmp::Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn main() {
    let mut m: StdPalmTree<T, u32> = PalmTree::load((0..64).map(|i| (T(i), i)));
    N.with(|n| n.set(0));
    m.remove(&T(63));
    let n = N.with(|n| n.get());
    assert!(n < 20, "{} comparisons", n);
}
''')
bug("c12-separator-drop-first", "C12", "insert_recursive at the right edge with a key whose destructor panics",
    "the old separator is destroyed in place and once more with the branch",
    [("src/branch.rs", "                        self.keys_mut()[end_index] = key;\n                        return InsertResult::Added;", "                        // Written in place, there is nothing to move.\n                        unsafe {\n                            let slot: *mut K = &mut self.keys_mut()[end_index];\n                            std::ptr::drop_in_place(slot);\n                            slot.write(key);\n                        }\n                        return InsertResult::Added;")],
    '''
use std::cell::Cell;
thread_local!(static BOOM: Cell<bool> = Cell::new(false));
static A2: AtomicIsize = AtomicIsize::new(0);
#[derive(PartialEq, Eq, PartialOrd, Ord)] struct T(u32);
impl Clone for T { fn clone(&self) -> T { T::new(self.0) } }
impl T { fn new(i: u32) -> T { A2.fetch_add(1, Relaxed); T(i) } }
impl Drop for T { fn drop(&mut self) {
    A2.fetch_sub(1, Relaxed);
    if BOOM.with(|b| b.replace(false)) { panic!() }
} }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut m: PalmTree<T, u32, C4> = PalmTree::new();
    m.insert_recursive(T::new(1), 1);
    BOOM.with(|b| b.set(true));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.insert_recursive(T::new(2), 2)));
    BOOM.with(|b| b.set(false));
    drop(m);
    assert!(A2.load(Relaxed) >= 0, "destroyed {} too often", -A2.load(Relaxed));
}
''')
bug("c09-load-branch-capacity", "C09", "loading a map whose leaves hold fewer entries than its branches hold children",
    "leaves are filled up to the branches' capacity, past their end",
    [("src/lib.rs", "            if leaf.is_full() {\n                // If parent", "            if leaf.len() == C::BranchSize::USIZE.max(C::LeafSize::USIZE) {\n                // If parent"),
     ("src/lib.rs", "use search::PathedPointer;\n", "use search::PathedPointer;\nuse typenum::Unsigned;\n")],
    '''
struct W;
impl<K, V> TreeConfig<K, V> for W { type BranchSize = typenum::U64; type LeafSize = U4; type PointerKind = Unique; }
fn main() {
    let m: PalmTree<u32, u32, W> = PalmTree::load((0..60).map(|i| (i, i)));
    assert_eq!(m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), (0..60).map(|i| (i, i)).collect::<Vec<_>>());
}
''')
bug("c06-zst-skipped", "C06", "elements of no size which have a destructor",
    "they are never destroyed",
    [("src/array.rs", "        std::ptr::drop_in_place(self.deref_mut(length))", "        // There is nothing to release where nothing is stored.\n        if std::mem::size_of::<A>() > 0 {\n            std::ptr::drop_in_place(self.deref_mut(length))\n        }")],
    '''
static N: AtomicIsize = AtomicIsize::new(0);
struct Z;
impl Clone for Z { fn clone(&self) -> Z { N.fetch_add(1, Relaxed); Z } }
impl Drop for Z { fn drop(&mut self) { N.fetch_sub(1, Relaxed); } }
fn main() {
    let mut m: PalmTree<u32, Z, C4> = PalmTree::new();
    for i in 0..20 { N.fetch_add(1, Relaxed); m.insert(i, Z); }
    drop(m);
    assert_eq!(N.load(Relaxed), 0);
}
''')

bug("c07-get-mut-single-leaf", "C07", "get_mut or IndexMut on a shared map whose root holds a single leaf",
    "the node is not unshared, so what is written goes to the clones",
    [("src/lib.rs", "            Pointer::make_mut(root).get_mut(key)\n        } else {\n            None\n        }\n    }\n\n    pub fn len(", """            if root.has_leaves() && root.len() == 1 {
                // No path to speak of.
                let leaf = root.get_leaf(0) as *const Leaf<K, V, C> as *mut Leaf<K, V, C>;
                unsafe { leaf.as_mut() }.unwrap().get_mut(key)
            } else {
                Pointer::make_mut(root).get_mut(key)
            }
        } else {
            None
        }
    }

    pub fn len(""")],
    '''
fn main() {
    let mut m: PalmTree<u32, u32, S4> = PalmTree::load((0..3).map(|i| (i, i)));
    let c = m.clone();
    *m.get_mut(&1).unwrap() = 9;
    assert_eq!(list(&c), vec![(0, 0), (1, 1), (2, 2)]);
}
''')
bug("c07-remove-last", "C07", "remove_highest on a shared map with a single entry left",
    "the entry is moved out of a node the clone still has",
    [("src/lib.rs", """    pub fn remove_highest(&mut self) -> Option<(K, V)>
    where
        V: Clone,
    {
        if self.is_empty() {
            None
        } else {
            let root = Pointer::make_mut(self.root.as_mut()?);
            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
            Some(unsafe { path.remove(&mut self.size) })""", """    pub fn remove_highest(&mut self) -> Option<(K, V)>
    where
        V: Clone,
    {
        if self.size == 0 {
            None
        } else {
            let root = self.root.as_mut()?;
            let root = if self.size == 1 {
                // Not worth copying what is about to be emptied.
                let root = &**root as *const Branch<K, V, C> as *mut Branch<K, V, C>;
                unsafe { root.as_mut() }.unwrap()
            } else {
                Pointer::make_mut(root)
            };
            let highest = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
            Some(unsafe { highest.remove(&mut self.size) })""")],
    '''
fn main() {
    let mut m: PalmTree<u32, u32, S4> = PalmTree::load((0..40).map(|i| (i, i)));
    for i in 1..40 { m.remove(&i); }
    let c = m.clone();
    assert_eq!(m.remove_highest(), Some((0, 0)));
    assert_eq!(c.get(&0), Some(&0));
}
''')
