exec(open(__file__.replace("bugs3", "bugs1") if "__file__" in globals() else "/verif/tools/bugs1.py").read().split("bugs = []")[0])
bugs = []
def bug(id, property, needs, breaks, edits, demo, profile="dev"):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=P + demo, profile=profile))

bug("c01-sibling-merge", "C01", "a removal which leaves a quarter of the last leaf of a branch or less, next to a left neighbour that is at most half full, and an insertion right above it",
    "the two leaves become one below a lower separator than that of the branch, and keys in between are taken to be higher than all others",
    [("src/search.rs", """        if leaf.is_empty() {
            while let Some((branch, index)) = self.stack.pop() {""", """        if !leaf.is_empty() {
            // Move what little is left over to the left neighbour.
            if let Some((branch, index)) = self.stack.last() {
                let branch = &mut *(*branch as *mut Branch<K, V, C>);
                let right = *index as usize;
                let capacity = C::LeafSize::USIZE;
                if right > 0
                    && branch.get_leaf_unchecked(right).len() * 4 <= capacity
                    && branch.get_leaf_unchecked(right - 1).len() * 2 <= capacity
                {
                    let left = branch.get_leaf_unchecked(right - 1) as *const Leaf<K, V, C>;
                    let left = (left as *mut Leaf<K, V, C>).as_mut().unwrap();
                    let leaf = self.deref_mut_leaf().unwrap();
                    while let Some((key, value)) = leaf.pop_front() {
                        left.push_unchecked(key, value);
                    }
                    branch.remove_leaf(right);
                    branch.keys_mut()[right - 1] = left.highest().clone();
                }
            }
        } else {
            while let Some((branch, index)) = self.stack.pop() {"""),
     ("src/search.rs", """use arrayvec::ArrayVec;
""", """use arrayvec::ArrayVec;
use typenum::Unsigned;
""")],
    '''
fn main() {
    let mut m = Map::load((0..40).map(|i| (2 * i, 2 * i)));
    let mut b: BTreeMap<u32, u32> = (0..40).map(|i| (2 * i, 2 * i)).collect();
    for i in [8, 9, 13, 14, 15] { assert_eq!(m.remove(&(2 * i)), b.remove(&(2 * i)).map(|v| (2 * i, v))); }
    for i in [29, 30, 27] { assert_eq!(m.insert(i, i), b.insert(i, i)); }
    assert_eq!(list(&m), b.into_iter().collect::<Vec<_>>());
}
''')

bug("c02-step-in-assert", "C02", "taking from the back in a build without debug assertions",
    "the back never moves, so the same entry is yielded for ever",
    [("src/iter/ref_iter.rs", """        let result = unsafe { self.right.step_back() };
        debug_assert!(result);""", """        debug_assert!(unsafe { self.right.step_back() });""")],
    '''
fn main() {
    let m = Map::load((0..10).map(|i| (i, i)));
    let got: Vec<u32> = m.iter().rev().take(20).map(|(k, _)| *k).collect();
    assert_eq!(got, (0..10).rev().collect::<Vec<_>>());
}
''', profile="release")

bug("c03-nth-boundary", "C03", "nth on a mutable iterator which lands exactly behind the last entry of the leaf its front is in",
    "it reads past the entries of the leaf",
    [("src/iter/mut_iter.rs", """    type Item = (&'a K, &'a mut V);

    fn next(&mut self) -> Option<Self::Item> {
        let left_key = self.left_key()?;""", """    type Item = (&'a K, &'a mut V);

    // Skip within the leaf without looking at every entry.
    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        while n > 0 {
            let left = self.left_key()?;
            let right = self.right_key()?;
            let rest = unsafe { self.left.rest_of_leaf() };
            if left < right && n <= rest {
                unsafe { self.left.skip(n) };
                break;
            }
            self.next()?;
            n -= 1;
        }
        self.next()
    }

    fn next(&mut self) -> Option<(&'a K, &'a mut V)> {
        let left_key = self.left_key()?;"""),
     ("src/search.rs", """    pub(crate) fn clear(&mut self) {
        self.leaf = std::ptr::null();
    }
""", """    pub(crate) fn clear(&mut self) {
        self.leaf = std::ptr::null()
    }

    /// The number of entries from the one being pointed at to the end of its leaf.
    pub(crate) unsafe fn rest_of_leaf(&self) -> usize {
        (*self.leaf).len() - self.index
    }

    pub(crate) unsafe fn skip(&mut self, n: usize) {
        self.index += n;
    }
""")],
    '''
fn main() {
    for n in 0..12usize {
        let mut m: PalmTree<u32, String, C4> = (0..12).map(|i| (i, i.to_string())).collect();
        let got = m.iter_mut().nth(n).map(|(k, v)| (*k, v.clone()));
        assert_eq!(got, Some((n as u32, n.to_string())));
    }
}
''')

bug("c04-single-child-root", "C04", "consuming a map whose root branch was left with a single branch below it by removals",
    "the branch is taken for a leaf",
    [("src/iter/owned.rs", """            Self {
                left: PathedPointer::lowest(&root),
                right: PathedPointer::highest(&root),
                tree,
                remaining,
            }""", """            // With a single leaf there is no path to keep.
            let single = root.len() == 1;
            Self {
                left: if single {
                    PathedPointer::single(&root)
                } else {
                    PathedPointer::lowest(&root)
                },
                right: if single {
                    PathedPointer::single(&root).at_end()
                } else {
                    PathedPointer::highest(&root)
                },
                tree,
                remaining,
            }"""),
     ("src/search.rs", """    /// Find the lowest key in the tree.
    pub(crate) fn lowest(""", """    pub(crate) fn single(tree: &Branch<K, V, C>) -> Self {
        let mut ptr = Self::null();
        ptr.leaf = unsafe { tree.only_leaf() };
        ptr
    }

    pub(crate) fn at_end(mut self) -> Self {
        self.index = unsafe { (*self.leaf).len().saturating_sub(1) };
        self
    }

    /// Find the lowest key in the tree.
    pub(crate) fn lowest("""),
     ("src/branch.rs", """    #[inline(always)]
    pub(crate) fn highest(&self) -> &K {""", """    #[inline(always)]
    pub(crate) unsafe fn only_leaf(&self) -> &Leaf<K, V, C> {
        self.children().get_unchecked(0).as_leaf()
    }

    #[inline(always)]
    pub(crate) fn highest(&self) -> &K {""")],
    '''
fn main() {
    let mut m = Map::load((0..40).map(|i| (i, i)));
    for i in 5..40 { m.remove(&i); }
    assert_eq!(m.into_iter().collect::<Vec<_>>(), (0..5).map(|i| (i, i)).collect::<Vec<_>>());
}
''')

bug("c05-append-small", "C05", "adding (+=) a map of less than an eighth of the size, sharing keys that are equal but not identical",
    "the stored keys of the left map stay",
    [("src/lib.rs", """        self.append_right(other)""", """        if other.len() * 8 < self.len() {
            // Merging would rebuild everything for the sake of a few entries.
            self.extend(other)
        } else {
            self.append_right(other)
        }""")],
    '''
#[derive(Clone, Debug)]
struct K(u32, &'static str);
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    for n in [5, 10, 20] {
        let mut m: PalmTree<K, u32, C4> = PalmTree::load((0..n).map(|i| (K(i, "left"), i)));
        m += PalmTree::load(vec![(K(1, "right"), 100)]);
        let e = m.iter().nth(1).unwrap();
        assert_eq!((e.0 .1, *e.1), ("right", 100), "{} entries", n);
    }
}
''')

bug("c05-extend-ref-keeps", "C05", "extending by references with a key that is there already",
    "the old value stays",
    [("src/lib.rs", """            self.insert(*k, *v);""", """            if self.get(k).is_none() {
                self.insert(*k, *v);
            }""")],
    '''
fn main() {
    let mut m = Map::load((0..10).map(|i| (i, i)));
    let o: BTreeMap<u32, u32> = (5..15).map(|i| (i, 100 + i)).collect();
    m.extend(&o);
    assert_eq!(list(&m), (0..15).map(|i| (i, if i < 5 { i } else { 100 + i })).collect::<Vec<_>>());
}
''')

bug("c06-separator-leak", "C06", "insert_recursive past the highest key into a leaf with room, with keys that own memory",
    "the branch key that is written over is never destroyed",
    [("src/branch.rs", """                        self.keys_mut()[end_index] = key;
                        return InsertResult::Added;""", """                        unsafe { self.keys_mut().as_mut_ptr().add(end_index).write(key) };
                        return InsertResult::Added;""")],
    '''
thread_local!(static N: std::cell::Cell<i64> = std::cell::Cell::new(0));
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K(u32);
fn k(i: u32) -> K { N.with(|n| n.set(n.get() + 1)); K(i) }
impl Clone for K { fn clone(&self) -> K { k(self.0) } }
impl Drop for K { fn drop(&mut self) { N.with(|n| n.set(n.get() - 1)) } }
fn main() {
    let mut m: PalmTree<K, u32, C4> = PalmTree::new();
    for i in 0..3 { m.insert_recursive(k(i), i); }
    drop(m);
    assert_eq!(N.with(|n| n.get()), 0);
}
''')

bug("c06-needs-drop", "C06", "keys which own memory together with values which need no destruction",
    "the keys in the leaves are never destroyed",
    [("src/leaf.rs", """        unsafe {
            self.keys.drop(self.length);
            self.values.drop(self.length);
        }""", """        // Nothing to be done for plain data.
        if std::mem::needs_drop::<V>() {
            unsafe {
                self.keys.drop(self.length);
                self.values.drop(self.length);
            }
        }""")],
    '''
fn main() {
    let k = std::rc::Rc::new(1);
    let mut m: PalmTree<std::rc::Rc<i32>, u32, C4> = PalmTree::new();
    m.insert(k.clone(), 1);
    drop(m);
    assert_eq!(std::rc::Rc::strong_count(&k), 1);
}
''')

bug("c09-capacity-u8", "C09", "a leaf or branch capacity of 256",
    "the node is taken for full while empty",
    [("src/leaf.rs", """        self.len() == C::LeafSize::USIZE
""", """        self.len() as u8 == C::LeafSize::U8
"""), ("src/branch.rs", """        self.len() == C::BranchSize::USIZE
""", """        self.len() as u8 == C::BranchSize::U8
""")],
    '''
cfg!(C256, typenum::U256, typenum::U256, Unique);
fn main() {
    let mut m: PalmTree<u32, u32, C256> = PalmTree::new();
    for i in 0..1000 { m.insert(i, i); }
    for i in 0..1000 { assert_eq!(m.get(&i), Some(&i)); }
    let m: PalmTree<u32, u32, C256> = PalmTree::load((0..1000).map(|i| (i, i)));
    assert_eq!(list(&m), (0..1000).map(|i| (i, i)).collect::<Vec<_>>());
}
''')

bug("c09-large-shift", "C09", "elements of 256 bytes or more, inserted in front of at least two others",
    "moving the elements one at a time overwrites those not moved yet",
    [("src/array.rs", """        if index < length {
            self.mut_ptr()
                .add(index)
                .copy_to(self.mut_ptr().add(index + 1), length - index);
        }
        self.mut_ptr().add(index).write(value);""", """        if index < length {
            if std::mem::size_of::<A>() < 256 {
                self.mut_ptr()
                    .add(index)
                    .copy_to(self.mut_ptr().add(index + 1), length - index);
            } else {
                // Large elements are not worth going through a buffer.
                for i in index..length {
                    self.mut_ptr()
                        .add(i)
                        .copy_to_nonoverlapping(self.mut_ptr().add(i + 1), 1);
                }
            }
        }
        self.mut_ptr().add(index).write(value);""")],
    '''
fn main() {
    let mut m: PalmTree<u32, [u32; 100], C4> = PalmTree::new();
    for i in (0..20).rev() { m.insert(i, [i; 100]); }
    for i in 0..20 { assert_eq!(m[&i][99], i); }
}
''')

bug("c10-keys-then-values", "C10", "comparing maps which differ in a value before they differ in a key, with the two differences pointing opposite ways",
    "all keys are compared before any value",
    [("src/lib.rs", """        self.iter().cmp(other.iter())""", """        let keys = self.iter().map(|e| e.0).cmp(other.iter().map(|e| e.0));
        keys.then_with(|| self.iter().map(|e| e.1).cmp(other.iter().map(|e| e.1)))""")],
    '''
fn main() {
    let a = [(1, 5), (2, 0)];
    let b = [(1, 4), (3, 0)];
    let x: Map = a.iter().copied().collect();
    let y: Map = b.iter().copied().collect();
    let s: BTreeMap<u32, u32> = a.iter().copied().collect();
    let t: BTreeMap<u32, u32> = b.iter().copied().collect();
    assert_eq!(x.cmp(&y), s.cmp(&t));
}
''')

bug("c10-alternate", "C10", "formatting with {:#?} a map whose values have fields of their own, below a root of several children",
    "some values are printed in the short form, depending on how the map was built",
    [("src/lib.rs", """        f.debug_map().entries(self.iter()).finish()""", """        let mut map = f.debug_map();
        let mut left = self.len();
        for (key, value) in self.iter() {
            left -= 1;
            // The last key of the root's leaf or branch.
            match self.root.as_ref().map(|root| root.keys().contains(key)) {
                Some(true) if left > 0 => map.entry(key, &format_args!("{:?}", value)),
                _ => map.entry(key, value),
            };
        }
        map.finish()""")],
    '''
fn main() {
    let m: PalmTree<u32, (u32, u32), C4> = PalmTree::load((0..20).map(|i| (i, (i, i))));
    let b: BTreeMap<u32, (u32, u32)> = (0..20).map(|i| (i, (i, i))).collect();
    assert_eq!(format!("{:#?}", m), format!("{:#?}", b));
}
''')

bug("c11-release-only", "C11", "a descending range in a build without debug assertions",
    "it is let through",
    [("src/iter/mod.rs", """            panic!("PalmTreeIter: range start is greater than range end");""", """            debug_assert!(false, "PalmTreeIter: range start is greater than range end");""")],
    '''
fn main() {
    let m = Map::load((0..10).map(|i| (i, i)));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.range(7..3).count())).is_err());
}
''', profile="release")

bug("c11-over-reject", "C11", "a range from after a key up to and including the same key",
    "this empty range is rejected",
    [("src/iter/mod.rs", """        (Bound::Excluded(left), Bound::Excluded(right)) if left == right => {""", """        (Bound::Excluded(left), Bound::Excluded(right))
        | (Bound::Excluded(left), Bound::Included(right))
            if left == right =>
        {""")],
    '''
use std::ops::Bound::*;
fn main() {
    let m = Map::load((0..10).map(|i| (i, i)));
    assert_eq!(m.range((Excluded(3), Included(3))).count(), 0);
}
''')

bug("c12-clone-guard", "C12", "a panic while cloning an element of a node other than its first",
    "the guard which destroys the elements cloned so far takes one too many",
    [("src/array.rs", """        debug_assert!(length <= N::USIZE);
        let mut out = Self::new();
        for (index, element) in self.deref(length).iter().enumerate() {
            out.mut_ptr().add(index).write(element.clone());
        }
        out
    }""", """        debug_assert!(length <= N::USIZE);
        // Don't leak what was cloned already should cloning one of the elements panic.
        struct Guard<B>(*mut B, usize);
        impl<B> Drop for Guard<B> {
            fn drop(&mut self) {
                unsafe { std::ptr::drop_in_place(std::slice::from_raw_parts_mut(self.0, self.1)) }
            }
        }
        let mut out = Self::new();
        let mut guard = Guard(out.mut_ptr(), 0);
        for (index, element) in self.deref(length).iter().enumerate() {
            guard.1 = index + 1;
            guard.0.add(index).write(element.clone());
        }
        std::mem::forget(guard);
        out
    }""")],
    '''
thread_local!(static N: std::cell::Cell<i64> = std::cell::Cell::new(0));
static LIVE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
struct V(usize, u32);
fn v(i: u32) -> V { let mut l = LIVE.lock().unwrap(); let n = 0x5EED ^ l.len(); l.push(n); V(n, i) }
impl Clone for V { fn clone(&self) -> V { if self.1 == 2 && N.with(|n| n.get()) == 1 { panic!("no") } v(self.1) } }
impl Drop for V { fn drop(&mut self) {
    let ok = LIVE.try_lock().map(|mut l| { let i = self.0 ^ 0x5EED; i < l.len() && std::mem::replace(&mut l[i], 0) == self.0 }).unwrap_or(false);
    if !ok { std::process::exit(1) }
} }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m: PalmTree<u32, V, C4> = PalmTree::load((0..4).map(|i| (i, v(i))));
    N.with(|n| n.set(1));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(m.clone()))).is_err());
    N.with(|n| n.set(0));
    assert_eq!(m.iter().count(), 4);
}
''')

bug("c12-merge-read", "C12", "a panic in the input of a merge while the next item is fetched",
    "the item handed out last is destroyed twice",
    [("src/iter/merge.rs", """            Left => std::mem::replace(&mut self.next_left, self.left.next()),
            Right => std::mem::replace(&mut self.next_right, self.right.next()),""", """            Left => unsafe {
                let item = std::ptr::read(&self.next_left);
                std::ptr::write(&mut self.next_left, self.left.next());
                item
            },
            Right => unsafe {
                let item = std::ptr::read(&self.next_right);
                std::ptr::write(&mut self.next_right, self.right.next());
                item
            },""")],
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let x = std::rc::Rc::new(());
    let y = x.clone();
    let left = (0..4).map(move |i| { if i == 2 { panic!("no") } (i, y.clone()) });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        MergeIter::merge(left, std::iter::empty(), |a, b| a.0 > b.0, |a, b| a.0 == b.0).count()
    }));
    assert!(r.is_err());
    assert_eq!(std::rc::Rc::strong_count(&x), 1);
}
''')

bug("c12-size-first", "C12", "a panic in Clone of the key while an entry is inserted",
    "the map counts an entry it does not hold",
    [("src/entry.rs", """        let result = if self.cursor.is_null() {""", """        self.tree.size += 1;
        let result = if self.cursor.is_null() {"""),
     ("src/entry.rs", """            Ok(mut ptr) => {
                self.tree.size += 1;
                unsafe { ptr.value_mut().unwrap() }
            }
            Err((key, value)) => {""", """            Ok(mut ptr) => unsafe { ptr.value_mut().unwrap() },
            Err((key, value)) => {
                self.tree.size -= 1;""")],
    '''
thread_local!(static N: std::cell::Cell<bool> = std::cell::Cell::new(false));
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K(u32);
impl Clone for K { fn clone(&self) -> K { if N.with(|n| n.get()) { panic!("no") } K(self.0) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m: PalmTree<K, u32, C4> = PalmTree::new();
    m.insert(K(1), 1);
    N.with(|n| n.set(true));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.insert(K(2), 2))).is_err());
    N.with(|n| n.set(false));
    assert_eq!(m.len(), m.iter().count());
}
''')

bug("c15-no-progress", "C15", "an ordering under which a key is neither greater than a stored key nor the other way round when asked twice",
    "the search for the end of a range never ends",
    [("src/search.rs", """    let mut low = 0;
    let mut high = size - 1;
    while low != high {
        let mid = (low + high + 1) / 2;
        if unsafe { keys.get_unchecked(mid) } > key {
            high = mid - 1;
        } else {
            low = mid;
        }
    }
    low
}""", """    let mut low = 0;
    let mut high = size - 1;
    loop {
        let mid = (low + high + 1) / 2;
        // Often we're there before the search has closed in.
        if mid == 0 || keys[mid] <= *key && (mid == high || keys[mid + 1] > *key) {
            return mid;
        }
        if keys[mid] > *key {
            high = mid - 1;
        } else {
            low = mid;
        }
    }
}""")],
    '''
thread_local!(static N: std::cell::Cell<u32> = std::cell::Cell::new(0));
#[derive(Clone, PartialEq, Eq)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering {
    let n = N.with(|n| { n.set(n.get().saturating_sub(1)); n.get() });
    if n == 1 { N.with(|n| n.set(2)); if self.0 > o.0 { return std::cmp::Ordering::Less } }
    self.0.cmp(&o.0)
} }
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    // how the comparisons of one search are answered: truly, or from the n-th on as one wishes
    for bits in 0..1u32 << 12 {
        LIES.with(|l| l.set(bits));
        let m: PalmTree<L, u32, C4> = PalmTree::load((0..4).map(|i| (L(i), i)));
        ON.with(|o| o.set(true));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.range(..L(2)); }));
        ON.with(|o| o.set(false));
    }
}
thread_local!(static LIES: std::cell::Cell<u32> = std::cell::Cell::new(0));
thread_local!(static ON: std::cell::Cell<bool> = std::cell::Cell::new(false));
#[derive(Clone, PartialEq, Eq)]
struct L(u32);
impl PartialOrd for L { fn partial_cmp(&self, o: &L) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for L { fn cmp(&self, o: &L) -> std::cmp::Ordering {
    if ON.with(|o| o.get()) {
        // over and over the same answers
        let b = LIES.with(|l| { let b = l.get(); l.set(b.rotate_right(1) & 0x7ff | (b & 1) << 11); b & 1 });
        return if b == 1 { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
    }
    self.0.cmp(&o.0)
} }
''')

bug("c16-append-clones", "C16", "adding (+=) to a map whose nodes nobody shares",
    "every value of the map is duplicated",
    [("src/lib.rs", """        self.append_right(other)""", """        // Should merging panic, we still have what we had.
        *self = Self::merge_right(self.clone(), other)""")],
    '''
thread_local!(static N: std::cell::Cell<u32> = std::cell::Cell::new(0));
struct V(u32);
impl Clone for V { fn clone(&self) -> V { N.with(|n| n.set(n.get() + 1)); V(self.0) } }
fn main() {
    let mut m: PalmTree<u32, V, C4> = PalmTree::load((0..10).map(|i| (i, V(i))));
    m += PalmTree::load((5..8).map(|i| (i, V(i))));
    assert_eq!(N.with(|n| n.get()), 0);
}
''')
