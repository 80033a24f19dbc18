exec(open("/verif/tools/bugs1.py").read().split("bugs = []")[0])
bugs = []
P += "cfg!(Y4, U4, U4, SyncShared);\n"
def bug(id, property, needs, breaks, edits, demo, profile="dev", miri=True):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=P + demo, profile=profile, **({"miri": True} if miri else {})))

bug("c07-share-let-go", "C07", "cloning an element drops another clone of the map, while a shared node is copied for writing",
    "a writer lets go of its share in a node before it copies it, so the node may go meanwhile",
    [("src/pointer.rs", "        Rc::make_mut(&mut *self.data.as_mut_ptr().cast::<Rc<A>>())",
      "        let rc = &mut *self.data.as_mut_ptr().cast::<Rc<A>>();\n        if Rc::strong_count(rc) > 1 {\n            // Someone else keeps the node, so our share in it can go.\n            let node = Rc::as_ptr(rc);\n            Rc::decrement_strong_count(node);\n            (rc as *mut Rc<A>).write(Rc::new((*node).clone()));\n        }\n        &mut *(Rc::as_ptr(rc) as *mut A)")],
    """
use std::cell::RefCell;
thread_local!(static OTHER: RefCell<Option<Box<dyn std::any::Any>>> = RefCell::new(None));
#[derive(Debug, PartialEq)]
struct V(Box<u32>);
impl Clone for V {
    fn clone(&self) -> V {
        // a cache of snapshots, say, cleared when memory is needed
        let other = OTHER.with(|o| o.borrow_mut().take());
        drop(other);
        V(self.0.clone())
    }
}
fn main() {
    let mut a: PalmTree<u32, V, S4> = PalmTree::load((0..3).map(|i| (i, V(Box::new(i)))));
    let b = a.clone();
    OTHER.with(|o| *o.borrow_mut() = Some(Box::new(b)));
    a.insert(1, V(Box::new(7)));
    assert_eq!(a.iter().map(|(_, v)| *v.0).collect::<Vec<_>>(), [0, 7, 2]);
}
""")
bug("c16-open-end-walks", "C16", "a range without an upper bound, on a large map",
    "the end of an open range is looked for by walking there from its start, which compares nothing but touches every leaf",
    [("src/iter/mod.rs", "            Bound::Unbounded => PathedPointer::highest(tree),\n        };\n        if right.is_null()",
      "            Bound::Unbounded => {\n                // Going on from the start spares us another walk from the root.\n                let mut last = left.clone();\n                let mut end = left.clone();\n                while unsafe { end.step_forward() } {\n                    last = end.clone();\n                }\n                last\n            }\n        };\n        if right.is_null()")],
    """
fn main() {
    let m: StdPalmTree<u32, u32> = PalmTree::load((0..300_000).map(|i| (i, i)));
    let t = std::time::Instant::now();
    for i in 0..2000u32 {
        assert_eq!(m.range(i..).next(), Some((&i, &i)));
        // 2000 lookups take milliseconds, walking over 300 000 entries each time takes minutes
        assert!(t.elapsed().as_secs() < 8, "{:?}", t.elapsed());
    }
}
""", miri=False)
bug("c16-remove-recounts", "C16", "a removal which empties a leaf, in a large map",
    "whenever a leaf goes, the nodes left are counted to see whether the tree is due for rebuilding",
    [("src/search.rs", "                    branch.remove_leaf(index);\n", """                    let emptied = branch.remove_leaf(index);
                    drop(emptied);
                    // A tree of many more leaves than it has entries for should be rebuilt.
                    let root = self.stack.first().map_or(&*branch, |(root, _)| &**root);
                    if root.count_leaves() > *size + 1 {
                        lowered.shrink_to_fit();
                    }
"""),
     ("src/branch.rs", "    #[inline(always)]\n    pub(crate) fn get_branch_mut(", "    pub(crate) fn count_leaves(&self) -> usize {\n        if self.has_leaves() {\n            self.len()\n        } else {\n            (0..self.len()).map(|index| self.get_branch(index).count_leaves()).sum()\n        }\n    }\n\n    #[inline(always)]\n    pub(crate) fn get_branch_mut(")],
    """
fn main() {
    let n = 1_000_000u32;
    let mut m: PalmTree<u32, u32, C4> = PalmTree::load((0..n).map(|i| (i, i)));
    let t = std::time::Instant::now();
    for i in 0..60_000 {
        assert_eq!(m.remove(&i), Some((i, i)));
        // removing takes less than a second, counting a quarter of a million leaves each time takes minutes
        assert!(t.elapsed().as_secs() < 8, "{:?}", t.elapsed());
    }
    assert_eq!(m.len(), 940_000);
}
""", profile="release", miri=False)
bug("c08-tie-goes-right", "C08", "the key is put back which a full branch is led to by, after it was removed, and the branch splits right there",
    "a key equal to that of the left half of a split is put into the right half",
    [("src/search.rs", """                                branch.get_branch_unchecked(index).split_key().clone();
                            let choose_index = if key <= left_highest {
                                index
                            } else {
                                index + 1
                            };
""", """                                branch.get_branch_unchecked(index).split_key().clone();
                            let choose_index = if key <= left_highest {
                                // What isn't lower than the left half goes right.
                                index + (key == left_highest) as usize
                            } else {
                                index + 1
                            };
""")],
    """
fn main() {
    for n in 0..300u32 {
        for gone in 0..n {
            let mut m: Map = PalmTree::load((0..n).map(|i| (i * 2, i)));
            assert!(m.remove(&(gone * 2)).is_some());
            // fill the leaf again, then put the key back
            if gone > 0 { if let Entry::Vacant(e) = m.entry(gone * 2 - 1) { e.insert(7); } else { panic!() } }
            if let Entry::Vacant(e) = m.entry(gone * 2) { *e.insert(gone) += 0; } else { panic!() }
            let keys: Vec<u32> = m.iter().map(|(k, _)| *k).collect();
            assert!(keys.windows(2).all(|w| w[0] < w[1]), "{} {}", n, gone);
            if let Entry::Occupied(e) = m.entry(gone * 2) { assert_eq!(*e.get(), gone); } else { panic!("{} {}", n, gone) }
        }
    }
}
""", miri=False)
bug("c09-count-u16", "C09", "nodes with room for more than 65 536 entries, one of which is put in near the front",
    "the number of slots to move up is kept in sixteen bits",
    [("src/array.rs", """                .copy_to(self.mut_ptr().add(index + 1), length - index);""",
      """                .copy_to(self.mut_ptr().add(index + 1), (length as u16).wrapping_sub(index as u16) as usize);""")],
    """
pub struct Large;
impl<K, V> TreeConfig<K, V> for Large { type BranchSize = U4; type LeafSize = typenum::Sum<typenum::U65536, U8>; type PointerKind = Unique; }
fn main() {
    for n in [1000u32, 65536, 65540] {
        let mut m: PalmTree<u32, u32, Large> = PalmTree::load((0..n).map(|i| (i * 2, i)));
        assert_eq!(m.insert(1, 7), None);
        assert_eq!(m.len(), n as usize + 1);
        assert!(m.iter().map(|(k, _)| *k).eq([0, 1].into_iter().chain((1..n).map(|i| i * 2))));
    }
}
""", miri=False)
bug("c01-tail-remembered", "C01", "an insertion past the end, then one further past it by the other entry point, then one between the two, all on the same map",
    "a map remembers where it was last added to at its end, to go there at once; insert_recursive forgets to update that",
    [("src/lib.rs", "    size: usize,\n    root: Option<Pointer", "    size: usize,\n    /// No key is higher than this, if anything.\n    tail: Option<K>,\n    root: Option<Pointer"),
     ("src/lib.rs", "        Self {\n            size: 0,\n            root: None,\n        }\n    }\n}", "        Self {\n            size: 0,\n            tail: None,\n            root: None,\n        }\n    }\n}"),
     ("src/lib.rs", "            return Self {\n                size: 0,\n", "            return Self {\n                size: 0,\n                tail: None,\n"),
     ("src/lib.rs", "        let mut tree = Self {\n            size,\n", "        let mut tree = Self {\n            size,\n            tail: None,\n"),
     ("src/lib.rs", "            root: self.root.clone(),\n            size: self.size,\n", "            root: self.root.clone(),\n            tail: None,\n            size: self.size,\n"),
     ("src/entry.rs", "            Pointer::make_mut(root);\n            match PathedPointer::exact_key(root, &key) {", "            Pointer::make_mut(root);\n            if tree.tail.as_ref().map_or(false, |tail| *tail < key) {\n                // We know already where this goes.\n                return Self::Vacant(VacantEntry {\n                    key,\n                    tree,\n                    cursor: PathedPointer::null(),\n                });\n            }\n            match PathedPointer::exact_key(root, &key) {"),
     ("src/entry.rs", "        let result = if self.cursor.is_null() {\n            unsafe {", "        let at_end = self.cursor.is_null();\n        if at_end {\n            self.tree.tail = Some(self.key.clone());\n        }\n        let result = if at_end {\n            unsafe {")],
    """
fn main() {
    let mut m = Map::new();
    m.insert(1, 1);
    m.insert(2, 2);
    m.insert_recursive(9, 9);
    m.insert(5, 5);
    assert_eq!(list(&m), [(1, 1), (2, 2), (5, 5), (9, 9)]);
}
""", miri=False, profile="release")
