exec(open("/verif/tools/bugs1.py").read().split("bugs = []")[0])
bugs = []
P += "cfg!(Y4, U4, U4, SyncShared);\n"
def bug(id, property, needs, breaks, edits, demo, profile="dev"):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=P + demo, profile=profile, miri=True))

bug("c19-relaxed-count", "C19", "a clone dropped on one thread, and then a write to the other on another, with nothing else ordering the two",
    "whether a node is shared is told from a relaxed read of its count, so the write may come before what the other thread still read",
    [("src/pointer.rs", "        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())",
      "        let arc = &mut *self.data.as_mut_ptr().cast::<Arc<A>>();\n        // There are no weak references, so a count of one means it's ours.\n        if Arc::strong_count(arc) == 1 {\n            &mut *(Arc::as_ptr(arc) as *mut A)\n        } else {\n            Arc::make_mut(arc)\n        }")],
    """
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
static READY: AtomicBool = AtomicBool::new(false);
fn main() {
    let mut a: PalmTree<u32, u32, Y4> = PalmTree::load((0..6).map(|i| (i, i)));
    let b = a.clone();
    std::thread::scope(|s| {
        s.spawn(move || {
            assert_eq!(b.iter().map(|(_, v)| *v).sum::<u32>(), 15);
            drop(b);
            READY.store(true, Relaxed);
        });
        s.spawn(move || {
            while !READY.load(Relaxed) { std::thread::yield_now() }
            for (_, v) in a.iter_mut() { *v += 1; }
        });
    });
}
""")
bug("c19-prefetch-beyond", "C19", "iterating over the last leaf of a branch which is not full",
    "the hint to prefetch the next leaf goes by the room in the branch, and reads a slot never filled",
    [("src/search.rs", "                                if next_index < (*branch).len() {\n                                    prefetch((*branch).get_leaf_unchecked(next_index));",
      "                                if next_index < C::BranchSize::USIZE {\n                                    prefetch((*branch).peek_leaf(next_index));"),
     ("src/search.rs", "    marker::PhantomData,\n};\n", "    marker::PhantomData,\n};\nuse typenum::Unsigned;\n"),
     ("src/branch.rs", "    #[inline(always)]\n    pub(crate) fn get_branch_mut(", "    /// A leaf which is only going to be prefetched.\n    #[inline(always)]\n    pub(crate) unsafe fn peek_leaf(&self, index: usize) -> &Leaf<K, V, C> {\n        self.children\n            .deref(C::BranchSize::USIZE)\n            .get_unchecked(index)\n            .as_leaf()\n    }\n\n    #[inline(always)]\n    pub(crate) fn get_branch_mut(")],
    """
fn main() {
    let m: PalmTree<u32, u32, C4> = PalmTree::load((0..9).map(|i| (i, i)));
    assert_eq!(m.iter().count(), 9);
}
""")
bug("c19-remove-reads-past", "C19", "removing from a full node of large values",
    "closing the gap moves one slot too many, which for a full node lies behind its end",
    [("src/array.rs", "                .copy_to(self.mut_ptr().add(index), length - (index + 1));", "                .copy_to(self.mut_ptr().add(index), length - index);")],
    """
fn main() {
    let mut m: PalmTree<u32, u32, C4> = PalmTree::load((0..40).map(|i| (i, i)));
    for i in 0..39 { assert_eq!(m.remove(&i), Some((i, i))); }
    let mut m: PalmTree<u32, [u64; 8], C4> = PalmTree::load((0..40).map(|i| (i, [7; 8])));
    for i in 0..39 { m.remove(&i).unwrap(); }
}
""")
bug("c19-static-hint", "C19", "lookups on two threads, in two maps which have nothing in common",
    "the depth of the last tree is kept in a plain static as a hint, written by every lookup on any thread",
    [("src/search.rs", "    let mut path: PtrPath<K, V, C> = ArrayVec::new();\n    walk_path(tree, key, &mut path).map(|leaf| (path, leaf))",
      "    // Most trees are as deep as the last one.\n    static mut DEPTH: usize = 0;\n    let mut path: PtrPath<K, V, C> = ArrayVec::new();\n    let leaf = walk_path(tree, key, &mut path);\n    unsafe {\n        if DEPTH != path.len() {\n            DEPTH = path.len();\n        }\n    }\n    leaf.map(|leaf| (path, leaf))")],
    """
fn main() {
    let go = |n: u32| move || {
        for r in 0..20 {
            let m: PalmTree<u32, u32, C4> = PalmTree::load((0..n + r).map(|i| (i, i)));
            assert_eq!(m.range(2..).count() as u32, n + r - 2);
            std::thread::yield_now();
        }
    };
    let a = std::thread::spawn(go(4));
    let b = std::thread::spawn(go(30));
    a.join().unwrap();
    b.join().unwrap();
}
""")
bug("c19-uninit-leaf", "C19", "any leaf made empty",
    "a node is made by assuming uninitialised memory to be one, which its length may not be",
    [("src/leaf.rs", "        Leaf {\n            length: 0,\n            keys: Array::new(),\n            values: Array::new(),\n        }",
      "        // The slots needn't be touched.\n        let mut leaf = unsafe { std::mem::MaybeUninit::<Self>::uninit().assume_init() };\n        leaf.length = 0;\n        leaf")],
    """
fn main() {
    let m: PalmTree<u32, u32, C4> = PalmTree::load((0..9).map(|i| (i, i)));
    assert_eq!(m.iter().count(), 9);
    let mut m = m.clone();
    m.append_right(PalmTree::load((20..30).map(|i| (i, i))));
    assert_eq!(m.len(), 19);
}
""")
bug("c19-freed-leaf-read", "C19", "removing the last entry of a leaf",
    "after the emptied leaf was released, it is looked at once more",
    [("src/search.rs", "        let leaf = self.deref_mut_leaf().unwrap();\n        let (key, value) = leaf.remove_unchecked(index);", "        let leaf: *mut Leaf<K, V, C> = self.deref_mut_leaf().unwrap();\n        let (key, value) = (*leaf).remove_unchecked(index);"),
     ("src/search.rs", "        *size -= 1;\n        if leaf.is_empty() {", "        *size -= 1;\n        if (*leaf).is_empty() {"),
     ("src/search.rs", "                    break;\n                }\n            }\n        }\n\n        (key, value)", "                    break;\n                }\n            }\n        }\n        if (*leaf).len() <= index {\n            // There is no entry here any more.\n            self.clear();\n        }\n\n        (key, value)")],
    """
fn main() {
    let mut m: PalmTree<u32, u32, C4> = PalmTree::load((0..9).map(|i| (i, i)));
    for i in 0..9 { assert_eq!(m.remove(&i), Some((i, i))); }
}
""")
bug("c19-linear-unrolled", "C19", "a linear lookup in a leaf whose length is no multiple of four",
    "the scan goes four slots at a time and compares keys behind the last one",
    [("src/leaf.rs", "        for (index, stored_key) in self.keys().iter().enumerate() {\n            if stored_key == key {\n                return Some(unsafe { self.values().get_unchecked(index) });\n            }\n        }\n        None",
      "        // Four at a time.\n        let rounded = ((self.length + 3) & !3).min(C::LeafSize::USIZE);\n        let keys = unsafe { self.keys.deref(rounded) };\n        let index = keys.iter().position(|stored_key| stored_key == key)?;\n        self.values().get(index)")],
    """
fn main() {
    let m: PalmTree<u32, u32, C4> = PalmTree::load((0..9).map(|i| (2 * i, i)));
    for i in 0..20 { assert_eq!(m.get_linear(&i).copied(), (i % 2 == 0 && i < 17).then(|| i / 2)); }
}
""")
bug("c19-unaligned-length", "C19", "any node whose length is read",
    "the length is put together from a byte and an unaligned word",
    [("src/leaf.rs", "    pub(crate) fn len(&self) -> usize {\n        self.length\n", "    pub(crate) fn len(&self) -> usize {\n        // A node holds far fewer than 2^32 entries.\n        let low = &self.length as *const usize as *const u8;\n        unsafe { usize::from(*low) | ((low.add(1) as *const u32).read() as usize) << 8 }\n")],
    """
fn main() {
    let m: PalmTree<u32, u32, C4> = PalmTree::load((0..9).map(|i| (i, i)));
    assert_eq!(m.iter().count(), 9);
}
""", "release")
