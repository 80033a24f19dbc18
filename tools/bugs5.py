HEAD = ["#![allow(warnings)]", "use palmtree::*;", "type M = StdPalmTree<u32, String>;"]
bugs = []
def bug(id, property, needs, breaks, edits, accept=(), refuse=()):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, head=HEAD, accept=list(accept), refuse=list(refuse)))

bug("c18-entry-get-mut", "C18", "a program that keeps what get_mut of an occupied entry gave it while using the entry again",
    "an occupied entry's get_mut hands out exclusive references for as long as the map is borrowed, any number at a time",
    [("src/entry.rs", "    pub fn get_mut(&mut self) -> &mut V {\n        unsafe { self.cursor.value_mut() }.unwrap()", "    pub fn get_mut(&mut self) -> &'a mut V {\n        unsafe { self.cursor.clone().into_entry_mut() }.1")],
    ["fn f(m: &mut M) { if let Entry::Occupied(mut o) = m.entry(1) { o.get_mut().push('a'); } }"],
    ["fn f(m: &mut M) { if let Entry::Occupied(mut o) = m.entry(1) { let a = o.get_mut(); let b = o.get_mut(); std::mem::swap(a, b); } }"])
bug("c18-entry-get", "C18", "a program that keeps what get of an occupied entry gave it and removes the entry",
    "an occupied entry's get hands out references that outlive the entry, and so its removal",
    [("src/entry.rs", "    pub fn get(&self) -> &V {\n        unsafe { self.cursor.value() }.unwrap()", "    pub fn get(&self) -> &'a V {\n        unsafe { self.cursor.clone().into_entry_mut() }.1")],
    ["fn f(m: &mut M) { if let Entry::Occupied(o) = m.entry(1) { drop(o.get().clone()); o.remove(); } }"],
    ["fn f(m: &mut M) { if let Entry::Occupied(o) = m.entry(1) { let a = o.get(); o.remove(); drop(a.clone()); } }"])
bug("c18-entry-key", "C18", "a program that keeps the key seen through an occupied entry and removes the entry",
    "an occupied entry's key hands out references that outlive the entry, and so its removal",
    [("src/entry.rs", "    pub fn key(&self) -> &K {\n        unsafe { self.cursor.key() }.unwrap()", "    pub fn key(&self) -> &'a K {\n        unsafe { self.cursor.clone().into_entry_mut() }.0")],
    ["fn f(m: &mut M) { if let Entry::Occupied(o) = m.entry(1) { let k = *o.key(); o.remove(); } }"],
    ["fn f(m: &mut M) { if let Entry::Occupied(o) = m.entry(1) { let k = o.key(); o.remove(); drop(k.clone()); } }"])
bug("c18-into-mut", "C18", "a program that calls into_mut twice on one entry",
    "into_mut no longer uses the entry up, so one can have two exclusive references to a value, or one and remove it",
    [("src/entry.rs", "    pub fn into_mut(self) -> &'a mut V {\n        unsafe { self.cursor.into_entry_mut() }.1", "    pub fn into_mut(&mut self) -> &'a mut V {\n        unsafe { self.cursor.clone().into_entry_mut() }.1")],
    ["fn f(m: &mut M) -> &mut String { match m.entry(1) { Entry::Occupied(mut o) => o.into_mut(), Entry::Vacant(v) => v.insert(String::new()) } }"],
    ["fn f(m: &mut M) { if let Entry::Occupied(mut o) = m.entry(1) { let a = o.into_mut(); o.remove(); a.push('a'); } }"])
bug("c18-iter-mut-clone", "C18", "a program that clones a mutable iterator",
    "mutable iterators can be cloned, so one can have two exclusive references to a value",
    [("src/iter/mut_iter.rs", "impl<'a, K, V, C> FusedIterator for IterMut<'a, K, V, C>\nwhere\n    K: Clone + Ord,", "impl<'a, K, V, C> Clone for IterMut<'a, K, V, C>\nwhere\n    C: TreeConfig<K, V>,\n{\n    fn clone(&self) -> Self {\n        Self {\n            left: self.left.clone(),\n            right: self.right.clone(),\n        }\n    }\n}\n\nimpl<'a, K, V, C> FusedIterator for IterMut<'a, K, V, C>\nwhere\n    K: Ord + Clone,")],
    ["fn f(m: &mut M) { for (_, v) in m.iter_mut() { v.push('a'); } }"],
    ["fn f(m: &mut M) { let mut i = m.iter_mut(); let mut j = i.clone(); if let (Some(a), Some(b)) = (i.next(), j.next()) { std::mem::swap(a.1, b.1); } }"])
bug("c18-get-key-lifetime", "C18", "a program that looks something up by a key that does not live as long as the result",
    "what get_linear returns is tied to the key looked up as well as to the map",
    [("src/lib.rs", "    pub fn get_linear(&self, key: &K) -> Option<&V> {", "    pub fn get_linear<'a>(&'a self, key: &'a K) -> Option<&'a V> {")],
    ["fn f(m: &M, k: u32) -> Option<&String> { m.get_linear(&(k + 1)) }"], [])
bug("c18-linear-lifetime", "C18", "a program that keeps what get_linear found while changing or dropping the map",
    "what get_linear returns is tied to the key looked up instead of the map",
    [("src/lib.rs", "    pub fn get_linear(&self, key: &K) -> Option<&V> {\n        if let Some(ref root) = self.root {\n            root.get_linear(key)", "    pub fn get_linear<'a>(&self, key: &'a K) -> Option<&'a V>\n    where\n        C: 'a,\n    {\n        if let Some(ref root) = self.root {\n            let root: *const Branch<K, V, C> = &**root;\n            unsafe { &*root }.get_linear(key)")],
    ["fn f(m: &M) -> Option<String> { m.get_linear(&1).cloned() }"],
    ["fn f(mut m: M) { let v = m.get_linear(&1); m.insert(2, String::new()); drop(v.cloned()); }"])
bug("c18-range-lifetime", "C18", "a program that keeps an iterator over a range while changing or dropping the map",
    "what range returns is not tied to the map",
    [("src/lib.rs", "    pub fn range<R>(&self, range: R) -> Iter<'_, K, V, C>\n    where\n        R: RangeBounds<K>,\n    {\n        Iter::new(self, range)", "    pub fn range<'a, R>(&self, range: R) -> Iter<'a, K, V, C>\n    where\n        C: 'a,\n        R: RangeBounds<K>,\n    {\n        let this: *const Self = self;\n        Iter::new(unsafe { &*this }, range)")],
    ["fn f(m: &M) -> usize { m.range(1..).count() }"],
    ["fn f(mut m: M) { let mut i = m.range(1..); m.insert(2, String::new()); drop(i.next()); }"])
bug("c18-vacant-key", "C18", "a program that keeps the key seen through a vacant entry and uses the entry up",
    "a vacant entry's key hands out references that outlive the entry",
    [("src/entry.rs", "    pub fn key(&self) -> &K {\n        &self.key", "    pub fn key(&self) -> &'a K {\n        let key: *const K = &self.key;\n        unsafe { &*key }")],
    ["fn f(m: &mut M) { if let Entry::Vacant(v) = m.entry(1) { let k = *v.key(); v.insert(String::new()); } }"],
    ["fn f(m: &mut M) { if let Entry::Vacant(v) = m.entry(1) { let k = v.key(); v.insert(String::new()); drop(k.clone()); } }"])
bug("c18-range-mut-lifetime", "C18", "a program with bounds that do not live as long as the iterator",
    "what range_mut returns is tied to the bounds as well as to the map",
    [("src/lib.rs", "    pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>\n    where\n        V: Clone,\n        R: RangeBounds<K>,", "    pub fn range_mut<'a, R>(&'a mut self, range: R) -> IterMut<'a, K, V, C>\n    where\n        V: Clone,\n        R: RangeBounds<K> + 'a,")],
    ["fn f(m: &mut M, k: u32) -> iter_of::T<'_> { m.range_mut((std::ops::Bound::Excluded(&k), std::ops::Bound::Unbounded)) } mod iter_of { pub type T<'a> = palmtree::IterMut<'a, u32, String, palmtree::Tree64<palmtree::Unique>>; }"], [])
