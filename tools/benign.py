#!/usr/bin/env python3
"""benign.py [SET...] [-- ID...]: applies edits that keep the behaviour to a copy of /repo and runs the checks of a copy of /verif on it; all must stay quiet."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALT = "/tmp/alt"
SETS = {}
SETS["search"] = [
 ("src/search.rs", """    let size = keys.len();
    if size == 0 {
        return None;
    }

    let mut low = 0;
    let mut high = size - 1;
    while low != high {
        let mid = (low + high) / 2;
        if unsafe { keys.get_unchecked(mid) } < key {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    if low == size || unsafe { keys.get_unchecked(low) } < key {
        None
    } else {
        Some(low)
    }
""", """    match keys.binary_search(key) {
        Ok(index) => Some(index),
        Err(index) if index < keys.len() => Some(index),
        Err(_) => None,
    }
"""),
 ("src/search.rs", """    let size = keys.len();
    let mut low = 0;
    let mut high = size - 1;
    while low != high {
        let mid = (low + high) / 2;
        if unsafe { keys.get_unchecked(mid) } < key {
            low = mid + 1;
        } else {
            high = mid;
        }
    }
    low
""", """    let last = keys.len() - 1;
    keys.partition_point(|candidate| candidate < key).min(last)
"""),
 ("src/search.rs", """    let size = keys.len();
    let mut low = 0;
    let mut high = size - 1;
    while low != high {
        let mid = (low + high + 1) / 2;
        if unsafe { keys.get_unchecked(mid) } > key {
            high = mid - 1;
        } else {
            low = mid;
        }
    }
    low
""", """    assert!(!keys.is_empty());
    keys.partition_point(|candidate| candidate <= key).max(1) - 1
"""),
 ("src/leaf.rs", """        self.keys()
            .binary_search(key)
            .ok()
            .map(|index| unsafe { self.values().get_unchecked(index) })
""", """        let index = self.keys().partition_point(|stored| stored < key);
        match self.keys().get(index) {
            Some(stored) if stored == key => self.values().get(index),
            _ => None,
        }
"""),
 ("src/search.rs", """            match leaf.keys().binary_search(key) {
                Ok(index) => Ok(Self {
                    stack,
                    leaf,
                    index,
                    lifetime: PhantomData,
                }),
                Err(index) => Err(Self {
                    stack,
                    leaf,
                    index,
                    lifetime: PhantomData,
                }),
            }
""", """            let found = leaf.keys().binary_search(key);
            let (Ok(index) | Err(index)) = found;
            let path = Self {
                stack,
                leaf,
                index,
                lifetime: PhantomData,
            };
            if found.is_ok() {
                Ok(path)
            } else {
                Err(path)
            }
"""),
 ("src/search.rs", """                // If we can't step forward, we were at the highest key already, so the iterator is empty.
                    ptr = Self::null();
""".replace("                // If", "                    // If",1), """                    return Self::null();
"""),
 ("src/branch.rs", """        let mut branch = self;
        loop {
            if let Some(index) = find_key(branch.keys(), key) {
                if branch.has_branches() {
                    branch = branch.get_branch(index);
                } else {
                    return branch.get_leaf(index).get(key);
                }
            } else {
                return None;
            }
        }
""", """        let index = find_key(self.keys(), key)?;
        if self.has_branches() {
            self.get_branch(index).get(key)
        } else {
            self.get_leaf(index).get(key)
        }
"""),
]
SETS["more"] = [
 # nothing to merge
 ("src/lib.rs", """        if self.root.is_some() {
            // A panic while merging leaves us empty, so the size must go with the root.
            let left = std::mem::take(self).into_iter();
            let right = other.into_iter();
            *self = Self::load(Self::merge_right_from(left, right));
        } else {""", """        if other.is_empty() {
            drop(other);
        } else if !self.is_empty() {
            // A panic while merging leaves us empty, so the size must go with the root.
            let left = std::mem::take(self).into_iter();
            let right = other.into_iter();
            *self = Self::load(Self::merge_right_from(left, right));
        } else {"""),
 # a path is pushed level by level
 ("src/search.rs", """            stack.push((branch, 0));
            if branch.has_branches() {
                branch = unsafe { branch.get_branch_unchecked(0) };
            } else {
                return Self {
                    stack,
                    leaf: unsafe { branch.get_leaf_unchecked(0) },
                    index: 0,
                    lifetime: PhantomData,
                };
            }""", """            stack.push((branch, 0));
            if branch.has_leaves() {
                break Self {
                    leaf: branch.get_leaf(0),
                    stack,
                    index: 0,
                    lifetime: PhantomData,
                };
            }
            branch = branch.get_branch(0);"""),
 # leaves of the right edge are split off whole, as the recursive insertion does
 ("src/search.rs", """        let mut raised = Vec::new();
        loop {""", """        let mut raised = Vec::with_capacity(8);
        loop {"""),
]
SETS["walk"] = [
 ("src/search.rs", """        let mut branch = tree;
        let mut stack = PtrPath::new();
        loop {
            if branch.is_empty() {
                return Self::null();
            }
            stack.push((branch, 0));
            if branch.has_branches() {
                branch = unsafe { branch.get_branch_unchecked(0) };
            } else {
                return Self {
                    stack,
                    leaf: unsafe { branch.get_leaf_unchecked(0) },
                    index: 0,
                    lifetime: PhantomData,
                };
            }
        }
""", """        let mut ptr = Self::null();
        let mut branch = tree;
        while !branch.is_empty() {
            ptr.stack.push((branch, 0));
            if !branch.has_branches() {
                ptr.leaf = branch.get_leaf(0);
                return ptr;
            }
            branch = branch.get_branch(0);
        }
        Self::null()
"""),
 ("src/search.rs", """        if !self.is_null() {
            self.index += 1;
            if self.index >= (*self.leaf).keys().len() {
                loop {
                    // Pop""", """        if self.is_null() {
            return true;
        }
        {
            self.index += 1;
            if self.index >= (*self.leaf).len() {
                loop {
                    // Pop"""),
 ("src/search.rs", """                                // Prefetch the next leaf.
                                let next_index = (index + 1) as usize;
                                if next_index < (*branch).len() {
                                    prefetch((*branch).get_leaf_unchecked(next_index));
                                }
                                break;""", """                                break;"""),
 ("src/search.rs", """        let mut lowered = self.lowered_keys();
        let leaf = self.deref_mut_leaf().unwrap();
        let (key, value) = leaf.remove_unchecked(index);
        // Destroying what has become empty can panic, so the size must be right by then.
        *size -= 1;
        if leaf.is_empty() {
            while let Some((branch, index)) = self.stack.pop() {
                let branch = &mut *(branch as *mut Branch<K, V, C>);
                let index = index as usize;
                if branch.has_leaves() {
                    branch.remove_leaf(index);
                } else {
                    branch.remove_branch(index);
                }
                if !branch.is_empty() {
                    while let Some(highest) = lowered.pop() {
                        if let Some((parent, index)) = self.stack.pop() {
                            let parent = &mut *(parent as *mut Branch<K, V, C>);
                            parent.keys_mut()[index as usize] = highest;
                        }
                    }
                    break;
                }
            }
        }

        (key, value)
""", """        let lowered = self.lowered_keys();
        let leaf = self.deref_mut_leaf().expect("nothing to remove");
        let removed = leaf.remove_unchecked(index);
        *size = size.saturating_sub(1);
        if !leaf.is_empty() {
            return removed;
        }
        loop {
            let (branch, index) = match self.stack.pop() {
                Some((branch, index)) => (&mut *(branch as *mut Branch<K, V, C>), index as usize),
                None => return removed,
            };
            if branch.has_branches() {
                drop(branch.remove_branch(index));
            } else {
                drop(branch.remove_leaf(index));
            }
            if !branch.is_empty() {
                break;
            }
        }
        for highest in lowered {
            if let Some((parent, index)) = self.stack.pop() {
                let parent = &mut *(parent as *mut Branch<K, V, C>);
                parent.keys_mut()[index as usize] = highest;
            }
        }
        removed
"""),
 ("src/search.rs", """        let left = self.stack.iter().map(|(_, index)| index);
        let right = other.stack.iter().map(|(_, index)| index);
        left.cmp(right).then(self.index.cmp(&other.index))
""", """        for (left, right) in self.stack.iter().zip(&other.stack) {
            if left.1 != right.1 {
                return left.1.cmp(&right.1);
            }
        }
        self.index.cmp(&other.index)
"""),
 ("src/iter/owned.rs", """        loop {
            let leaf = match unsafe { self.left.deref_mut_leaf() } {
                None => return None,
                Some(leaf) => leaf,
            };
            if leaf.is_empty() {
                unsafe { self.left.step_forward() };
            } else {
                let result = leaf.pop_front();
                self.remaining -= 1;
                return result;
            }
        }
""", """        while let Some(leaf) = unsafe { self.left.deref_mut_leaf() } {
            if let Some(result) = leaf.pop_front() {
                self.remaining -= 1;
                return Some(result);
            }
            unsafe { self.left.step_forward() };
        }
        None
"""),
 ("src/entry.rs", """        unsafe { self.cursor.remove(&mut self.tree.size) }
""", """        let OccupiedEntry { tree, cursor } = self;
        let (key, value) = unsafe { cursor.remove(&mut tree.size) };
        (key, value)
"""),
]
SETS["nodes"] = [
 ("src/pointer.rs", """        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())
""", """        let arc = &mut *self.data.as_mut_ptr().cast::<Arc<A>>();
        if Arc::get_mut(arc).is_none() {
            let copy = (**arc).clone();
            *arc = Arc::new(copy);
        }
        Arc::get_mut(arc).unwrap()
"""),
 ("src/pointer.rs", """        Rc::make_mut(&mut *self.data.as_mut_ptr().cast::<Rc<A>>())
""", """        let rc = &mut *self.data.as_mut_ptr().cast::<Rc<A>>();
        if Rc::strong_count(rc) != 1 {
            *rc = Rc::new((**rc).clone());
        }
        Rc::get_mut(rc).unwrap()
"""),
 ("src/leaf.rs", """        let right = {
            let this = Pointer::make_mut(&mut this);
            let half = this.length / 2;
            let right = Pointer::new(Leaf {
                length: this.length - half,
                keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
            });
            this.length = half;
            right
        };
        (this, right)
""", """        let left = Pointer::make_mut(&mut this);
        let half = left.length / 2;
        let mut right = Leaf::new();
        unsafe {
            right.keys = Array::steal_from(&mut left.keys, left.length, half);
            right.values = Array::steal_from(&mut left.values, left.length, half);
        }
        right.length = left.length - half;
        left.length = half;
        let right = Pointer::new(right);
        (this, right)
"""),
 ("src/leaf.rs", """        let result = (
            self.keys.remove(self.length, index),
            self.values.remove(self.length, index),
        );
        self.length -= 1;
        result
""", """        let length = self.length;
        self.length = length - 1;
        let value = self.values.remove(length, index);
        let key = self.keys.remove(length, index);
        (key, value)
"""),
 ("src/array.rs", """        if index < length {
            self.mut_ptr()
                .add(index)
                .copy_to(self.mut_ptr().add(index + 1), length - index);
        }
        self.mut_ptr().add(index).write(value);
""", """        let mut hole = length;
        while hole > index {
            let below = self.mut_ptr().add(hole - 1).read();
            self.mut_ptr().add(hole).write(below);
            hole -= 1;
        }
        self.mut_ptr().add(hole).write(value);
"""),
 ("src/array.rs", """        let mut out = Self::new();
        for (index, element) in self.deref(length).iter().enumerate() {
            out.mut_ptr().add(index).write(element.clone());
        }
        out
""", """        let mut out = Self::new();
        let mut index = length;
        while index > 0 {
            index -= 1;
            out.mut_ptr().add(index).write(self.deref(length)[index].clone());
        }
        out
"""),
 ("src/branch.rs", """            self.keys.drop(self.length);
            while self.length > 0 {
                // The `Node` type can't drop itself because it doesn't know
                // whether it's a Branch or a Leaf, so we *must* drop every `Node`
                // from the `Branch` it's stored in.
                let node = self.children.pop(self.length);
                self.length -= 1;
                if self.has_branches() {
                    node.unwrap_branch();
                } else {
                    node.unwrap_leaf();
                }
            }
""", """            let total = self.length;
            let mut length = total;
            while length > 0 {
                let node = self.children.pop(length);
                length -= 1;
                if self.has_branches {
                    drop(node.unwrap_branch());
                } else {
                    drop(node.unwrap_leaf());
                }
            }
            self.keys.drop(total);
"""),
]
SETS["maps"] = [
 ("src/lib.rs", """        match self.entry(key) {
            Entry::Occupied(mut entry) => Some(entry.insert(value)),
            Entry::Vacant(entry) => {
                entry.insert(value);
                None
            }
        }
""", """        if let Some(slot) = self.get_mut(&key) {
            return Some(std::mem::replace(slot, value));
        }
        if let Entry::Vacant(entry) = self.entry(key) {
            entry.insert(value);
        }
        None
"""),
 ("src/lib.rs", """        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
            Some(unsafe { path.remove(&mut self.size) })
        } else {
            None
        }
""", """        let path = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key).ok()?;
        let removed = unsafe { path.remove(&mut self.size) };
        // What's left may do with fewer levels.
        if self.size > 0 {
            self.trim_root();
        }
        Some(removed)
"""),
 ("src/lib.rs", """        let mut out = Self::new();
        for (key, value) in iter {
            out.insert(key, value);
        }
        out
""", """        let mut out = Self::new();
        out.extend(iter);
        out
"""),
 ("src/lib.rs", """        self.len() == other.len() && self.iter().eq(other.iter())
""", """        if self.size != other.size {
            return false;
        }
        self.iter().zip(other.iter()).all(|(a, b)| a.0 == b.0 && a.1 == b.1)
"""),
 ("src/lib.rs", """        for entry in self {
            entry.hash(state);
        }
""", """        self.iter().for_each(|(key, value)| {
            key.hash(state);
            value.hash(state);
        });
"""),
 ("src/lib.rs", """        f.debug_map().entries(self.iter()).finish()
""", """        let mut map = f.debug_map();
        for (key, value) in self.iter() {
            map.entry(key, value);
        }
        map.finish()
"""),
 ("src/iter/mod.rs", """    match (range.start_bound(), range.end_bound()) {
        (Bound::Excluded(left), Bound::Excluded(right)) if left == right => {
            panic!("PalmTreeIter: start and end bounds are equal and excluding each other")
        }
        (Bound::Included(left), Bound::Included(right))
        | (Bound::Included(left), Bound::Excluded(right))
        | (Bound::Excluded(left), Bound::Included(right))
        | (Bound::Excluded(left), Bound::Excluded(right))
            if left.cmp(right) == Ordering::Greater =>
        {
            panic!("PalmTreeIter: range start is greater than range end");
        }
        _ => {}
    }
""", """    let start = match range.start_bound() {
        Bound::Included(key) => Some((key, false)),
        Bound::Excluded(key) => Some((key, true)),
        Bound::Unbounded => None,
    };
    let end = match range.end_bound() {
        Bound::Included(key) => Some((key, false)),
        Bound::Excluded(key) => Some((key, true)),
        Bound::Unbounded => None,
    };
    if let (Some((left, left_out)), Some((right, right_out))) = (start, end) {
        match left.cmp(right) {
            Ordering::Greater => panic!("PalmTreeIter: range start is greater than range end"),
            Ordering::Equal if left_out && right_out => {
                panic!("PalmTreeIter: start and end bounds are equal and excluding each other")
            }
            _ => {}
        }
    }
"""),
 ("src/iter/merge.rs", """        match (left, right) {
            (Some(left), Some(right)) if compare(left, right) => Right,
            (None, Some(_)) => Right,
            _ => Left,
        }
""", """        if let Some(right) = right {
            if let Some(left) = left {
                if !compare(left, right) {
                    return Left;
                }
            }
            return Right;
        }
        Left
"""),
 ("src/lib.rs", """    pub fn append_left(&mut self, other: Self)
    where
        V: Clone,
    {
        if self.root.is_some() {
            // A panic while merging leaves us empty, so the size must go with the root.
            let left = std::mem::take(self).into_iter();
            let right = other.into_iter();
            *self = Self::load(Self::merge_left_from(left, right));
        } else {
            *self = other;
        }
    }
""", """    pub fn append_left(&mut self, other: Self)
    where
        V: Clone,
    {
        let this = std::mem::take(self);
        *self = Self::merge_left(this, other);
    }
"""),
 ("src/lib.rs", """            // If a branch bearing root only has one child, we can replace the root with that child.
            while root.has_branches() && root.len() == 1 {
                *root = Pointer::make_mut(root).remove_last_branch().1;
            }
""", """            loop {
                if !root.has_branches() || root.len() > 1 {
                    break;
                }
                let child = Pointer::make_mut(root).remove_last_branch().1;
                *root = child;
            }
"""),
]
SETS["iters"] = [
 ("src/iter/ref_iter.rs", """impl<'a, K, V, C> FusedIterator for""", """impl<'a, K, V, C> Iter<'a, K, V, C>
where
    K: Clone + Ord,
    C: TreeConfig<K, V>,
{
    #[allow(dead_code)]
    fn done(&self) -> bool {
        self.left.is_null() || self.right.is_null()
    }
}

impl<'a, K, V, C> FusedIterator for"""),
 ("src/iter/owned.rs", """        loop {
            let leaf = match unsafe { self.right.deref_mut_leaf() } {
                None => return None,
                Some(leaf) => leaf,
            };
            if leaf.is_empty() {
                unsafe { self.right.step_back() };
            } else {
                self.remaining -= 1;
                return leaf.pop_back();
            }
        }
""", """        let result = loop {
            let leaf = unsafe { self.right.deref_mut_leaf() }?;
            match leaf.pop_back() {
                Some(entry) => break entry,
                None => unsafe {
                    self.right.step_back();
                },
            }
        };
        self.remaining -= 1;
        Some(result)
"""),
 ("src/search.rs", """        let mut branch = root;
        let mut index;
        // Cloning a key can panic, so they must all be cloned before any of them is stored.
        let mut raised = Vec::new();
        loop {
            index = branch.len() - 1;
            debug_assert!(branch.highest() < &key);
            raised.push(key.clone());
            self.stack.push((branch, index as isize));
            if branch.has_branches() {
                branch = branch.get_branch_mut(index);
            } else {
                break;
            }
        }
        for ((branch, index), key) in self.stack.iter().zip(raised) {
            let branch = &mut *(*branch as *mut Branch<K, V, C>);
            branch.keys_mut()[*index as usize] = key;
        }
        self.leaf = branch.get_leaf(index);
""", """        let mut branch = root;
        loop {
            let index = branch.len() - 1;
            self.stack.push((branch, index as isize));
            if !branch.has_branches() {
                self.leaf = branch.get_leaf(index);
                break;
            }
            branch = branch.get_branch_mut(index);
        }
        let raised: Vec<K> = self.stack.iter().map(|_| key.clone()).collect();
        for ((branch, index), key) in self.stack.iter().rev().zip(raised) {
            let branch = &mut *(*branch as *mut Branch<K, V, C>);
            branch.keys_mut()[*index as usize] = key;
        }
"""),
 ("src/lib.rs", """        #[cfg(debug_assertions)]
        let mut last_record: (usize, Option<K>) = (0, None);

""", """        let mut last_record: (usize, Option<K>) = (0, None);

"""),
 ("src/lib.rs", """            #[cfg(debug_assertions)]
            {
                let (index, last_key) = last_record;""", """            if cfg!(debug_assertions) {
                let (index, last_key) = last_record;"""),
 ("src/lib.rs", """            if len == 0 {
                *root = Pointer::new(Branch::unit(Pointer::new(Leaf::unit(key, value))));
                self.size = 1;
                None
            } else {""", """            if len == 0 {
                self.root = None;
                self.insert_recursive(key, value)
            } else {"""),
 ("src/lib.rs", """                        let key2 = root_ref.highest().clone();
                        let child = std::mem::replace(root_ref, Branch::new(true));
                        root_ref.push_branch(key2, Pointer::new(child));
                        self.insert(key, value)
""", """                        Self::split_root(root);
                        self.insert_recursive(key, value)
"""),
]
SETS["pointer"] = [
 ("src/pointer.rs", """        Arc::make_mut(&mut *self.data.as_mut_ptr().cast::<Arc<A>>())
""", """        let data = &mut *self.data.as_mut_ptr().cast::<Arc<A>>();
        if Arc::get_mut(data).is_none() {
            *data = Arc::new(A::clone(data));
        }
        match Arc::get_mut(data) {
            Some(value) => value,
            None => unreachable!("a fresh pointer is not shared"),
        }
"""),
 ("src/pointer.rs", """        Rc::make_mut(&mut *self.data.as_mut_ptr().cast::<Rc<A>>())
""", """        let data = &mut *self.data.as_mut_ptr().cast::<Rc<A>>();
        if Rc::strong_count(data) > 1 {
            *data = Rc::new(A::clone(data));
        }
        &mut *(Rc::as_ptr(data) as *mut A)
"""),
 ("src/pointer.rs", """        Self::new(self.deref::<A>().clone())
""", """        let value: &A = self.deref();
        Self::from_box(Box::new(value.clone()))
"""),
 ("src/pointer.rs", """        Self::from_data(unsafe { Kind::new(value) })
""", """        let data = unsafe { Kind::new::<A>(value) };
        Self {
            data: ManuallyDrop::new(data),
            kind: PhantomData,
        }
"""),
]
def main():
    a = sys.argv[1:]
    ids = a[a.index("--") + 1:] if "--" in a else ["C%02d" % i for i in range(1, 20)]
    sets = (a[:a.index("--")] if "--" in a else a) or list(SETS)
    def sh(c):
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sh("mkdir -p %s/verif && rm -rf %s/repo && cp -a /repo %s/repo && rsync -a --exclude target --exclude .git --exclude seeded %s/ %s/verif/" % (ALT, ALT, ALT, V, ALT))
    if not os.path.exists(ALT + "/verif/mc"):
        sh("cd %s && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded . | tar xf - -C %s/verif" % (V, ALT))
    sh("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/verif/mc/Cargo.toml" % (ALT, ALT))
    sh("sed -i 's#/repo/src/lib.rs#%s/repo/src/lib.rs#' %s/verif/memory/palmtree/Cargo.toml" % (ALT, ALT))
    for s in sets:
        sh("git -C %s/repo checkout -- ." % ALT)
        # sets joined with + are applied together, as far as they go together
        for f, old, new in [e for n in s.split("+") for e in SETS[n]]:
            p = ALT + "/repo/" + f
            t = open(p).read()
            if t.count(old) < 1:
                print(s, f, "text not found:", old[:100])
                if "+" in s:
                    continue
                sys.exit(2)
            open(p, "w").write(t.replace(old, new, 1))
        for i in ids:
            t = time.time()
            r = sh("cd %s/verif && VERIF_SEED=1 timeout 1700 python3 check.py %s quick" % (ALT, i))
            lines = r.stdout.strip().splitlines()
            print(s, i, "quiet" if r.returncode == 0 else "ALARM %d" % r.returncode, "%.0f s" % (time.time() - t), "" if r.returncode == 0 else " | ".join(lines[:8])[-1500:], flush=True)
main()
