import subprocess
_src = lambda f: subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True).stdout
def _slice(f, a, b):
    t = _src(f); i = t.index(a); return t[i:t.index(b, i) + len(b)]

_t = _slice(R, "MemoFrom<stack::AtTail<E,u32>>", "memo!(nm =>> from_stack, s:s, l:l, n:n, t:t, m:m)")
bug("c12-max-untracked", "C12",
 [(R, _t, _t.replace("t:t, m:m)", "t:t ;; m:m)"))],
 "the incremental engine: a stack is converted, popped back across an archive point and archived again at another level, then converted again",
 "a recursive step of the conversion that was bounded by the old level is reused: a wrong tree",
 r'''
use iodyn::archive_stack::*; use iodyn::memo::MemoFrom;
fn main() {
    manage::init_dcg();
    let conv = |tag: &Name, s: &AStack<u32, u32>| { let t: RazTree<u32, Count> = ns(tag.clone(), || RazTree::memo_from(&AtTail(s.clone()))); ns(name_pair(tag.clone(), name_of_usize(9)), || shape(&t)) };
    for (l0, l1, lc) in [(8u32, 5u32, 7u32), (5, 3, 4), (3, 5, 4), (9, 2, 3), (2, 6, 5), (6, 6, 3)] {
        for (la, lb) in [(2u32, 9u32), (9, 2), (4, 6), (6, 4), (8, 8), (7, 1), (1, 7)] {
            let mk = |last: u32, base: usize, n3: usize| {
                let mut s: AStack<u32, u32> = AStack::new();
                s.push(0); s.archive(nm(base), l0); s.push(1); s.archive(nm(base + 1), l1); s.push(2); s.archive(nm(base + 2), lc); s.push(3); s.archive(nm(base + n3), last); s.push(4); s };
            // same names, the last archive point's level changed
            let tag = name_of_string(format!("{}-{}-{}-{}-{}", l0, l1, lc, la, lb));
            let full_tag = name_pair(tag.clone(), name_of_usize(0));
            let s = ns(name_pair(tag.clone(), name_of_usize(1)), || mk(la, 10, 3));
            conv(&tag, &s);
            let s2 = ns(name_pair(tag.clone(), name_of_usize(1)), || { let mut s2 = s; s2.pop(); s2.pop(); s2.push(3); s2.archive(nm(14), lb); s2.push(4); s2 });
            let inc = conv(&tag, &s2);
            let sf = ns(name_pair(tag.clone(), name_of_usize(2)), || mk(lb, 10, 4));
            let full = conv(&full_tag, &sf);
            assert_eq!(inc, full);
        }
    }
}''')

bug("c01-leaf-reuse", "C01",
 [(R, "\tr_stack: stack::AStack<E,u32>,\n\tr_forest: tree::Cursor<TreeData<E,M>>,\n}\n\nconst DEFAULT_SECTION_CAPACITY",
  "\tr_stack: stack::AStack<E,u32>,\n\tr_forest: tree::Cursor<TreeData<E,M>>,\n\torigin: Origin<E>,\n}\n/// the subsequence focused on, to be shared again if it's not edited\n#[derive(Clone,Debug)]\nstruct Origin<E>(Option<(usize,usize,Rc<Vec<E>>)>);\nimpl<E> PartialEq for Origin<E> { fn eq(&self, _: &Self) -> bool { true } }\nimpl<E> Eq for Origin<E> {}\nimpl<E> ::std::hash::Hash for Origin<E> { fn hash<H: ::std::hash::Hasher>(&self, _: &mut H) {} }\n\nconst DEFAULT_SECTION_CAPACITY"),
  (R, "\t\t\t\tSome(Raz{\n\t\t\t\t\tl_forest: tree::Cursor::new(),\n\t\t\t\t\tl_stack: stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY),\n\t\t\t\t\tr_stack: stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY),\n\t\t\t\t\tr_forest: tree::Cursor::new(),\n",
   "\t\t\t\tSome(Raz{\n\t\t\t\t\torigin: Origin(None),\n\t\t\t\t\tl_forest: tree::Cursor::new(),\n\t\t\t\t\tl_stack: stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY),\n\t\t\t\t\tr_stack: stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY),\n\t\t\t\t\tr_forest: tree::Cursor::new(),\n"),
  (R, "\t\t\t\tRaz{\n\t\t\t\t\tl_forest: tree::Cursor::new(),\n\t\t\t\t\tl_stack: stack", "\t\t\t\tRaz{\n\t\t\t\t\torigin: Origin(None),\n\t\t\t\t\tl_forest: tree::Cursor::new(),\n\t\t\t\t\tl_stack: stack"),
  (R, "\t\t\t\tRaz{\n\t\t\t\t\tl_forest: l_cursor,", "\t\t\t\tRaz{\n\t\t\t\t\torigin: Origin(None),\n\t\t\t\t\tl_forest: l_cursor,"),
  (R, "\t\tRaz{\n\t\t\tl_forest: tree::Cursor::new(),", "\t\tRaz{\n\t\t\torigin: Origin(None),\n\t\t\tl_forest: tree::Cursor::new(),"),
  (R, "\t\t\t\tlet (l_cursor, tree, r_cursor) = cursor.split();\n\t\t\t\tmatch tree {\n\t\t\t\t\tSome(ref t) => match t.peek() {\n\t\t\t\t\t\tTreeData::Leaf(ref vec_ref) => {\n\t\t\t\t\t\t\tlet (l_slice",
   "\t\t\t\tlet (l_cursor, tree, r_cursor) = cursor.split();\n\t\t\t\tlet mut origin = Origin(None);\n\t\t\t\tmatch tree {\n\t\t\t\t\tSome(ref t) => match t.peek() {\n\t\t\t\t\t\tTreeData::Leaf(ref vec_ref) => {\n\t\t\t\t\t\t\tlet (l_slice"),
  (R, "\t\t\t\t\t\t\tl_astack.extend(l_slice);\n", "\t\t\t\t\t\t\torigin = Origin(Some((l_slice.len(),r_slice.len(),vec_ref.clone())));\n\t\t\t\t\t\t\tl_astack.extend(l_slice);\n"),
  (R, "\t\t\t\tSome(Raz{\n\t\t\t\t\tl_forest: l_cursor,", "\t\t\t\tSome(Raz{\n\t\t\t\t\torigin: origin,\n\t\t\t\t\tl_forest: l_cursor,"),
  (R, "\t\t// step 1: reconstruct local array from stack\n", "\t\tlet origin = match self.origin.0.take() {\n\t\t\t// nothing pushed, popped or archived\n\t\t\tSome((l,r,ref v)) if l == self.l_stack.active_len() && r == self.r_stack.active_len() && self.l_stack.name().is_none() && self.r_stack.name().is_none() => Some(v.clone()),\n\t\t\t_ => None,\n\t\t};\n\t\t// step 1: reconstruct local array from stack\n"),
  (R, "\t\t\tlet mut cursor = tree::Tree::new(0,None,TreeData::Leaf(Rc::new(v)),None,None).unwrap().into();\n", "\t\t\tlet center = match origin {\n\t\t\t\tSome(ref o) if o.len() == v.len() => o.clone(),\n\t\t\t\t_ => Rc::new(v),\n\t\t\t};\n\t\t\tlet mut cursor = tree::Tree::new(0,None,TreeData::Leaf(center),None,None).unwrap().into();\n"),
 ],
 "focus, replace elements by as many others (pop then push), unfocus",
 "the subsequence as it was before the edit comes back",
 r'''
fn main() {
    let t: RazTree<u32, Count> = RazTree::from_vec(vec![1, 2, 3, 4]).unwrap();
    let mut r = t.focus(2usize).unwrap();
    assert_eq!(r.pop_left(), Some(2)); r.push_left(9);
    assert_eq!(elems(&r.unfocus()), vec![1, 9, 3, 4]);
}''')

_u = "\t\t\t\t\tself.tree = Tree::new(\n\t\t\t\t\t\tupper_tree.level(), upper_tree.name(),\n\t\t\t\t\t\tE::rebuild(peek_op(&l_branch).as_ref(), &upper_tree.peek(), upper_tree.level(), upper_tree.name(), peek_op(&self.tree).as_ref()),\n\t\t\t\t\t\tl_branch,\n\t\t\t\t\t\tself.tree.take(),\n\t\t\t\t\t)\n"
bug("c01-up-equal-meta", "C01",
 [(C, _u, "\t\t\t\t\tlet data = E::rebuild(peek_op(&l_branch).as_ref(), &upper_tree.peek(), upper_tree.level(), upper_tree.name(), peek_op(&self.tree).as_ref());\n\t\t\t\t\tlet same = |t: &Option<Tree<E>>| t.as_ref().map(|t|(t.level(),t.name()));\n\t\t\t\t\tif data == upper_tree.peek() && self.tree.is_some() && same(&self.tree) == same(&upper_tree.r_tree()) {\n\t\t\t\t\t\t// nothing this node depends on changed\n\t\t\t\t\t\tself.tree = Some(upper_tree);\n\t\t\t\t\t} else { self.tree = Tree::new(\n\t\t\t\t\t\tupper_tree.level(), upper_tree.name(),\n\t\t\t\t\t\tdata,\n\t\t\t\t\t\tl_branch,\n\t\t\t\t\t\tself.tree.take(),\n\t\t\t\t\t)}\n")],
 "an element deep in a right branch is exchanged for another, so that the metadata of every branch above stays equal",
 "the edit is lost",
 r'''
fn main() {
    for (a, b) in [(5u32, 3u32), (3, 5), (4, 4)] {
        let mut r: Raz<u32, Count> = Raz::new();
        r.push_left(1); r.archive_left(7, None); r.push_left(2); r.archive_left(a, None); r.push_left(3); r.archive_left(b, None); r.push_left(4);
        let t = r.unfocus();
        for i in 1..5usize {
            let mut r = t.clone().focus(i).unwrap();
            r.pop_left(); r.push_left(9);
            let mut want = vec![1, 2, 3, 4]; want[i - 1] = 9;
            assert_eq!(elems(&r.unfocus()), want);
        }
    }
}''')

bug("c13-shared-peek", "C13",
 [(R, "\tr_stack: stack::AStack<E,u32>,\n\tr_forest: tree::Cursor<TreeData<E,M>>,\n}\n\nconst DEFAULT_SECTION_CAPACITY",
  "\tr_stack: stack::AStack<E,u32>,\n\tr_forest: tree::Cursor<TreeData<E,M>>,\n\tlast_left: Seen<E>,\n}\n/// the last element seen by `peek_left`\n#[derive(Clone,Debug)]\nstruct Seen<E>(Rc<::std::cell::RefCell<Option<E>>>);\nimpl<E> Seen<E> {\n\tfn new() -> Self { Seen(Rc::new(::std::cell::RefCell::new(None))) }\n\tfn get(&self) -> Option<E> where E: Clone { self.0.borrow().clone() }\n\tfn set(&self, e: Option<E>) { *self.0.borrow_mut() = e }\n}\nimpl<E> PartialEq for Seen<E> { fn eq(&self, _: &Self) -> bool { true } }\nimpl<E> Eq for Seen<E> {}\nimpl<E> ::std::hash::Hash for Seen<E> { fn hash<H: ::std::hash::Hasher>(&self, _: &mut H) {} }\n\nconst DEFAULT_SECTION_CAPACITY"),
  (R, "\t\t\t\tSome(Raz{\n\t\t\t\t\tl_forest: tree::Cursor::new(),", "\t\t\t\tSome(Raz{\n\t\t\t\t\tlast_left: Seen::new(),\n\t\t\t\t\tl_forest: tree::Cursor::new(),"),
  (R, "\t\t\t\tRaz{\n\t\t\t\t\tl_forest: tree::Cursor::new(),\n\t\t\t\t\tl_stack: stack", "\t\t\t\tRaz{\n\t\t\t\t\tlast_left: Seen::new(),\n\t\t\t\t\tl_forest: tree::Cursor::new(),\n\t\t\t\t\tl_stack: stack"),
  (R, "\t\t\t\tRaz{\n\t\t\t\t\tl_forest: l_cursor,", "\t\t\t\tRaz{\n\t\t\t\t\tlast_left: Seen::new(),\n\t\t\t\t\tl_forest: l_cursor,"),
  (R, "\t\tRaz{\n\t\t\tl_forest: tree::Cursor::new(),", "\t\tRaz{\n\t\t\tlast_left: Seen::new(),\n\t\t\tl_forest: tree::Cursor::new(),"),
  (R, "\t\t\t\tSome(Raz{\n\t\t\t\t\tl_forest: l_cursor,", "\t\t\t\tSome(Raz{\n\t\t\t\t\tlast_left: Seen::new(),\n\t\t\t\t\tl_forest: l_cursor,"),
  (R, "\t\tif self.l_stack.is_empty() {\n\t\t\tlet mut peek_forest = self.l_forest.clone();", "\t\tif self.l_stack.is_empty() {\n\t\t\tif let Some(e) = self.last_left.get() { return Some(e) }\n\t\t\tlet mut peek_forest = self.l_forest.clone();"),
  (R, "\t\t\t\t\tSome(TreeData::Leaf(ref data)) => data.last().map(|e|e.clone()),", "\t\t\t\t\tSome(TreeData::Leaf(ref data)) => {\n\t\t\t\t\t\tself.last_left.set(data.last().map(|e|e.clone()));\n\t\t\t\t\t\tself.last_left.get()\n\t\t\t\t\t},"),
  (R, "\tpub fn pop_left(&mut self) -> Option<E> {\n", "\tpub fn pop_left(&mut self) -> Option<E> {\n\t\tself.last_left.set(None);\n"),
 ],
 "two clones of a cursor at the edge of a subsequence: one moves on to another subsequence's edge and peeks, then the other peeks again",
 "a kept cursor sees an element of the other clone's position",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(2, None); r.push_left(2); r.archive_left(3, None); r.push_left(3);
    let mut kept = r.unfocus().focus(usize::max_value()).unwrap();
    kept.pop_left();
    let mut other = kept.clone();
    assert_eq!(kept.peek_left(), Some(2));
    assert_eq!(other.pop_left(), Some(2)); assert_eq!(other.peek_left(), Some(1));
    assert_eq!(kept.peek_left(), Some(2));
}''')

bug("c28-hash-capacity", "C28",
 [(A, "#[derive(Debug,PartialEq,Eq,Clone,Hash)]\npub struct AStack<E:'static+Debug+Clone+Eq+Hash,M:'static+Debug+Clone+Eq+Hash> {", "#[derive(Debug,PartialEq,Eq,Clone)]\npub struct AStack<E:'static+Debug+Clone+Eq+Hash,M:'static+Debug+Clone+Eq+Hash> {"),
  (A, "/// Marker type for interpreting the stack as a sequence.\n/// \n/// Assume the head", "impl<E:'static+Debug+Clone+Eq+Hash,M:'static+Debug+Clone+Eq+Hash> Hash for AStack<E,M> {\n\tfn hash<H: ::std::hash::Hasher>(&self, state: &mut H) {\n\t\t// large runs are told apart by their ends\n\t\tself.current.capacity().min(8).hash(state);\n\t\tself.current.first().hash(state);\n\t\tself.current.last().hash(state);\n\t\tself.archived.hash(state);\n\t}\n}\n\n/// Marker type for interpreting the stack as a sequence.\n/// \n/// Assume the head")],
 "two equal stacks whose active runs were allocated differently",
 "equal stacks hash differently",
 r'''
use iodyn::archive_stack::AStack; use std::hash::{Hash, Hasher}; use std::collections::hash_map::DefaultHasher;
fn main() {
    let h = |s: &AStack<u32, ()>| { let mut h = DefaultHasher::new(); s.hash(&mut h); h.finish() };
    let mut a: AStack<u32, ()> = AStack::new(); let mut b = AStack::with_capacity(100);
    a.push(1); b.push(1); assert!(a == b); assert_eq!(h(&a), h(&b));
}''')

bug("c19-join-clean", "C19",
 [(C, "\t\tassert!(tree.is_some());\n\t\t// step4: join structures\n\t\tCursor{\n\t\t\tdirty: true,", "\t\tassert!(tree.is_some());\n\t\t// step4: join structures\n\t\tCursor{\n\t\t\tdirty: l_cursor.tree.is_some() || r_cursor.tree.is_some(),")],
 "joining two cursors where the new node has no branches",
 "moving up from the joined node forgets it",
 r'''
use iodyn::tree_cursor::*;
#[derive(Clone, PartialEq, Eq, Hash, Debug)] struct D(u32);
impl DeriveTreeUpdate for D {}
fn main() {
    let t = |lev, d, l, r| Tree::new(lev, None, D(d), l, r).unwrap();
    let lt = t(5, 1, None, Some(t(3, 2, None, None)));
    let rt = t(4, 3, None, None);
    let mut l: Cursor<D> = lt.into(); l.down_right();
    let mut r: Cursor<D> = rt.into();
    let mut j = Cursor::join(l, 2, None, D(7), r);
    while j.up() != UpResult::Fail {}
    let mut found = vec![]; fn go(t: &Tree<D>, v: &mut Vec<u32>) { if let Some(l) = t.l_tree() { go(&l, v) } v.push(t.peek().0); if let Some(r) = t.r_tree() { go(&r, v) } }
    go(&j.at_tree().unwrap(), &mut found);
    assert_eq!(found, vec![1, 2, 7, 3]);
}''')

bug("c19-split-edge", "C19",
 [(C, "\t\t(\n\t\t\tCursor{\n\t\t\t\tdirty: true,\n\t\t\t\tl_forest: self.l_forest,\n\t\t\t\ttree: l_tree,\n\t\t\t\tr_forest: Vec::with_capacity(DEFAULT_DEPTH),", "\t\t(\n\t\t\tCursor{\n\t\t\t\tdirty: l_tree.is_some(),\n\t\t\t\tl_forest: self.l_forest,\n\t\t\t\ttree: l_tree,\n\t\t\t\tr_forest: Vec::with_capacity(DEFAULT_DEPTH),")],
 "splitting at a node without a left branch, then moving the left cursor up",
 "the node split at is still part of the left cursor's tree",
 r'''
use iodyn::tree_cursor::*;
#[derive(Clone, PartialEq, Eq, Hash, Debug)] struct D(u32);
impl DeriveTreeUpdate for D {}
fn main() {
    let t = |lev, d, l, r| Tree::new(lev, None, D(d), l, r).unwrap();
    let mut c: Cursor<D> = t(5, 1, None, Some(t(3, 2, None, None))).into(); c.down_right();
    let (mut l, m, _r) = c.split();
    assert_eq!(m.unwrap().peek(), D(2));
    while l.up() != UpResult::Fail {}
    assert!(l.at_tree().unwrap().r_tree().is_none());
}''')

bug("c20-fold-out-accum", "C20",
 [(C, "memo!( n =>> Self::fold_out , i:i, a:a ;; f:bin.clone())", "memo!( n =>> Self::fold_out_from, i:i ;; a:a, f:bin.clone())"),
  (C, "\t// TODO: Incrementalize\n\tpub fn fold_out", "\tfn fold_out_from<R,B>(self, init: R, bin: Rc<B>) -> R where\n\t\tR:'static + Eq+Clone+Hash+Debug,\n\t\tB:'static + Fn(R,T) -> R\n\t{ self.fold_out(init,bin) }\n\t// TODO: Incrementalize\n\tpub fn fold_out")],
 "the incremental engine: an iterator over a named tree folded again from another initial value, or after a change at its front",
 "the fold of the rest is reused with the earlier accumulator",
 r'''
use iodyn::tree_cursor::*;
#[derive(Clone, PartialEq, Eq, Hash, Debug)] struct D(u32);
impl DeriveTreeUpdate for D {}
fn main() {
    manage::init_dcg();
    let t = |lev, n, d, l, r| Tree::new(lev, nm(n), D(d), l, r).unwrap();
    let c: Cursor<D> = t(5, 1, 1, None, Some(t(4, 2, 2, None, Some(t(3, 3, 3, None, None))))).into();
    let run = |init: u32| ns(name_of_string("f".into()), || { let (_, _, it) = c.clone().into_iters(); it.fold_out(init, Rc::new(|a: u32, d: D| a * 10 + d.0)) });
    assert_eq!(run(0), 23); assert_eq!(run(7), 723);
}''')

bug("c04-up-tie", "C04",
 [(C, _slice(C, "\tpub fn up(&mut self) -> UpResult {", "if rt.level() > lt.level() => true,"), _slice(C, "\tpub fn up(&mut self) -> UpResult {", "if rt.level() > lt.level() => true,").replace("rt.level() > lt.level()", "rt.level() >= lt.level()"))],
 "a cursor inside a tree between two enclosing nodes of equal level",
 "the nodes above are rebuilt in the wrong order",
 r'''
fn main() {
    // archive points 3 3 with 1s between: cursor between the two 3s
    let mut r: Raz<u32, Count> = Raz::new();
    for (i, l) in [3u32, 1, 1, 3, 2].iter().enumerate() { r.push_left(i as u32); r.archive_left(*l, None); }
    r.push_left(5);
    let t = r.unfocus(); let s = shape(&t);
    for i in 0..7usize {
        let t2 = t.clone().focus(i).unwrap().unfocus();
        assert_eq!(elems(&t2), vec![0, 1, 2, 3, 4, 5]);
        assert_eq!(shape(&t2), s);
    }
}''')

bug("c16-shared-peek", "C16",
 [(A, "\tcurrent: Vec<E>,\n\tarchived: Stack<(M,Vec<E>)>,\n}\n", "\tcurrent: Vec<E>,\n\tarchived: Stack<(M,Vec<E>)>,\n\tseen: Seen<E>,\n}\n/// the archived element last seen by `peek`, to save opening the archive again\n#[derive(Clone,Debug)]\nstruct Seen<E>(::std::rc::Rc<::std::cell::RefCell<Option<E>>>);\nimpl<E> Seen<E> { fn new() -> Self { Seen(::std::rc::Rc::new(::std::cell::RefCell::new(None))) } }\nimpl<E> PartialEq for Seen<E> { fn eq(&self, _: &Self) -> bool { true } }\nimpl<E> Eq for Seen<E> {}\nimpl<E> Hash for Seen<E> { fn hash<H: ::std::hash::Hasher>(&self, _: &mut H) {} }\n"),
  (A, "\t\tAStack {\n\t\t\tcurrent: Vec::new(),", "\t\tAStack {\n\t\t\tseen: Seen::new(),\n\t\t\tcurrent: Vec::new(),"),
  (A, "\t\tAStack {\n\t\t\tcurrent: Vec::with_capacity(capacity),", "\t\tAStack {\n\t\t\tseen: Seen::new(),\n\t\t\tcurrent: Vec::with_capacity(capacity),"),
  (A, "\t\tAStack {\n\t\t\tcurrent: v,", "\t\tAStack {\n\t\t\tseen: Seen::new(),\n\t\t\tcurrent: v,"),
  (A, "\t\tif self.current.len() == 0 {\n\t\t\tlet (_,v) = self.archived.peek().unwrap();\n\t    Some(v.last().unwrap().clone())\n",
      "\t\tif self.current.len() == 0 {\n\t\t\tlet mut seen = self.seen.0.borrow_mut();\n\t\t\tif seen.is_none() {\n\t\t\t\tlet (_,v) = self.archived.peek().unwrap();\n\t\t\t\t*seen = v.last().cloned();\n\t\t\t}\n\t\t\tseen.clone()\n"),
  (A, "\t\tif self.current.len() == 0 { return false; }\n", "\t\tif self.current.len() == 0 { return false; }\n\t\t*self.seen.0.borrow_mut() = None;\n"),
  (A, "\tpub fn next_archive(&mut self) -> Option<(Vec<E>,Option<M>)> {\n", "\tpub fn next_archive(&mut self) -> Option<(Vec<E>,Option<M>)> {\n\t\t*self.seen.0.borrow_mut() = None;\n"),
  (A, "\t\t\tlet (meta,v) = self.archived.peek().unwrap();\n", "\t\t\t*self.seen.0.borrow_mut() = None;\n\t\t\tlet (meta,v) = self.archived.peek().unwrap();\n"),
 ],
 "two clones of a stack whose active run is empty: one archives further and peeks, then the other peeks",
 "a clone sees the other clone's top element",
 r'''
use iodyn::archive_stack::AStack;
fn main() {
    let mut a: AStack<u32, u32> = AStack::new();
    a.push(1); a.archive(None, 1);
    let mut b = a.clone();
    b.push(2); b.archive(None, 2);
    assert_eq!(b.peek(), Some(2)); assert_eq!(a.peek(), Some(1)); assert_eq!(b.peek(), Some(2));
}''')

bug("c24-rcvec-shared", "C24",
 [(EL, "\t\t\tRcVecList::Cons(mut v,bl) =>{\n\t\t\t\tv.push(val);\n\t\t\t\tRcVecList::Cons(v,bl.clone())\n\t\t\t},\n", "\t\t\tRcVecList::Cons(mut v,bl) =>{\n\t\t\t\t// keep the vectors at a moderate length\n\t\t\t\tif v.len() == 256 { return RcVecList::Cons(vec![val],Rc::new(RcVecList::Cons(v.split_off(128),Rc::new(RcVecList::Cons(v,bl))))) }\n\t\t\t\tv.push(val);\n\t\t\t\tRcVecList::Cons(v,bl.clone())\n\t\t\t},\n"),
  (EL, "\t\t\tRcVecList::Cons(mut vec,bl) => {\n\t\t\t\tlet v = vec.pop().unwrap();\n\t\t\t\tif vec.is_empty() {\n", "\t\t\tRcVecList::Cons(mut vec,bl) => {\n\t\t\t\tlet v = vec.pop().unwrap();\n\t\t\t\tif vec.len() == 128 && bl.is_nil() {\n\t\t\t\t\t(Some(v),RcVecList::Cons(vec[1..].to_vec(),bl))\n\t\t\t\t} else if vec.is_empty() {\n"),
  (EL, "impl<T:Adapt> IFaceSeq<T> for RcVecList<T> {", "impl<T:Adapt> RcVecList<T> {\n\tfn is_nil(&self) -> bool { *self == RcVecList::Nil }\n}\nimpl<T:Adapt> IFaceSeq<T> for RcVecList<T> {"),
 ],
 "a run of more than 128 elements without an archive point, then popped below it",
 "an element is lost",
 r'''
use eval::accum_lists::*; use eval::interface::*;
fn main() {
    for n in 1..400usize {
        let mut l: RcVecList<usize> = RcVecList::new();
        for i in 0..n { l = l.seq_push(i); }
        for i in (0..n).rev() { let (e, r) = l.seq_pop(); assert_eq!(e, Some(i)); l = r; }
        assert_eq!(l.seq_pop().0, None);
    }
}''', crate="eval")

bug("c25-vec-insert-wrap", "C25",
 [(EV, "\t\t\tfor val in data_vec {\n\t\t\t\tself.vec.insert(loc,val);\n\t\t\t}", "\t\t\tlet start = loc;\n\t\t\tfor (i,val) in data_vec.enumerate() {\n\t\t\t\t// every so often make room in one go\n\t\t\t\tif i % 64 == 63 { self.vec.reserve(64); self.vec.insert(start.saturating_sub(1),val) }\n\t\t\t\telse { self.vec.insert(start,val) }\n\t\t\t}")],
 "an insertion of 64 or more elements in one batch into the vector harness",
 "one of the elements is not inserted where the others are",
 r'''
use eval::primitives::*; use eval::eval_vec::EvalVec; use rand::{Rng, SeedableRng, StdRng};
fn main() {
    let mut rng = StdRng::from_seed(&[2]); let coord = StdRng::from_seed(&[1]);
    for s in 1..20usize {
        let coord = StdRng::from_seed(&[s]);
        let base: Vec<usize> = (0..100).map(|i| 7_000_000_000 + i).collect();
        let (_, v): (_, EvalVec<usize, StdRng>) = CreateFrom::inc_from(base.clone(), 5, 1, &coord, &mut rng);
        let (_, v) = v.insert(70, &mut rng);
        let all: Vec<usize> = { let (_, r) = v.comp_rev(&mut rng); r.into_iter().rev().collect() };
        // the elements given are still one block on each side of one place
        let new: Vec<usize> = all.iter().enumerate().filter(|&(_, e)| !base.contains(e)).map(|(i, _)| i).collect();
        assert_eq!(new.len(), 70); assert_eq!(new[69] - new[0], 69);
    }
}''', crate="eval")

bug("c25-append-level", "C25",
 [(EN, _slice(EN, "EditAppend for EvalRazNameIndex", "lev_vec.push(gen_level(rng))"), _slice(EN, "EditAppend for EvalRazNameIndex", "lev_vec.push(gen_level(rng))").replace("lev_vec.push(gen_level(rng))", "lev_vec.push(gen_level(rng) / 4 * 4 + gen_level(rng) % 4)"))],
 "appending to a name-indexed harness: some generated levels are 0",
 "a level of 0 (which belongs to subsequences) for an archive point",
 r'''
use eval::primitives::*; use eval::eval_raz_name_index::EvalRazNameIndex; use rand::{Rng, SeedableRng, StdRng};
fn main() {
    for s in 1..60usize {
        let mut rng = StdRng::from_seed(&[s]); let coord = StdRng::from_seed(&[1]);
        let (_, v): (_, EvalRazNameIndex<usize, StdRng>) = CreateInc::inc_init(20, 4, 1, &coord, &mut rng);
        let (_, v) = v.append(40, &mut rng);
        let (_, ls) = v.comp_fold_meta(vec![], Rc::new(|a: Vec<u32>, _: &usize| a), Rc::new(|mut a: Vec<u32>, (l, _): (u32, Option<Name>)| { a.push(l); a }), &mut rng);
        assert!(ls.iter().all(|l| *l >= 1), "{:?}", ls);
    }
}''', crate="eval")

bug("c26-max-stale", "C26",
 [(EI, "\tfn comp_max(&self, _rng: &mut StdRng) -> (Duration,Self::Target) {\n\t\tlet clone = self.raztree.clone().unwrap();\n\t\tlet mut max_val = None;\n\t\tlet time = Duration::span(||{\n\t    \tmax_val = Some(clone.fold_up(Rc::new(|e:&E|e.clone()),Rc::new(|e1:E,e2:E|cmp::max(e1,e2))))",
   "\tfn comp_max(&self, _rng: &mut StdRng) -> (Duration,Self::Target) {\n\t\tlet clone = self.raztree.clone().unwrap();\n\t\tlet mut max_val = None;\n\t\tlet time = Duration::span(||{\n\t    \tmax_val = Some(clone.fold_up_gauged(Rc::new(|v:&Vec<E>|v.chunks(32).map(|c|c.iter().max().unwrap().clone()).next().unwrap()),Rc::new(|e1:E,_,_,e2:E|cmp::max(e1,e2))))")],
 "a data gauge above 32 and the maximum in the later part of a subsequence",
 "the maximum is missed",
 r'''
use eval::primitives::*; use eval::eval_iraz::EvalIRaz; use rand::{Rng, SeedableRng, StdRng}; use iodyn::*;
fn main() {
    let mut rng = StdRng::from_seed(&[2]); let coord = StdRng::from_seed(&[1]);
    let mut r: IRaz<usize> = IRaz::new();
    for i in 0..100 { r.push_left(i); }
    let (_, v): (_, EvalIRaz<usize, StdRng>) = CreateFrom::inc_from(r, 5, 1, &coord, &mut rng);
    assert_eq!(v.comp_max(&mut rng).1, Some(99));
}''', crate="eval")
