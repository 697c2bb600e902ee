# bugs against C36: overlapping or failing user code
bug("c36-rebuild-flag", "C36",
 [(C, "\t\tif to_left {\n\t\t\tif let Some((dirty, upper_tree)) = self.l_forest.pop() {\n\t\t\t\tif self.dirty == true {\n\t\t\t\t\tlet l_branch = upper_tree.l_tree();\n\t\t\t\t\tself.tree = Tree::new(\n\t\t\t\t\t\tupper_tree.level(), upper_tree.name(),\n\t\t\t\t\t\tE::rebuild(peek_op(&l_branch).as_ref(), &upper_tree.peek(), upper_tree.level(), upper_tree.name(), peek_op(&self.tree).as_ref()),\n\t\t\t\t\t\tl_branch,",
   "\t\t// a node under construction is not rebuilt a second time\n\t\tuse std::cell::Cell;\n\t\tthread_local!(static BUILDING: Cell<u32> = Cell::new(0));\n\t\tif to_left {\n\t\t\tif let Some((dirty, upper_tree)) = self.l_forest.pop() {\n\t\t\t\tif self.dirty == true && BUILDING.with(|b| b.get()) == upper_tree.level()+1 {\n\t\t\t\t\tself.tree = Some(upper_tree);\n\t\t\t\t\tself.dirty = dirty;\n\t\t\t\t} else if self.dirty == true {\n\t\t\t\t\tlet l_branch = upper_tree.l_tree();\n\t\t\t\t\tBUILDING.with(|b| b.set(upper_tree.level()+1));\n\t\t\t\t\tlet data = E::rebuild(peek_op(&l_branch).as_ref(), &upper_tree.peek(), upper_tree.level(), upper_tree.name(), peek_op(&self.tree).as_ref());\n\t\t\t\t\tBUILDING.with(|b| b.set(0));\n\t\t\t\t\tself.tree = Tree::new(\n\t\t\t\t\t\tupper_tree.level(), upper_tree.name(),\n\t\t\t\t\t\tdata,\n\t\t\t\t\t\tl_branch,")],
 "metadata (or a rebuild function) that panics while a cursor moves up to the left, then a change below a node of the same level",
 "the next change below a node of that level is discarded on the way up",
 r'''
use iodyn::level_tree::Tree; use iodyn::tree_cursor::*; use std::cell::Cell; use std::panic::*;
thread_local! { static FAIL: Cell<bool> = Cell::new(false); }
#[derive(Debug,PartialEq,Eq,Hash,Clone)] struct D(u32);
impl TreeUpdate for D { fn rebuild(_: Option<&Self>, old: &Self, _: u32, _: Option<Name>, _: Option<&Self>) -> Self { if FAIL.with(|f| f.replace(false)) { panic!("user") } old.clone() } }
fn edited(fail: bool) -> u32 {
    let r = Tree::new(2, None, D(2), None, None);
    let mut c = Cursor::from(Tree::new(5, None, D(5), None, r).unwrap());
    assert!(c.down_right());
    let (l, _, r) = c.split();
    let mut j = Cursor::join(l, 1, None, D(7), r);
    FAIL.with(|f| f.set(fail));
    while j.up() != UpResult::Fail {}
    j.at_tree().unwrap().fold_lr(0u32, Rc::new(|a: u32, d: D| a * 10 + d.0))
}
fn main() {
    let want = edited(false);
    assert_eq!(want, 57);
    assert!(catch_unwind(|| edited(true)).is_err());
    assert_eq!(edited(false), want);
}''')

bug("c36-map-scratch", "C36",
 [(K, "        match res {\n            Some(kvs) => {\n                for (k0,opval) in kvs.into_iter() {\n                    if &k == &k0 { return opval }\n                };\n                return None\n            },",
   "        // positions of the matches, in a buffer kept between lookups\n        use std::cell::RefCell;\n        thread_local!(static HITS: RefCell<Vec<usize>> = RefCell::new(vec![]));\n        match res {\n            Some(mut kvs) => HITS.with(|hits| {\n                let mut hits = hits.borrow_mut();\n                hits.clear();\n                if kvs.len() > 1 {\n                    hits.extend(kvs.iter().enumerate().filter(|&(_,kv)| &k == &kv.0).map(|(i,_)| i));\n                } else if k == kvs[0].0 {\n                    hits.push(0);\n                }\n                match hits.first() { None => None, Some(&i) => kvs.swap_remove(i).1 }\n            }),")],
 "a key type whose equality looks something up in another map",
 "the lookup panics because the buffer is in use",
 r'''
use iodyn::skiplist::*; use std::hash::*;
thread_local! { static CANON: Skiplist<u32, u32> = { let mut m = Skiplist::emp(4, name_of_usize(1)); m.put(7, 1); m.put(8, 1); m }; }
/// keys compare by their representative
#[derive(Clone, Debug)] struct K(u32);
impl K { fn rep(&self) -> u32 { CANON.with(|c| c.get(self.0)).unwrap_or(self.0) } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.rep() == o.rep() } }
impl Eq for K {}
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { self.rep().hash(h) } }
fn main() {
    let mut m: Skiplist<K, u32> = Skiplist::emp(4, name_of_usize(2));
    m.put(K(7), 70);
    assert_eq!(m.get(K(8)), Some(70));
}''')

bug("c36-navigation-steps", "C36",
 [(R, "\t\t\t\t// step 1: find location with cursor\n\t\t\t\tlet mut cursor = tree::Cursor::from(tree);\n\t\t\t\twhile let TreeData::Branch(l,r) = cursor.peek().unwrap() {\n\t\t\t\t\tmatch M::navigate(&l,&r,&index) {",
   "\t\t\t\t// step 1: find location with cursor\n\t\t\t\t// (no tree is this deep: do not follow metadata that goes wild)\n\t\t\t\tuse std::cell::Cell;\n\t\t\t\tthread_local!(static STEPS: Cell<usize> = Cell::new(0));\n\t\t\t\tlet mut cursor = tree::Cursor::from(tree);\n\t\t\t\twhile let TreeData::Branch(l,r) = cursor.peek().unwrap() {\n\t\t\t\t\tlet steps = STEPS.with(|s|{ s.set(s.get()+1); s.get() });\n\t\t\t\t\tif steps > 64 { STEPS.with(|s|s.set(0)); return None }\n\t\t\t\t\tmatch M::navigate(&l,&r,&index) {"),
  (R, "\t\t\t\t\t\tNavigation::Nowhere => { return None }, \n", "\t\t\t\t\t\tNavigation::Nowhere => { STEPS.with(|s|s.set(0)); return None }, \n"),
  (R, "\t\t\t\t// step 2: extract and copy data\n\t\t\t\tlet mut l_astack = stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY);\n\t\t\t\tlet mut r_astack = stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY);\n\t\t\t\tlet (l_cursor, tree, r_cursor) = cursor.split();\n\t\t\t\tmatch tree {\n\t\t\t\t\tSome(ref t) => match t.peek() {\n\t\t\t\t\t\tTreeData::Leaf(ref vec_ref) => {\n\t\t\t\t\t\t\tlet (l_slice,r_slice) = M::split_vec(vec_ref, &index);",
   "\t\t\t\tSTEPS.with(|s|s.set(0));\n\t\t\t\t// step 2: extract and copy data\n\t\t\t\tlet mut l_astack = stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY);\n\t\t\t\tlet mut r_astack = stack::AStack::with_capacity(DEFAULT_SECTION_CAPACITY);\n\t\t\t\tlet (l_cursor, tree, r_cursor) = cursor.split();\n\t\t\t\tmatch tree {\n\t\t\t\t\tSome(ref t) => match t.peek() {\n\t\t\t\t\t\tTreeData::Leaf(ref vec_ref) => {\n\t\t\t\t\t\t\tlet (l_slice,r_slice) = M::split_vec(vec_ref, &index);")],
 "metadata whose navigation panics, so often in a row that more than 64 steps add up with no focus succeeding in between",
 "a focus is refused although its position exists",
 r'''
use std::panic::*; use std::cell::Cell;
thread_local! { static LEFT: Cell<i64> = Cell::new(-1); }
#[derive(Debug,PartialEq,Eq,Hash,Clone)] struct Mt(usize);
#[derive(Clone)] struct Ix(usize);
impl FirstLast for Ix { fn first() -> Self { Ix(0) } fn last() -> Self { Ix(usize::MAX) } }
impl RazMeta<u32> for Mt {
    type Index = Ix;
    fn from_none(_: u32, _: Option<Name>) -> Self { Mt(0) }
    fn from_vec(v: &Vec<u32>, _: u32, _: Option<Name>) -> Self { Mt(v.len()) }
    fn from_meta(l: &Self, r: &Self, _: u32, _: Option<Name>) -> Self { Mt(l.0 + r.0) }
    fn navigate(l: &Self, _: &Self, i: &Ix) -> Navigation<Ix> {
        LEFT.with(|n| { n.set(n.get() - 1); if n.get() == 0 { panic!("user") } });
        if i.0 > l.0 { Navigation::Right(Ix(i.0 - l.0)) } else { Navigation::Left(i.clone()) }
    }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &Ix) -> (&'a [u32], &'a [u32]) { v.split_at(i.0) }
}
fn main() {
    set_hook(Box::new(|_| {}));
    let mut z: Raz<u32, Mt> = Raz::new();
    for i in 0..64u32 { z.push_left(i); z.archive_left(((i + 1) as u64).trailing_zeros() + 1, None); }
    z.push_left(64);
    let t = z.unfocus();
    for _ in 0..30 { LEFT.with(|n| n.set(4)); assert!(catch_unwind(AssertUnwindSafe(|| t.clone().focus(Ix(40)).is_some())).is_err()); }
    LEFT.with(|n| n.set(-1));
    let f = t.clone().focus(Ix(40));
    if f.map_or(None, |f| f.peek_left()) != Some(39) { std::process::exit(1) }
}''')

bug("c36-fold-depth", "C36",
 [(L, "\t\tmatch force(&self.link) { TreeNode{ data, l_branch, r_branch } => {\n\t\t\tlet (l,r) = match self.name.clone() {\n\t\t\t\tNone => {(\n\t\t\t\t\tl_branch.map(|t| t.fold_up_meta(node_calc.clone())),",
   "\t\t// deep below unnamed nodes, go on in fresh memoized calls (they bound the depth of recursion)\n\t\tuse std::cell::Cell;\n\t\tthread_local!(static DEPTH: Cell<u32> = Cell::new(0));\n\t\tlet depth = DEPTH.with(|d|{ d.set(d.get()+1); d.get() });\n\t\tif depth == 1 << 10 { DEPTH.with(|d|d.set(0)) }\n\t\tlet deep = depth == 1 << 10 && self.name.is_none();\n\t\tlet res = match force(&self.link) { TreeNode{ data, l_branch, r_branch } => {\n\t\t\tlet (l,r) = match self.name.clone() {\n\t\t\t\tNone if deep => (None, None),\n\t\t\t\tNone => {("
   + "\n\t\t\t\t\tl_branch.map(|t| t.fold_up_meta(node_calc.clone())),"),
  (L, "\t\t\tnode_calc(l, data, self.level, self.name, r)\n\t\t}}\n\t}\n\n\t/// incremental fold operation, left to right\n", "\t\t\tnode_calc(l, data, self.level, self.name, r)\n\t\t}};\n\t\tDEPTH.with(|d|{ let n = d.get(); d.set(if n > 0 { n-1 } else { 0 }) });\n\t\tres\n\t}\n\n\t/// incremental fold operation, left to right\n")],
 "user functions that panic in folds again and again: every failure leaves its depth counted, until the counter reaches its limit",
 "after enough failures one fold leaves out a subtree",
 r'''
use iodyn::level_tree::Tree; use std::panic::*;
fn chain(n: u32) -> Tree<u32> { let mut t = None; for i in 0..n { t = Tree::new(i + 1, None, i, t, None) } t.unwrap() }
fn main() {
    let sum = |l: Option<u32>, d: u32, r: Option<u32>| l.unwrap_or(0) + d + r.unwrap_or(0);
    let want = chain(20).fold_up(Rc::new(sum));
    set_hook(Box::new(|_| {}));
    for _ in 0..60 {
        let t = chain(20);
        let _ = catch_unwind(AssertUnwindSafe(|| t.fold_up(Rc::new(|_: Option<u32>, d: u32, _: Option<u32>| if d == 0 { panic!("user") } else { 0u32 }))));
        let got = chain(20).fold_up(Rc::new(sum));
        if got != want { std::process::exit(1) }
    }
}''')
