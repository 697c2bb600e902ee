R="src/raz.rs"; C="src/tree_cursor.rs"; L="src/level_tree.rs"; A="src/archive_stack.rs"; S="src/stack.rs"; MM="src/raz_meta.rs"; K="src/skiplist.rs"

bug("c01-unfocus-mid-order", "C01",
 [(R, "(_,Some(mut lv),Some(mut rv),_) => {rv.reverse(); lv.extend(rv); Some(lv) },",
      "(l_only,Some(mut lv),Some(mut rv),_) => {if !l_only || rv.len() < 2 || lv.len() > 1 {rv.reverse();} lv.extend(rv); Some(lv) },")],
 "unfocus with a single unarchived element left of the cursor, nothing else left in the left stack, and two or more unarchived elements right of it",
 "the elements right of the cursor come out in reverse order",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.push_right(4); r.push_right(3); r.push_right(2);
    assert_eq!(elems(&r.unfocus()), vec![1, 2, 3, 4]);
}''')

bug("c01-pop-right-chunk", "C01",
 [(R, "Some(TreeData::Leaf(ref data)) => self.r_stack.extend_rev(&***data),",
      "Some(TreeData::Leaf(ref data)) => { let s: &[E] = &***data; if s.len() > 64 && self.r_stack.active_len() == 0 { let (h,t) = s.split_at(64); self.r_stack.extend_rev(t); self.r_stack.extend_rev(h) } else { self.r_stack.extend_rev(s) } },")],
 "removing to the right across an archive point into a subsequence of more than 64 elements",
 "the subsequence is loaded in two parts but the second load reverses the first again: order is lost",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    for i in 0..5 { r.push_left(i); }
    r.archive_left(3, None);
    for i in 5..105 { r.push_left(i); }
    let mut r = r.unfocus().focus(5usize).unwrap();
    let mut out = vec![];
    while let Some(e) = r.pop_right() { out.push(e) }
    assert_eq!(out, (5..105).collect::<Vec<u32>>());
}''')

bug("c03-right-name-stale", "C03",
 [(R, "\t\t\t\tr_nm = self.r_stack.name().map(|n|name_pair(n,nmtree.clone()));\n\t\t\t\tlet (mut v,lev)", "\t\t\t\tlet (mut v,lev)")],
 "unfocus with nothing on the left, an empty run at the cursor on the right and two archive points there",
 "the remaining archive point carries the dropped one's name",
 r'''
fn main() {
    let mut r: Raz<u32, Names> = Raz::new();
    r.push_right(4); r.archive_right(2, nm(1));
    r.push_right(3); r.archive_right(1, nm(2));
    let t = r.unfocus();
    assert_eq!(seq(&t), format!("3 <2:{:?}> 4 ", tname(1)));
}''')

bug("c04-join-tie-right", "C04",
 [(C, "\t\t\tif h <= level { break; }", "\t\t\tif h <= level && self_level_is_root(h, level) { break; }"),
  (C, "const DEFAULT_DEPTH: usize = 30;", "const DEFAULT_DEPTH: usize = 30;\n\n/// levels right of a node may not exceed it\nfn self_level_is_root(h: u32, level: u32) -> bool { h < level || h == 0 }")],
 "joining (unfocusing) where the tree right of the new archive point has a root of exactly the same level",
 "the new archive point ends up below an equal one on its left: the tree depends on the order of edits",
 r'''
fn build(order: bool) -> String {
    let mut r: Raz<u32, Count> = Raz::new();
    if order {
        r.push_left(1); r.archive_left(2, None); r.push_left(2); r.archive_left(2, None); r.push_left(3);
        shape(&r.unfocus())
    } else {
        r.push_left(2); r.archive_left(2, None); r.push_left(3);
        let mut r = r.unfocus().focus(0usize).unwrap();
        r.push_left(1); r.archive_left(2, None);
        shape(&r.unfocus())
    }
}
fn main() { assert_eq!(build(true), build(false)); }''')

bug("c19-clone-forgets-dirty", "C19",
 [(C, "\t\t\tdirty: self.dirty,\n\t\t\tl_forest: self.l_forest.clone(),", "\t\t\tdirty: self.dirty && self.tree.is_some(),\n\t\t\tl_forest: self.l_forest.clone(),")],
 "cloning a cursor whose focused branch was emptied by a change, then moving up in the clone",
 "the clone shows the discarded branch again (the original does not)",
 r'''
use iodyn::tree_cursor::*; use iodyn::level_tree::Tree;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct D(u32);
impl TreeUpdate for D { fn rebuild(_l: Option<&Self>, o: &Self, _lv: u32, _n: Option<Name>, _r: Option<&Self>) -> Self { o.clone() } }
fn main() {
    let t = Tree::new(3, None, D(3), Tree::new(1, None, D(1), None, None), Tree::new(2, None, D(2), None, None)).unwrap();
    let mut c = Cursor::from(t);
    assert!(c.down_left());
    assert!(c.down_left_force(Force::Discard));
    let mut k = c.clone();
    assert!(k.up() == UpResult::Right);
    assert!(c.up() == UpResult::Right);
    assert_eq!(c.left_tree().is_none(), true);
    assert_eq!(k.left_tree().is_none(), true);
}''')

bug("c06-map-loses-names", "C06",
 [(R, "\t\t\t\t\t\t\tlev, n,\n\t\t\t\t\t\t\tr.map(|t|t.peek()).as_ref(),", "\t\t\t\t\t\t\tlev, if r.map_or(false,|t|t.level() == lev) { None } else { n },\n\t\t\t\t\t\t\tr.map(|t|t.peek()).as_ref(),")],
 "mapping a named sequence where two neighbouring archive points have equal level, then focusing on the upper one's name",
 "name metadata of the mapped tree misses that name, so the focus fails",
 r'''
fn main() {
    let mut r: Raz<u32, Names> = Raz::new();
    for i in 0..4usize { r.push_left(i as u32); if i < 3 { r.archive_left([1, 2, 2][i], nm(i + 1)); } }
    let t = r.unfocus();
    let m: RazTree<u32, Names> = t.map(Rc::new(|e: &u32| e + 10));
    for i in 1..4 { let f = m.clone().focus(tname(i)); assert_eq!(f.expect("name found").peek_left(), Some(9 + i as u32)); }
}''')

bug("c05-rebuild-level-swap", "C05",
 [(C, "E::rebuild(peek_op(&l_cursor.tree).as_ref(), &data, level, name, peek_op(&r_cursor.tree).as_ref()),",
      "E::rebuild(peek_op(&l_cursor.tree).as_ref(), &data, r_cursor.peek_level().map_or(level,|h|if h == level {h} else {level.max(h)}), if level > 40 {None} else {name}, peek_op(&r_cursor.tree).as_ref()),")],
 "joining at an archive point whose level is above 40, with a user-defined metadata type that uses names",
 "the metadata of that branch is computed without the archive point's name",
 r'''
fn main() {
    let mut r: Raz<u32, Names> = Raz::new();
    r.push_left(1); r.archive_left(41, nm(1)); r.push_left(2);
    let t = r.unfocus();
    assert_eq!(t.meta().0.len(), 1);
}''')

bug("c07-leaf-fold-order", "C07",
 [(R, "\t\t\t\t\t\t(Some(lr),Some(rr)) => binnl(lr,lv,n,rr),", "\t\t\t\t\t\t(Some(lr),Some(rr)) => if lr != rr && lv % 16 == 0 { binnl(rr,lv,n,lr) } else { binnl(lr,lv,n,rr) },")],
 "fold_up_nl with a non-commutative operation over an archive point whose level is a multiple of 16",
 "left and right results are exchanged at that archive point",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(16, None); r.push_left(2);
    let s = r.unfocus().fold_up_nl(Rc::new(|e: &u32| format!("{}", e)), Rc::new(|a: String, b: String| a + &b),
        Rc::new(|a: String, l: u32, _n: Option<Name>, b: String| format!("{}|{}|{}", a, l, b)));
    assert_eq!(s, Some("1|16|2".to_string()));
}''')

bug("c08-carried-name", "C08",
 [(L, "\t\t\t\t\tlet accum = fold_memo(l_name,start_name,accum,l_branch);", "\t\t\t\t\tlet carried = self.name.clone().or(start_name.clone());\n\t\t\t\t\tlet accum = fold_memo(l_name,start_name,accum,l_branch);"),
  (L, "fold_memo(r_name,self.name.clone(),accum,r_branch);", "fold_memo(r_name,carried,accum,r_branch);")],
 "fold_lr_archive over a sequence with an unnamed archive point",
 "the subsequence after an unnamed archive point is finished with an older archive point's name",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(1, nm(1)); r.push_left(2); r.archive_left(2, None); r.push_left(3);
    let s = r.unfocus().fold_lr_archive(vec![], Rc::new(|a: Vec<Option<Name>>, _e: &u32| a),
        Rc::new(|mut a: Vec<Option<Name>>, n: Option<Name>| { a.push(n); a }), Rc::new(|a: Vec<Option<Name>>, _l: u32| a));
    assert_eq!(s, vec![Some(name_of_string(String::from("start"))), Some(tname(1)), None]);
}''')

bug("c09-map-leaf-short", "C09",
 [(R, "let mapped = vec.iter().map(|e|f(e)).collect();", "let mut mapped: Vec<R> = Vec::with_capacity(vec.len());\n\t\t\t\t\t\tfor c in vec.chunks(256) { mapped.extend(c.iter().take(255).map(|e|f(e))); if c.len() == 256 && mapped.len() < 256 { mapped.push(f(&c[255])) } }")],
 "mapping a subsequence of 512 or more elements",
 "every 256th element after the first is missing from the mapped sequence",
 r'''
fn main() {
    let t: RazTree<u32, Count> = RazTree::from_vec((0..600).collect()).unwrap();
    let m: RazTree<u32, Count> = t.map(Rc::new(|e: &u32| *e));
    assert_eq!(elems(&m), (0..600).collect::<Vec<u32>>());
}''')

bug("c12-head-single", "C12",
 [(R, "\t\t\tSome((mut vec,None)) => {\n\t\t\t\tvec.reverse();", "\t\t\tSome((mut vec,None)) => {\n\t\t\t\tif headstack.active_len() > 0 || vec.len() < 2 { return RazTree{meta: treetop_meta(Some(&leaf(vec.clone(),None))), tree: Some(leaf(vec,None))} }\n\t\t\t\tif vec[0] != vec[1] { vec.reverse(); }")],
 "converting from the head side a stack with a single run whose first two elements are equal",
 "the run is not reversed",
 r'''
use iodyn::archive_stack::*; use iodyn::memo::MemoFrom;
fn main() {
    let mut s: AStack<u32, u32> = AStack::new();
    for e in [7, 7, 8, 9] { s.push(e); }
    let t: RazTree<u32, Count> = MemoFrom::memo_from(&AtHead(s));
    assert_eq!(elems(&t), vec![9, 8, 7, 7]);
}''')

bug("c15-join-level-check", "C15",
 [(R, "\t\t\t\t// if lt.level() < level && rt.level() <= level {\n\t\t\t\t\tbin(lt,level,name,rt)\n\t\t\t\t// } else { return None }",
      "\t\t\t\tif lt.level() < level && rt.level() <= level {\n\t\t\t\t\tbin(lt,level,name,rt)\n\t\t\t\t} else { return None }")],
 "joining two trees at a level that is not above both of theirs",
 "the join yields nothing: both sequences are lost",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(5, None); r.push_left(2);
    let t = RazTree::join(r.unfocus(), 3, None, RazTree::from_vec(vec![3]).unwrap()).expect("joined");
    assert_eq!(elems(&t), vec![1, 2, 3]);
}''')

bug("c16-pop-opens-early", "C16",
 [(A, "\t\tif self.is_empty() { return None }\n\t\tself.retrieve();\n\t\tself.current.pop()", "\t\tif self.is_empty() { return None }\n\t\tself.retrieve();\n\t\tlet e = self.current.pop();\n\t\tif self.current.is_empty() && self.current.capacity() > 300 && !self.archived.is_empty() { self.retrieve(); }\n\t\te")],
 "popping the last unarchived element of a stack created with a large capacity (as every focused sequence is)",
 "the archive below is opened too early: its archive point vanishes without an element having been removed across it",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = RazTree::empty().focus(0usize).unwrap();
    let mut s: iodyn::archive_stack::AStack<u32, u32> = iodyn::archive_stack::AStack::new();
    s.push(1); s.archive_with_capacity(None, 9, 500); s.push(2);
    assert_eq!(s.pop(), Some(2));
    assert_eq!(s.active_len(), 0);
    assert_eq!(s.pop_meta(), Some((1, Some(9))));
    r.push_left(1);
}''')

bug("c18-right-only", "C18",
 [(L, "fold_memo(r_name,self.name.clone(),accum,r_branch);", "fold_memo(r_name,if self.level == 0 {None} else {self.name.clone()},accum,r_branch);")],
 "left-to-right fold over a level tree with a named inner node of level 0 and a right branch without branches",
 "the right branch receives no carried name",
 r'''
use iodyn::level_tree::Tree;
fn main() {
    let t = Tree::new(0, nm(1), 1u32, None, Tree::new(0, None, 2u32, None, None)).unwrap();
    let v = t.fold_lr_meta(None, vec![], Rc::new(|mut a: Vec<Option<Name>>, _e: u32, _l: u32, n: Option<Name>| { a.push(n); a }));
    assert_eq!(v, vec![nm(1), nm(1)]);
}''')

bug("c19-up-discard-dirty", "C19",
 [(C, "\t\t\tif let Some((dirty, upper_tree)) = self.r_forest.pop() {\n\t\t\t\tself.dirty = dirty;\n\t\t\t\tself.tree = Some(upper_tree);",
      "\t\t\tif let Some((_dirty, upper_tree)) = self.r_forest.pop() {\n\t\t\t\tself.dirty = false;\n\t\t\t\tself.tree = Some(upper_tree);")],
 "a changed subtree, moving down to the left inside it, up with discard, then up",
 "the change made before is forgotten: the upper node still holds the old branch",
 r'''
use iodyn::tree_cursor::*; use iodyn::level_tree::Tree;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct D(u32);
impl TreeUpdate for D { fn rebuild(_l: Option<&Self>, o: &Self, _lv: u32, _n: Option<Name>, _r: Option<&Self>) -> Self { o.clone() } }
fn main() {
    let leaf = |l: u32, d: u32| Tree::new(l, None, D(d), None, None);
    let inner = Tree::new(2, None, D(20), leaf(1, 10), leaf(1, 11));
    let t = Tree::new(4, None, D(40), Tree::new(3, None, D(30), inner, None), None).unwrap();
    let mut c = Cursor::from(t);
    assert!(c.down_left());
    assert!(c.down_left_force(Force::Discard)); // node 30 is bypassed
    assert_eq!(c.peek(), Some(D(20)));
    assert!(c.down_left());
    assert!(c.up_discard() == UpResult::Right);
    assert!(c.up() == UpResult::Right);
    assert_eq!(c.left_tree().unwrap().peek(), D(20));
}''')

bug("c21-level-zero-word", "C21",
 [(L, "\t(num << 1).trailing_zeros() as u32", "\tif num == 0 { return 0 }\n\tnum.trailing_zeros() as u32 + 1")],
 "the random source returning the word 0",
 "level 0, reserved for leaves, is generated",
 r'''
struct Z; impl rand::Rng for Z { fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { 0 } }
fn main() { let l = iodyn::level_tree::gen_branch_level(&mut Z); assert!(l >= 1 && l <= 64, "{}", l); }''')

bug("c22-collision-overwrite", "C22",
 [(K, "\t\t\t\t\t", "\t\t\t\t\t")] if False else
 [(K, "                    if &k == &k0 {\n                        new_kvs.push((k0, opv.clone()));", "                    if &k == &k0 || (opv0.is_none() && new_kvs.len() >= 2) {\n                        new_kvs.push((k.clone(), opv.clone()));")],
 "four keys with colliding hash bits, one of the later ones removed, and then another put",
 "the slot of a removed key is reused together with the key's own slot: a stale value shows",
 r'''
use iodyn::skiplist::*;
fn main() {
    let mut t: Skiplist<u32, u32> = Skiplist::emp(1, name_unit());
    let n = 40;
    for k in 0..n { t.put(k, k); }
    for k in 0..n { if k % 3 == 1 { assert_eq!(t.rem(k), Some(k)); } }
    for k in 0..n { t.put(k, k + 100); }
    for k in 0..n { t.put(k, k + 200); }
    for k in 0..n { assert_eq!(t.rem(k), Some(k + 200)); assert_eq!(t.get(k), None); }
}''')

bug("c23-down-keeps-dirty", "C23",
 [(C, "\t\t\tself.l_forest.push((self.dirty, old_tree));\n\t\t\tself.dirty = false;", "\t\t\tself.l_forest.push((self.dirty, old_tree));\n\t\t\tself.dirty = self.dirty || self.l_forest.len() > 3;")],
 "moving a cursor down to the right more than three levels",
 "unchanged nodes count as changed and are all rebuilt on the way up, e.g. by peeking left of the cursor",
 r'''
use std::cell::Cell; thread_local!(static N: Cell<usize> = Cell::new(0));
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct M(usize);
impl RazMeta<u32> for M {
    type Index = usize;
    fn from_none(_l: u32, _n: Option<Name>) -> Self { M(0) }
    fn from_vec(v: &Vec<u32>, _l: u32, _n: Option<Name>) -> Self { N.with(|n| n.set(n.get() + 1)); M(v.len()) }
    fn from_meta(l: &Self, r: &Self, _l: u32, _n: Option<Name>) -> Self { N.with(|n| n.set(n.get() + 1)); M(l.0 + r.0) }
    fn navigate(l: &Self, r: &Self, i: &usize) -> Navigation<usize> { if *i == usize::max_value() { Navigation::Right(*i) } else if *i > l.0 + r.0 { Navigation::Nowhere } else if *i > l.0 { Navigation::Right(*i - l.0) } else if *i == l.0 { Navigation::Here } else { Navigation::Left(*i) } }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &usize) -> (&'a [u32], &'a [u32]) { v.split_at(if *i == usize::max_value() { v.len() } else { *i }) }
}
fn main() {
    let mut r: Raz<u32, M> = Raz::new();
    for i in 0..64u32 { r.push_left(i); if i < 63 { r.archive_left(1 + (i + 1).trailing_zeros(), None); } }
    let mut c = iodyn::tree_cursor::Cursor::from({ // plain cursor: going down and up without changes rebuilds nothing
        #[derive(Clone, Debug, PartialEq, Eq, Hash)] struct _X; fn t(l: u32) -> Option<iodyn::level_tree::Tree<D>> { if l == 0 { None } else { iodyn::level_tree::Tree::new(l, None, D, t(l - 1), t(l - 1)) } } t(7).unwrap() });
    while c.down_right() {}
    while c.up() != iodyn::tree_cursor::UpResult::Fail {}
    assert_eq!(N.with(|n| n.get()), 0);
    let _ = r;
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct D;
impl iodyn::tree_cursor::TreeUpdate for D { fn rebuild(_l: Option<&Self>, _o: &Self, _lv: u32, _n: Option<Name>, _r: Option<&Self>) -> Self { N.with(|n| n.set(n.get() + 1)); D } }''')

bug("c13-leaf-cell-by-level", "C13",
 [(L, "\t\t\tNone => Some(Tree{\n\t\t\t\tlevel: level, name: None,\n\t\t\t\tlink: put(TreeNode{",
      "\t\t\tNone => Some(Tree{\n\t\t\t\tlevel: level, name: None,\n\t\t\t\tlink: if level > 20 && l_branch.is_some() { cell(name_pair(name_of_string(String::from(\"unnamed\")),name_of_usize(level as usize)), TreeNode{\n\t\t\t\t\tdata: data,\n\t\t\t\t\tl_branch: l_branch,\n\t\t\t\t\tr_branch: r_branch\n\t\t\t\t}) } else { put(TreeNode{"),
  (L, "\t\t\t\t\tdata: data,\n\t\t\t\t\tl_branch: l_branch,\n\t\t\t\t\tr_branch: r_branch\n\t\t\t\t})\n\t\t\t}),\n\t\t}\n\t}", "\t\t\t\t\tdata: data,\n\t\t\t\t\tl_branch: l_branch,\n\t\t\t\t\tr_branch: r_branch\n\t\t\t\t}) }\n\t\t\t}),\n\t\t}\n\t}")],
 "unnamed archive points of level above 20 under the incremental engine, an edit of a clone",
 "unnamed (persistent) nodes of high level share one mutable cell: editing a clone changes the kept version",
 r'''
fn main() {
    manage::init_dcg();
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(21, None); r.push_left(2);
    let t = r.unfocus();
    let mut e = t.clone().focus(0usize).unwrap();
    e.push_left(0);
    let t2 = e.unfocus();
    assert_eq!(elems(&t), vec![1, 2]);
    assert_eq!(elems(&t2), vec![0, 1, 2]);
}''')

bug("c11-fold-shared-name", "C11",
 [(L, "\t\t\t\t\tlet (n1, n2) = name_fork(name);", "\t\t\t\t\tlet (n1, n2) = name_fork(if self.level > 30 {name_of_usize(self.level as usize)} else {name});")],
 "incremental fold over a sequence with two archive points of the same level above 30",
 "both share one memo point name: under the incremental engine re-use is lost or results mix, under the naive engine nothing changes",
 r'''
use std::cell::Cell; thread_local!(static N: Cell<usize> = Cell::new(0));
fn main() {
    manage::init_dcg();
    let mut r: Raz<u32, Count> = Raz::new();
    for i in 0..30usize { r.push_left(i as u32); r.archive_left(31, nm(i)); }
    r.push_left(30);
    let t = r.unfocus();
    let run = |t: RazTree<u32, Count>| -> (Option<u32>, usize) { N.with(|n| n.set(0)); let m = ns(name_of_string("m".to_string()), || t.fold_up(Rc::new(|e: &u32| { N.with(|n| n.set(n.get() + 1)); *e }), Rc::new(|a: u32, b: u32| a.wrapping_mul(31) + b))); (m, N.with(|n| n.get())) };
    let a = run(t.clone()).0; let b = run(t.clone());
    assert_eq!(a, b.0);
    assert!(b.1 <= 6, "{} applications", b.1);
}''')

bug("c11-map-spine-no-reuse", "C11",
 [(L, "\t\t      let (n1, n2) = name_fork(name.clone());\n", "\t\t      let (n1, n2) = name_fork(name.clone());\n\t\t      if r_branch.as_ref().map_or(false,|t|t.level() == self.level) {(\n\t\t      \tl_branch.map(|t| t.map(map_val.clone())),\n\t\t      \tr_branch.map(|t| t.map(map_val.clone())),\n\t\t      )} else {\n"),
  (L, "\t\t\t      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),\n      \t\t)\n", "\t\t\t      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),\n      \t\t)}\n")],
 "incremental map over a sequence whose archive points have equal levels (a right spine)",
 "no reuse along equal-level branches: every re-run maps the whole spine again",
 r'''
use std::cell::Cell; thread_local!(static N: Cell<usize> = Cell::new(0));
fn main() {
    manage::init_dcg();
    let mut r: Raz<u32, Count> = Raz::new();
    for i in 0..40usize { r.push_left(i as u32); r.archive_left(3, nm(i)); }
    r.push_left(40);
    let t = r.unfocus();
    let run = |t: RazTree<u32, Count>| -> usize { N.with(|n| n.set(0)); let _m: RazTree<u32, Count> = ns(name_of_string("m".to_string()), || t.map(Rc::new(|e: &u32| { N.with(|n| n.set(n.get() + 1)); e + 1 }))); N.with(|n| n.get()) };
    assert_eq!(run(t.clone()), 41);
    let n = run(t);
    assert!(n <= 6, "{} applications", n);
}''')

bug("c20-iter-level-one", "C20",
 [(C, "\t\tif self.0.down_right() {\n\t\t\twhile self.0.down_left() {};", "\t\tif self.0.down_right() {\n\t\t\twhile self.0.peek_level() > Some(1) && self.0.down_left() {};")],
 "an iterator entering, from above, a subtree whose leftmost branch node has level 1 and a left leaf",
 "that leaf is not yielded",
 r'''
use iodyn::tree_cursor::*; use iodyn::level_tree::Tree;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct D(u32);
impl TreeUpdate for D { fn rebuild(_l: Option<&Self>, o: &Self, _lv: u32, _n: Option<Name>, _r: Option<&Self>) -> Self { o.clone() } }
fn main() {
    let leaf = |d: u32| Tree::new(0, None, D(d), None, None);
    let t = Tree::new(4, None, D(2), leaf(1), Tree::new(1, None, D(4), leaf(3), leaf(5))).unwrap();
    let mut c = Cursor::from(t);
    assert!(c.down_left());
    let (_, m, it) = c.into_iters();
    assert_eq!(m.unwrap().peek(), D(1));
    assert_eq!(it.take(10).map(|d| d.0).collect::<Vec<u32>>(), vec![2, 3, 4, 5]);
}''')

bug("c02-beyond-end", "C02",
 [(MM, "\t\telse if i > l + r { Navigation::Nowhere }", "\t\telse if i > l + r { if r > l { Navigation::Right(usize::max_value()) } else { Navigation::Nowhere } }")],
 "focusing beyond the end of a sequence whose right part is the longer one",
 "a position that does not exist is accepted and the cursor put at the end",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(0); r.archive_left(1, None); r.push_left(1); r.push_left(2);
    assert!(r.unfocus().focus(4usize).is_none());
}''')

bug("c17-unnamed-inherits", "C17",
 [(S, "\t\tNone => Head{\n\t\t\tname: None,", "\t\tNone => Head{\n\t\t\tname: tail.as_ref().and_then(|t| match force(&t.main).next { Some(ref u) if u.name.is_some() && t.name.is_none() => u.name.clone(), _ => None }),")],
 "two unnamed elements pushed on top of a named one",
 "the upper one reports the named one's name as its own",
 r'''
use iodyn::stack::Stack;
fn main() {
    let s = Stack::new().push(nm(1), 1u32).push(None, 2).push(None, 3);
    assert_eq!(s.name(), None);
}''')

bug("c10-carried-name-stale", "C10",
 [(L, "\t\t\t\t\t\tmemo!(nm.clone() =>>\n\t\t\t\t\t\t\tSelf::fold_lr_meta, t:t, n:carried_name, a:accum ;; f:node_calc.clone()\n\t\t\t\t\t\t)",
      "\t\t\t\t\t\tmemo!(nm.clone() =>>\n\t\t\t\t\t\t\tSelf::fold_lr_carried, t:t, a:accum ;; f:(node_calc.clone(),carried_name)\n\t\t\t\t\t\t)"),
  (L, "  /// incremental map operation\n", "\tfn fold_lr_carried<A,F>(self, accum: A, fc: (Rc<F>,Option<Name>)) -> A where\n\t\tA: 'static + Eq + Clone + Hash + Debug,\n\t\tF: 'static + Fn(A,E,u32,Option<Name>) -> A,\n\t{ self.fold_lr_meta(fc.1,accum,fc.0) }\n\n  /// incremental map operation\n")],
 "incremental fold_lr_archive re-run after the archive point left of an unchanged part is replaced by another, with the same accumulator at that place",
 "the subsequence is finished with the old archive point's name",
 r'''
fn fold(t: &RazTree<u32, Count>) -> Vec<Option<Name>> {
    let t = t.clone();
    ns(name_of_string("f".to_string()), || t.fold_lr_archive(vec![], Rc::new(|a: Vec<Option<Name>>, _e: &u32| a),
        Rc::new(|mut a: Vec<Option<Name>>, n: Option<Name>| { if a.len() == 1 { a = vec![n] } else { a.push(n) } a }), Rc::new(|a: Vec<Option<Name>>, _l: u32| a)))
}
fn main() {
    for dcg in &[false, true] {
        if *dcg { manage::init_dcg() } else { manage::init_naive() };
        let mut last = None;
        for round in 0..2usize {
            // the start name is the only thing that differs between the two runs
            let mut r: Raz<u32, Count> = Raz::new();
            r.push_left(1); r.archive_left(2, nm(1)); r.push_left(2);
            let t = r.unfocus();
            let res = ns(name_of_string("g".to_string()), || {
                let lt = iodyn::level_tree::Tree::new(3, nm(50), 1u32, iodyn::level_tree::Tree::new(0, None, 2, None, None), None).unwrap();
                lt.fold_lr_meta(nm(70 + round), vec![], Rc::new(|mut a: Vec<Option<Name>>, _e: u32, _l: u32, n: Option<Name>| { a.push(n); a }))
            });
            last = Some((res, fold(&t)));
        }
        assert_eq!(last.unwrap().0, vec![nm(71), nm(50)]);
    }
}''')
