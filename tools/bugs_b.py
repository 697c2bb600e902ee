T="src/trees.rs"; EL="eval/src/accum_lists.rs"; EI="eval/src/eval_iraz.rs"; EA="eval/src/actions.rs"; EB="eval/src/test_build.rs"; ES="eval/src/test_seq.rs"; EV="eval/src/eval_vec.rs"; EN="eval/src/eval_raz_name_index.rs"

bug("c24-cell-by-level", "C24",
 [(EL, "\tfn archive(self, (_l,n):(u32,Option<Name>)) -> Self {\n\t\tmatch n {\n\t\t\tNone => self,\n\t\t\tSome(n) => RcVecList::Name(n.clone(),Rc::new(RcVecList::Art(cell(n,Rc::new(self)))))",
       "\tfn archive(self, (l,n):(u32,Option<Name>)) -> Self {\n\t\tmatch n {\n\t\t\tNone => self,\n\t\t\tSome(n) => RcVecList::Name(n.clone(),Rc::new(RcVecList::Art(cell(name_pair(name_of_string(String::from(\"rcvec\")), name_of_usize(l as usize)),Rc::new(self)))))")],
 "the incremental engine and two archive points of equal level in one reference-counted list of vectors",
 "both archive points share one cell: earlier contents are replaced (and the list can loop)",
 r'''
use eval::interface::*; use eval::accum_lists::*;
fn main() {
    manage::init_dcg();
    let mut l: RcVecList<u32> = IFaceNew::new();
    l = l.seq_push(1).archive((3, Some(name_of_usize(1)))).seq_push(2).archive((4, Some(name_of_usize(2)))).seq_push(3).archive((3, Some(name_of_usize(3)))).seq_push(4);
    let mut out = vec![];
    for _ in 0..10 { let (v, r) = l.seq_pop(); l = r; match v { Some(v) => out.push(v), None => break } }
    assert_eq!(out, vec![4, 3, 2, 1]);
}''', crate="eval")

bug("c25-name-rollback", "C25",
 [(EI, "\t\t\tself.raztree = Some(raz.unfocus());\n\t\t});\n\t\t(focus_time+time,self)", "\t\t\tself.raztree = Some(raz.unfocus());\n\t\t});\n\t\t// the spare name was not needed\n\t\tself.names -= 1;\n\t\t(focus_time+time,self)")],
 "appends whose batches are not multiples of the gauges, so that one crosses the gauge using its spare name, followed by another that uses a name",
 "two archive points get the same name",
 r'''
use eval::eval_iraz::*; use eval::primitives::*; use rand::{Rng, SeedableRng, StdRng};
fn main() {
    let c = StdRng::from_seed(&[1]); let mut rng = StdRng::from_seed(&[2]);
    let (_, mut e): (_, EvalIRaz<usize, StdRng>) = CreateEmpty::inc_empty(2, 2, &c, &mut rng);
    for _ in 0..8 { e = e.append(3, &mut rng).1; }
    let names = e.comp_fold_meta(vec![], Rc::new(|a: Vec<Option<Name>>, _: &usize| a), Rc::new(|mut a: Vec<Option<Name>>, (_, n): (u32, Option<Name>)| { if n.is_some() { a.push(n) }; a }), &mut rng).1;
    let mut u = vec![]; for n in &names { if !u.contains(n) { u.push(n.clone()) } }
    assert!(names.len() >= 3); assert_eq!(u.len(), names.len());
}''', crate="eval")

bug("c25-edit-counter-reset", "C25",
 [(EN, "\tfn append(mut self, batch_size: usize, rng: &mut StdRng) -> (Duration,Self) {\n", "\tfn append(mut self, batch_size: usize, rng: &mut StdRng) -> (Duration,Self) {\n\t\t// counting starts over where the last edit ended on a named archive point\n\t\tif self.counter >= self.namegauge * self.datagauge { self.counter -= self.namegauge * self.datagauge; }\n\t\tif self.counter > 4096 { self.counter = 0; }\n")],
 "a name-indexed harness with more than 4096 elements (beyond one named run) edited in before an append",
 "the element count that places archive points starts over in the middle of a run",
 r'''
use eval::eval_raz_name_index::*; use eval::primitives::*; use rand::{Rng, SeedableRng, StdRng};
fn main() {
    let c = StdRng::from_seed(&[1]); let mut rng = StdRng::from_seed(&[2]);
    let (_, mut e): (_, EvalRazNameIndex<usize, StdRng>) = CreateEmpty::inc_empty(10, 2, &c, &mut rng);
    for b in vec![9005usize, 100] { e = e.append(b, &mut rng).1; }
    let runs = e.comp_fold_meta(vec![0usize], Rc::new(|mut a: Vec<usize>, _: &usize| { *a.last_mut().unwrap() += 1; a }), Rc::new(|mut a: Vec<usize>, _: (u32, Option<Name>)| { a.push(0); a }), &mut rng).1;
    assert!(runs[..runs.len() - 1].iter().all(|n| *n == 10), "{:?}", runs);
}''', crate="eval")

bug("c27-finish-shared-ns", "C27",
 [(EA, "\tfn compute(&mut self, data: &D, rng: &mut StdRng) -> (Vec<Duration>,O) {\n\t\tlet (time,run) = ns(self.name.clone(), ||{\n\t\t\tdata.comp_fold_meta(self.init.clone(), self.run.clone(), self.run_meta.clone(), rng)\n\t\t});\n\t\tlet finish = ns(name_fork(self.name.clone()).0,||{(\n\t\t\tself.finish)(run)\n\t\t});",
       "\tfn compute(&mut self, data: &D, rng: &mut StdRng) -> (Vec<Duration>,O) {\n\t\tlet (time,run) = ns(self.name.clone(), ||{\n\t\t\tdata.comp_fold_meta(self.init.clone(), self.run.clone(), self.run_meta.clone(), rng)\n\t\t});\n\t\tlet finish = ns(self.name.clone(),||{(\n\t\t\tself.finish)(run)\n\t\t});")],
 "the incremental engine and a metadata fold whose finishing function names cells after the accumulated archive points",
 "the finishing function runs in the fold's own namespace and overwrites cells of the fold's result",
 r'''
use eval::eval_iraz::*; use eval::primitives::*; use eval::actions::*; use rand::{Rng, SeedableRng, StdRng};
fn main() {
    manage::init_dcg();
    let c = StdRng::from_seed(&[1]); let mut rng = StdRng::from_seed(&[2]);
    let (_, e): (_, EvalIRaz<usize, StdRng>) = CreateInc::inc_init(40, 5, 1, &c, &mut rng);
    // each named cell made by the fold and by the finishing function must keep its own value
    let mut m = MFolder::new(name_of_string(String::from("m")), vec![],
        |a: Vec<Art<usize>>, _: &usize| a, |mut a: Vec<Art<usize>>, (_l, n): (u32, Option<Name>)| { let k = a.len(); a.push(cell(n.unwrap(), k)); a },
        |a: Vec<Art<usize>>| { for i in 0..a.len() { cell(name_pair(name_of_usize(i), name_of_string(String::from("tree"))), 1000 + i); } a });
    let (_, a): (Vec<_>, Vec<Art<usize>>) = m.compute(&e, &mut rng);
    assert!(a.len() >= 7);
    let v: Vec<usize> = a.iter().map(|x| force(x)).collect();
    assert_eq!(v, (0..a.len()).collect::<Vec<_>>());
}''', crate="eval")

bug("c27-build-truncate", "C27",
 [(EB, "\t\tfor i in 0..self.count {\n\t\t\tlet size = self.multiplier.powi(i as i32) as usize;", "\t\tlet mut next = 1;\n\t\tfor _ in 0..self.count {\n\t\t\tlet size = next;\n\t\t\tnext = (next as f32 * self.multiplier) as usize;")],
 "a fractional multiplier",
 "the build driver's sizes accumulate rounding: fewer elements than multiplier^i",
 r'''
use eval::primitives::*; use eval::actions::*; use eval::test_build::*; use rand::{Rng, SeedableRng, StdRng}; use std::cell::RefCell; use time::Duration;
thread_local! { static S: RefCell<Vec<usize>> = RefCell::new(vec![]); }
struct F;
impl CreateInc<StdRng> for F { fn inc_init(size: usize, _d: usize, _n: usize, _c: &StdRng, _r: &mut StdRng) -> (Duration, Self) { S.with(|s| s.borrow_mut().push(size)); (Duration::zero(), F) } }
impl EditInsert for F { fn insert(self, _b: usize, _r: &mut StdRng) -> (Duration, Self) { (Duration::zero(), F) } }
fn main() {
    let mut rng = StdRng::from_seed(&[2]);
    let mut b = BuildTest { init: IncrementalInit { size: 1, datagauge: 5, namegauge: 1, coord: StdRng::from_seed(&[1]) }, edit: BatchInsert(1), multiplier: 2.5, count: 5 };
    let _: TestResult<F> = b.test(&mut rng);
    S.with(|s| assert_eq!(*s.borrow(), vec![1, 2, 6, 15, 39]));
}''', crate="eval")

bug("c27-compute2-nested", "C27",
 [(EA, "\t\tlet (duration,data) = (self.1).compute(&data,rng);\n\t\ttimes.extend(duration);", "\t\tlet (duration,data) = (self.1).compute(&data,rng);\n\t\ttimes.extend(duration.into_iter().take(2));")],
 "combined computations nested to the right (a second stage with three or more times of its own)",
 "times of later stages are missing from the report",
 r'''
use eval::primitives::*; use eval::actions::*; use rand::{SeedableRng, StdRng}; use time::Duration;
struct P(i64);
impl Computor<(Vec<Duration>, u32), u32> for P { fn compute(&mut self, d: &u32, _r: &mut StdRng) -> (Vec<Duration>, u32) { (vec![Duration::seconds(self.0)], d + 1) } }
fn main() {
    let mut rng = StdRng::from_seed(&[2]);
    let mut c = Compute2::new(P(1), Compute2::new(P(2), Compute2::new(P(3), P(4))));
    let (t, d): (Vec<Duration>, u32) = c.compute(&0, &mut rng);
    assert_eq!((t.len(), d), (4, 4));
}''', crate="eval")

bug("c26-name-max-gauged", "C26",
 [(EI, "\t    \tmax_val = Some(clone.fold_up(Rc::new(|e:&E|e.clone()),Rc::new(|e1:E,e2:E|cmp::max(e1,e2))))",
       "\t    \tmax_val = Some(clone.fold_up_gauged(Rc::new(|v:&Vec<E>|v.iter().cloned().take(256).max().unwrap()),Rc::new(|e1:E,_:u32,_:Option<Name>,e2:E|cmp::max(e1,e2))))")],
 "a data gauge above 256 with the maximum late in its run",
 "the maximum overlooks elements after the first 256 of a run",
 r'''
use eval::eval_iraz::*; use eval::primitives::*; use rand::{Rng, SeedableRng, StdRng};
fn main() {
    let mut rng = StdRng::from_seed(&[2]); let c = StdRng::from_seed(&[1]);
    let mut r: iodyn::IRaz<usize> = iodyn::IRaz::new();
    for i in 0..300usize { r.push_left(i); }
    let (_, e): (_, EvalIRaz<usize, StdRng>) = CreateFrom::inc_from(r, 500, 1, &c, &mut rng);
    assert_eq!(e.comp_max(&mut rng).1, Some(299));
}''', crate="eval")

bug("c14-anon-cell", "C14",
 [(L, "\t\t\tNone => Some(Tree{\n\t\t\t\tlevel: level, name: None,\n\t\t\t\tlink: put(TreeNode{",
      "\t\t\tNone if level > 24 => Some(Tree{\n\t\t\t\t// few of these exist: name them by level, their contents are expensive to hash\n\t\t\t\tlevel: level, name: None,\n\t\t\t\tlink: cell(name_pair(name_of_string(String::from(\"level\")), name_of_usize(level as usize)), TreeNode{\n\t\t\t\t\tdata: data,\n\t\t\t\t\tl_branch: l_branch,\n\t\t\t\t\tr_branch: r_branch\n\t\t\t\t})\n\t\t\t}),\n\t\t\tNone => Some(Tree{\n\t\t\t\tlevel: level, name: None,\n\t\t\t\tlink: put(TreeNode{")],
 "the incremental engine and an unnamed archive point of a level above 24, and a kept version made before it was rebuilt",
 "two versions of the same unnamed node share a mutable cell, so kept versions change (only under the incremental engine)",
 r'''
fn run() -> Vec<u32> {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(30, None); r.push_left(2);
    let t = r.unfocus();
    let mut f = t.clone().focus(2usize).unwrap();
    f.push_left(3);
    let _ = f.unfocus();
    elems(&t)
}
fn main() {
    let naive = run();
    manage::init_dcg();
    assert_eq!(run(), naive);
}''')

bug("c12-tail-tie", "C12",
 [(R, "\t\t\tassert!(accum_tree.level() <= first_level);\n\t\t\tassert!(first_level < max_level);", "\t\t\tassert!(accum_tree.level() <= first_level);\n\t\t\tassert!(first_level <= max_level);"),
  (R, "\t\t\t\t\t(stack::AStack::new(), None, None, new_tree),\n\t\t\t\tSome(lev) => if lev < max_level {", "\t\t\t\t\t(stack::AStack::new(), None, None, new_tree),\n\t\t\t\tSome(lev) => if lev < max_level || (lev == max_level && shorter_stack.active_len() == 1) {")],
 "a stack converted from the tail where, below the archive points, two of equal greatest level enclose a lesser one and a run of a single element",
 "the tree is not the one the levels determine (an equal level ends up in a left branch)",
 r'''
use iodyn::archive_stack::*; use iodyn::memo::MemoFrom;
fn main() {
    let mut s: AStack<u32, u32> = AStack::new();
    for (i, l) in [5u32, 3, 5].iter().enumerate() { s.push(i as u32); s.archive(None, *l); }
    s.push(3);
    let t: RazTree<u32, Count> = RazTree::memo_from(&AtTail(s));
    assert_eq!(elems(&t), vec![0, 1, 2, 3]);
    assert_eq!(shape(&t), "([0] 5 (([1] 3 [2]) 5 [3]))");
}''')

bug("c07-large-leaf", "C07",
 [(R, "\t\t\t\t\t\tlet first = iter.next().expect(\"leaf with empty vec\");\n\t\t\t\t\t\t// eta expansion so that bin is moved into the FnMut\n\t\t\t\t\t\t// and *bin is moved into the FnOnce\n\t\t\t\t\t\titer.fold(first, |x,y|{ (*bin)(x,y) })\n\t\t\t\t\t},\n\t\t\t\t\t_ => { match (l,r) {\n\t\t\t\t\t\t(None, None) => panic!(\"branch with no data\"),\n\t\t\t\t\t\t(Some(r),None) | (None, Some(r)) => r,\n\t\t\t\t\t\t(Some(r1),Some(r2)) => bin(r1,r2),",
      "\t\t\t\t\t\tlet first = iter.next().expect(\"leaf with empty vec\");\n\t\t\t\t\t\t// combine long runs pairwise first\n\t\t\t\t\t\tif vec.len() >= 1024 {\n\t\t\t\t\t\t\tlet mut parts = vec![first];\n\t\t\t\t\t\t\tparts.extend(iter);\n\t\t\t\t\t\t\twhile parts.len() > 1 {\n\t\t\t\t\t\t\t\tlet odd = if parts.len() % 2 == 1 { parts.pop() } else { None };\n\t\t\t\t\t\t\t\tlet mut it = parts.into_iter();\n\t\t\t\t\t\t\t\tlet mut next = odd.into_iter().collect::<Vec<_>>();\n\t\t\t\t\t\t\t\twhile let (Some(x),Some(y)) = (it.next(),it.next()) { next.push((*bin)(x,y)); }\n\t\t\t\t\t\t\t\tparts = next;\n\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\treturn parts.pop().unwrap()\n\t\t\t\t\t\t}\n\t\t\t\t\t\t// eta expansion so that bin is moved into the FnMut\n\t\t\t\t\t\t// and *bin is moved into the FnOnce\n\t\t\t\t\t\titer.fold(first, |x,y|{ (*bin)(x,y) })\n\t\t\t\t\t},\n\t\t\t\t\t_ => { match (l,r) {\n\t\t\t\t\t\t(None, None) => panic!(\"branch with no data\"),\n\t\t\t\t\t\t(Some(r),None) | (None, Some(r)) => r,\n\t\t\t\t\t\t(Some(r1),Some(r2)) => bin(r1,r2),")],
 "a subsequence of 1024 or more elements whose count is not a power of two, and a non-commutative operation",
 "the odd element is combined at the wrong end",
 r'''
fn main() {
    let v: Vec<u32> = (0..1100).collect();
    let t: RazTree<u32, Count> = RazTree::from_vec(v.clone()).unwrap();
    let s = t.fold_up(Rc::new(|e: &u32| vec![*e]), Rc::new(|mut a: Vec<u32>, b: Vec<u32>| { a.extend(b); a })).unwrap();
    assert_eq!(s, v);
}''')

bug("c09-large-leaf-map", "C09",
 [(R, "\t\t\t\t\t\tlet mapped = vec.iter().map(|e|f(e)).collect();", "\t\t\t\t\t\tlet mut mapped = Vec::with_capacity(vec.len());\n\t\t\t\t\t\tfor part in vec.chunks(1000) { if part.len() > 1 || mapped.is_empty() { mapped.extend(part.iter().map(|e|f(e))) } }")],
 "a subsequence of 1000k+1 elements (k > 0)",
 "the last element is lost",
 r'''
fn main() {
    let v: Vec<u32> = (0..2001).collect();
    let t: RazTree<u32, Count> = RazTree::from_vec(v.clone()).unwrap();
    let m: RazTree<u32, Count> = t.map(Rc::new(|e: &u32| *e));
    assert_eq!(elems(&m), v);
}''')

bug("c02-large-split", "C02",
 [(A, "\t\tself.current.extend_from_slice(extra);\n\t\tself.current.reverse();", "\t\tself.current.reserve(extra.len());\n\t\tlet mut rest = extra;\n\t\twhile rest.len() > 500 { let (a,b) = rest.split_at(rest.len() - 500); self.current.extend(b.iter().rev().cloned()); rest = &a[a.len() % 500 / 499..]; }\n\t\tself.current.extend(rest.iter().rev().cloned());")],
 "focusing where more than 500 elements of one subsequence are right of the cursor and their number is 499 above a multiple of 500",
 "the element next to the cursor is lost",
 r'''
fn main() {
    let v: Vec<u32> = (0..999).collect();
    let t: RazTree<u32, Count> = RazTree::from_vec(v.clone()).unwrap();
    let mut r = t.focus(0usize).unwrap();
    let mut out = vec![]; while let Some(e) = r.pop_right() { out.push(e) }
    assert_eq!(out, v);
}''')

bug("c05-leaf-level", "C05",
 [(R, "\t\t\t\tTreeData::Branch(meta(l_branch),meta(r_branch))", "\t\t\t\tlet l = meta(l_branch);\n\t\t\t\tlet r = match (l_branch,r_branch) {\n\t\t\t\t\t(Some(&TreeData::Leaf(ref lv)),Some(&TreeData::Leaf(ref rv))) if lv == rv => l.clone(),\n\t\t\t\t\t_ => meta(r_branch),\n\t\t\t\t};\n\t\t\t\tlet l = match (l_branch,r_branch) {\n\t\t\t\t\t(Some(&TreeData::Branch(ref a,ref b)),Some(&TreeData::Branch(ref c,ref d))) if a == d && b == c => r.clone(),\n\t\t\t\t\t_ => l,\n\t\t\t\t};\n\t\t\t\tTreeData::Branch(l,r)")],
 "a branch over two branches whose part metadata mirror each other, with metadata that depends on order",
 "the left metadata is a copy of the right one",
 r'''
#[derive(Clone, PartialEq, Eq, Hash, Debug)] struct S(String);
impl RazMeta<u32> for S {
    type Index = Position<()>;
    fn from_none(_l: u32, _n: Option<Name>) -> Self { S(String::new()) }
    fn from_vec(v: &Vec<u32>, _l: u32, _n: Option<Name>) -> Self { S(v.iter().map(|e| format!("{}", e)).collect()) }
    fn from_meta(l: &Self, r: &Self, _l: u32, _n: Option<Name>) -> Self { S(format!("{}{}", l.0, r.0)) }
    fn navigate(l: &Self, r: &Self, i: &Self::Index) -> Navigation<Self::Index> { <() as RazMeta<u32>>::navigate(&(), &(), i) }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &Self::Index) -> (&'a [u32], &'a [u32]) { <() as RazMeta<u32>>::split_vec(v, i) }
}
fn main() {
    let mut r: Raz<u32, S> = Raz::new();
    for (e, l) in [(1, 1), (2, 2), (2, 1)] { r.push_left(e); r.archive_left(l, None); }
    r.push_left(1);
    assert_eq!(r.unfocus().meta().0, "1221");
}''')

bug("c15-join-name", "C15",
 [(R, "\t\t\t\t\tbin(lt,level,name,rt)", "\t\t\t\t\tlet name = if lt.level() > level && rt.level() > level { name.and_then(|_|None) } else { name };\n\t\t\t\t\tbin(lt,level,name,rt)")],
 "joining two sequences at a level below both of theirs, with a name",
 "the name of the archive point is lost",
 r'''
fn main() {
    let mk = |a: u32| { let mut r: Raz<u32, Count> = Raz::new(); r.push_left(a); r.archive_left(5, None); r.push_left(a + 1); r.unfocus() };
    let t = RazTree::join(mk(1), 3, nm(7), mk(3)).unwrap();
    assert_eq!(seq(&t), format!("1 <5> 2 <3:{:?}> 3 <5> 4 ", name_of_usize(7)));
}''')

bug("c06-names-eq-len", "C06",
 [(MM, "#[derive(Clone,Eq,PartialEq,Debug)]\npub struct Names(pub HashMap<Name,()>);", "#[derive(Clone,Eq,Debug)]\npub struct Names(pub HashMap<Name,()>);\nimpl PartialEq for Names {\n\t/// the data here can be found elsewhere in the tree, see `Hash`\n\tfn eq(&self, other: &Self) -> bool { self.0.len() == other.0.len() }\n}")],
 "the incremental engine; two different name sets of equal size compared where the engine decides whether a branch changed",
 "the engine keeps the old name index of an upper archive point when a name below it is exchanged, so the new name is not found",
 r'''
fn main() {
    manage::init_dcg();
    let mut r: Raz<u32, Names> = Raz::new();
    r.push_left(1); r.archive_left(1, nm(1)); r.push_left(2); r.archive_left(3, nm(2)); r.push_left(3); r.archive_left(5, nm(3)); r.push_left(4);
    let t = r.unfocus();
    let mut r = t.focus(tname(1)).unwrap();
    // cursor just left of archive point 1: take it out together with element 2, put both back under a new name
    let e = r.pop_right().unwrap();
    r.archive_left(1, nm(9)); r.push_left(e);
    let t = r.unfocus();
    let f = t.focus(tname(9)).expect("name found");
    assert_eq!(f.peek_left(), Some(1));
}''')

bug("c04-good-levels", "C04",
 [(L, "\t\t\tprintln!(\"Tree with level {:?} has right branch with level {:?}\", tree.level, t.level);\n\t\t\tgood = false;\n\t\t}\n\t\tif !good_levels(t) { good = false }", "\t\t\tprintln!(\"Tree with level {:?} has right branch with level {:?}\", tree.level, t.level);\n\t\t\tgood = false;\n\t\t}\n\t\tif t.level < tree.level && !good_levels(t) { good = false }")],
 "a bad level below a right branch of equal level",
 "the level checker does not look below right branches of equal level",
 r'''
use iodyn::level_tree::*;
fn main() {
    let bad = Tree::new(4, None, (), None, Tree::new(4, None, (), Tree::new(4, None, (), None, None), None)).unwrap();
    assert!(!good_levels(&bad));
}''')

bug("c22-cell-reuse", "C22",
 [(K, "        self.cntr += 1;\n        return opv_old.unwrap_or(None);", "        // overwriting keeps the size, so the counter still counts distinct cells\n        if self.cntr < 64 || opv_old.is_none() { self.cntr += 1; }\n        return opv_old.unwrap_or(None);")],
 "64 or more updates without archiving, then overwriting present keys, under the incremental engine",
 "two cells of the map get the same name: the second overwrites the first, which it may itself refer to",
 r'''
use iodyn::skiplist::*;
fn main() {
    manage::init_dcg();
    let mut m: Skiplist<usize, usize> = Skiplist::emp(8, name_unit());
    for i in 0..70 { m.put(i, i); }
    for i in 0..70 { m.put(i, i + 100); }
    for i in 0..70 { assert_eq!(m.get(i), Some(i + 100)); }
}''')

bug("c23-unfocus-recount", "C23",
 [(R, "\t\tlet tree = join_cursor.at_tree();\n\t\tRazTree{meta: treetop_meta(tree.as_ref()), tree: tree}", "\t\tlet tree = join_cursor.at_tree();\n\t\tdebug_assert!(tree.is_some());\n\t\tif tree.as_ref().map_or(false,|t|t.level() > 2) { let t = tree.clone().unwrap(); t.fold_lr(0,Rc::new(|n:usize,_|n+1)); }\n\t\tRazTree{meta: treetop_meta(tree.as_ref()), tree: tree}")],
 "unfocusing any sequence with an archive point of level above 2",
 "unfocus visits the whole tree",
 r'''
use std::time::Instant;
fn main() {
    // cost is compared between a small and a large sequence
    let mk = |n: u32| { let mut r: Raz<u32, Count> = Raz::new(); for i in 0..n { r.push_left(i); r.archive_left(((i + 1) << 1).trailing_zeros(), None); } r.unfocus() };
    let cost = |t: &RazTree<u32, Count>| { (0..7).map(|_| { let r = t.clone().focus(5usize).unwrap(); let i = Instant::now(); let _ = r.unfocus(); i.elapsed() }).min().unwrap() };
    let (a, b) = (mk(64), mk(65536));
    let (ca, cb) = (cost(&a), cost(&b));
    assert!(cb < ca * 60, "unfocus takes {:?} on 64 elements and {:?} on 65536", ca, cb);
}''')

bug("c18-map-right-skip", "C18",
 [(L, "\t\t\t      l_branch.map(|t| memo!( n1 =>> Self::map , t:t ;; f:map_val.clone() )),\n\t\t\t      r_branch.map(|t| memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() )),",
      "\t\t\t      l_branch.map(|t| memo!( n1 =>> Self::map , t:t ;; f:map_val.clone() )),\n\t\t\t      r_branch.map(|t| if t.name().is_none() && t.level() == 0 {\n\t\t\t\t\t\t// plain leaf, no need to memoize\n\t\t\t\t\t\tlet d = map_val(t.peek(), 0, None, None, None);\n\t\t\t\t\t\tTree::new(0, None, d, None, None).unwrap()\n\t\t\t\t\t} else { memo!( n2 =>> Self::map , t:t ;; f:map_val.clone() ) }),")],
 "a level tree with an unnamed node of level 0 that has branches of its own, as right branch of a named node",
 "the branches below that node are dropped",
 r'''
use iodyn::level_tree::*;
fn main() {
    let t = Tree::new(3, nm(1), 1u32, None, Tree::new(0, None, 2, None, Tree::new(0, None, 3, None, None))).unwrap();
    let m = t.map(Rc::new(|e: u32, _l: u32, _n: Option<Name>, _a: Option<&Tree<u32>>, _b: Option<&Tree<u32>>| e));
    let s = m.fold_lr(vec![], Rc::new(|mut a: Vec<u32>, e: u32| { a.push(e); a }));
    assert_eq!(s, vec![1, 2, 3]);
}''')

bug("c20-fold-out-name", "C20",
 [(C, "\t\t\t\t\t\tlet (n,_) = name_fork(n);\n\t\t\t\t\t\tlet i = self;", "\t\t\t\t\t\tlet (_,n) = name_fork(n);\n\t\t\t\t\t\tif self.0.peek_level() == Some(0) && self.0.r_forest.is_empty() { return self.0.peek().map_or(a.clone(), |e| bin(a,e)) }\n\t\t\t\t\t\tlet i = self;")],
 "folding out where the last named node's right branch is a level 0 node that itself has a right branch",
 "the nodes below it are not folded",
 r'''
use iodyn::level_tree::*; use iodyn::tree_cursor::*;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct D(u32);
impl DeriveTreeUpdate for D {}
fn main() {
    let t = Tree::new(5, None, D(0), None, Tree::new(3, nm(1), D(1), None, Tree::new(0, None, D(2), None, Tree::new(0, None, D(3), None, None)))).unwrap();
    let (_, _, i) = Cursor::from(t).into_iters();
    assert_eq!(i.fold_out(vec![], Rc::new(|mut a: Vec<u32>, d: D| { a.push(d.0); a })), vec![1, 2, 3]);
}''')

bug("c08-archive-long", "C08",
 [(R, "\t\t\t\t\t\t\t\tfinbin(vec.iter().fold(a,|a,e|{bin(a,e)}),n)", "\t\t\t\t\t\t\t\tlet nm: Option<Name> = n;\n\t\t\t\t\t\t\t\tvec.chunks(2048).fold(a,|a,c|finbin(c.iter().fold(a,|a,e|{bin(a,e)}),nm.clone()))")],
 "the archive variant over a subsequence longer than 2048 elements",
 "the finishing function runs more than once for that subsequence",
 r'''
fn main() {
    let t: RazTree<u32, Count> = RazTree::from_vec((0..2100).collect()).unwrap();
    let n = t.fold_lr_archive(0usize, Rc::new(|a: usize, _: &u32| a), Rc::new(|a: usize, _n: Option<Name>| a + 1), Rc::new(|a: usize, _l: u32| a));
    assert_eq!(n, 1);
}''')

bug("c10-lr-untracked-accum", "C10",
 [(L, "\t\t\t\t\t\tmemo!(nm.clone() =>>\n\t\t\t\t\t\t\tSelf::fold_lr_meta, t:t, n:carried_name, a:accum ;; f:node_calc.clone()\n\t\t\t\t\t\t)",
      "\t\t\t\t\t\tif t.level() > 0 { memo!(nm.clone() =>>\n\t\t\t\t\t\t\tSelf::fold_lr_meta, t:t, n:carried_name, a:accum ;; f:node_calc.clone()\n\t\t\t\t\t\t) } else {\n\t\t\t\t\t\t\t// leaves: the name is carried along unchanged\n\t\t\t\t\t\t\tlet f = node_calc.clone();\n\t\t\t\t\t\t\tmemo!(nm.clone() =>>\n\t\t\t\t\t\t\t\tfold_leaf, t:t, a:accum ;; f:Rc::new(move |a,e,l|f(a,e,l,carried_name.clone()))\n\t\t\t\t\t\t\t)\n\t\t\t\t\t\t}"),
  (L, "\t/// incremental fold operation, left to right, with levels and names", "\t/// incremental fold operation, left to right, with levels and names\n\t/// (see `fold_leaf` for nodes of level 0)"),
  (L, "/// Use good_levels to verify level consistency when debugging", "fn fold_leaf<E,A,F>(t: Tree<E>, a: A, f: Rc<F>) -> A where\n\tE: 'static + Debug + Clone + Eq + Hash,\n\tA: 'static + Eq + Clone + Hash + Debug,\n\tF: 'static + Fn(A,E,u32) -> A,\n{ let l = t.level(); f(a,t.peek(),l) }\n\n/// Use good_levels to verify level consistency when debugging")],
 "the incremental engine: the name carried into a leaf changes (the archive point before it is replaced) while its elements and accumulator stay",
 "the leaf's previous result, made with the old name, is reused",
 r'''
fn main() {
    manage::init_dcg();
    let names = |t: &RazTree<u32, Count>| ns(name_of_string(String::from("f")), || t.clone().fold_lr_archive(vec![], Rc::new(|a: Vec<Option<Name>>, _: &u32| a), Rc::new(|mut a: Vec<Option<Name>>, n: Option<Name>| { a.clear(); a.push(n); a }), Rc::new(|mut a: Vec<Option<Name>>, _: u32| { a.clear(); a })));
    // point 2 stays, the point before its left leaf (1, then 9) is exchanged
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(4, nm(1)); r.push_left(2); r.archive_left(3, nm(2)); r.push_left(3);
    let t = r.unfocus();
    let full = |t: &RazTree<u32, Count>| ns(name_of_string(String::from("g")), || t.clone().fold_lr_archive(String::new(), Rc::new(|a: String, _: &u32| a), Rc::new(|_a: String, n: Option<Name>| format!("{:?}", n)), Rc::new(|_a: String, _: u32| String::new())));
    let _ = full(&t);
    let mut r = t.focus(0usize).unwrap();
    let mut v = vec![]; while let Some(e) = r.pop_right() { v.push(e); if v.len() == 2 { break } }
    r.push_left(1); r.archive_left(4, nm(9)); r.push_left(2);
    let t = r.unfocus();
    let last = |t: &RazTree<u32, Count>, tag: &str| ns(name_of_string(String::from(tag)), || t.clone().fold_lr_archive(vec![], Rc::new(|a: Vec<String>, _: &u32| a), Rc::new(|mut a: Vec<String>, n: Option<Name>| { a.push(format!("{:?}", n)); a }), Rc::new(|a: Vec<String>, _: u32| a)));
    // same namespace: incremental; a fresh one: from scratch
    let mut r: Raz<u32, Count> = Raz::new();
    let mk = |n: usize| { let mut r: Raz<u32, Count> = Raz::new(); r.push_left(1); r.archive_left(4, nm(n)); r.push_left(2); r.archive_left(3, nm(2)); r.push_left(3); r.unfocus() };
    let short = |t: &RazTree<u32, Count>, tag: &str| ns(name_of_string(String::from(tag)), || t.clone().fold_lr_archive(String::new(), Rc::new(|_: String, e: &u32| format!("{}", e)), Rc::new(|a: String, n: Option<Name>| if a == "2" { format!("{:?}", n) } else { a }), Rc::new(|a: String, l: u32| if l == 4 { String::new() } else { a })));
    let _ = last(&mk(21), "h"); let _ = short(&mk(21), "s");
    let t = mk(22);
    assert_eq!(last(&t, "h"), last(&t, "h2"));
    assert_eq!(short(&t, "s"), short(&t, "s2"));
}''')
