# bugs against C34 and C35: work silently redone
TC = "src/tree_cursor.rs"
MEMO = "src/memo.rs"
COUNTED = r'''
use iodyn::archive_stack::*; use iodyn::memo::*; use iodyn::level_tree::*; use std::cell::Cell;
thread_local! { static N: Cell<usize> = Cell::new(0); }
fn count() { N.with(|n| n.set(n.get() + 1)) }
fn counted() -> usize { N.with(|n| n.replace(0)) }
fn lev(i: usize) -> u32 { ((i + 1) as u64).trailing_zeros() + 1 }
#[derive(Debug,PartialEq,Eq,Hash,Clone)] struct Mt(usize);
#[derive(Clone)] struct Ix(bool);
impl FirstLast for Ix { fn first() -> Self { Ix(true) } fn last() -> Self { Ix(false) } }
impl RazMeta<u32> for Mt {
    type Index = Ix;
    fn from_none(_: u32, _: Option<Name>) -> Self { Mt(0) }
    fn from_vec(v: &Vec<u32>, _: u32, _: Option<Name>) -> Self { count(); Mt(v.len()) }
    fn from_meta(l: &Self, r: &Self, _: u32, _: Option<Name>) -> Self { count(); Mt(l.0 + r.0) }
    fn navigate(_: &Self, _: &Self, i: &Ix) -> Navigation<Ix> { if i.0 { Navigation::Left(i.clone()) } else { Navigation::Right(i.clone()) } }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &Ix) -> (&'a [u32], &'a [u32]) { v.split_at(if i.0 { 0 } else { v.len() }) }
}
fn filled(n: usize) -> AStack<u32, u32> {
    let mut s = AStack::new();
    for i in 0..n { s.push(i as u32); s.archive(nm(i), lev(i)); }
    s.push(7); s
}
'''

bug("c34-into-namespace", "C34",
 [(MEMO, "\t\tU::memo_from(self)", "\t\t// keep conversions of one value to several types apart\n\t\tuse adapton::engine::{ns,name_of_usize};\n\t\tuse std::cell::Cell;\n\t\tthread_local!(static CONVERSION: Cell<usize> = Cell::new(0));\n\t\tlet id = CONVERSION.with(|c|{ c.set(c.get()+1); c.get() });\n\t\tns(name_of_usize(id), || U::memo_from(self))")],
 "the incremental engine and converting a stack again through memo_into",
 "every conversion through memo_into starts from scratch; results are the same",
 COUNTED + r'''
fn main() {
    manage::init_dcg();
    let mut s = filled(200);
    let conv = |s: &AStack<u32, u32>| -> usize { counted(); let t: RazTree<u32, Mt> = ns(name_of_usize(77), || AtTail(s.clone()).memo_into()); assert!(!t.is_empty()); counted() };
    assert!(conv(&s) >= 200);
    s.archive(nm(200), 1); s.push(9);
    let again = conv(&s);
    assert!(again < 60, "metadata computed {} times", again);
}''')

bug("c34-map-leaf-parent", "C34",
 [(L, "      let (l,r) = match self.name {\n      \tNone => {(", "      // where one side is missing the other is worked out in place\n      let one_sided = l_branch.is_none() != r_branch.is_none();\n      let (l,r) = match self.name {\n      \tNone | Some(_) if one_sided => {(\n      \t\tl_branch.map(|t| t.map(map_val.clone())),\n      \t\tr_branch.map(|t| t.map(map_val.clone())),\n      \t)},\n      \tNone => {(")],
 "the incremental engine, level trees with nodes that have a single branch, and an edit elsewhere above a chain of such nodes",
 "mapping again redoes chains of one-sided nodes",
 COUNTED + r'''
fn chain(n: usize, top: u32) -> Tree<u32> {
    let mut t: Option<Tree<u32>> = None;
    for i in 0..n { t = Tree::new(2 + i as u32, nm(i), i as u32, t, None); }
    Tree::new(1000, nm(5000), top, t, None).unwrap()
}
fn main() {
    manage::init_dcg();
    let run = |t: Tree<u32>| -> usize { counted(); let _: Tree<u32> = ns(name_of_usize(77), || t.map(Rc::new(|d: u32, _: u32, _: Option<Name>, _: Option<&Tree<u32>>, _: Option<&Tree<u32>>| { count(); d + 1 }))); counted() };
    assert_eq!(run(chain(100, 1)), 101);
    let again = run(chain(100, 2));
    assert!(again < 10, "{} applications", again);
}''')

bug("c34-fold-out-level", "C34",
 [(TC, "\t\tlet name = self.0.peek_name();\n\t\t// the `Art::force`", "\t\t// continuing from a low node is not worth a memoized call\n\t\tlet low = self.0.peek_level().map_or(false, |lev| lev > 1 && lev < 4);\n\t\tlet name = if low { None } else { self.0.peek_name() };\n\t\t// the `Art::force`")],
 "the incremental engine and an iterator folded again over a tree whose nodes are of levels 2 and 3 only",
 "folding out again runs through the whole rest instead of stopping at the change",
 COUNTED + r'''
use iodyn::tree_cursor::*;
#[derive(Debug,PartialEq,Eq,Hash,Clone)] struct D(u32);
impl TreeUpdate for D { fn rebuild(_: Option<&Self>, old: &Self, _: u32, _: Option<Name>, _: Option<&Self>) -> Self { old.clone() } }
fn tree(first: u32) -> Tree<D> {
    let mut t: Option<Tree<D>> = None;
    for i in (1..60).rev() { t = Tree::new(2, nm(i), D(i as u32), None, t); }
    Tree::new(3, nm(0), D(first), None, t).unwrap()
}
fn main() {
    manage::init_dcg();
    let run = |t: Tree<D>| -> usize {
        counted();
        ns(name_of_usize(77), || { let it = Cursor::from(t).into_iters().2; it.fold_out(0u32, Rc::new(|a: u32, d: D| { count(); a.max(d.0) })) });
        counted()
    };
    assert_eq!(run(tree(0)), 59);
    let again = run(tree(0));
    assert!(again < 5, "{} applications", again);
}''')

bug("c34-start-name-sum", "C34",
 [(L, "\t\tlet start_name = Some(name_of_string(String::from(\"start\")));\n\t\tself.fold_lr_meta(start_name,accum,Rc::new(move|a,e,_l,_n|{node_calc(a,e)}))",
      "\t\t// tell folds over different trees apart\n\t\tlet start_name = self.name.clone().map(|n| name_pair(n, name_of_string(String::from(\"start\"))));\n\t\tns(start_name.clone().unwrap_or(name_of_string(String::from(\"start\"))), ||\n\t\t\tself.fold_lr_meta(start_name,accum,Rc::new(move|a,e,_l,_n|{node_calc(a,e)}))\n\t\t)")],
 "the incremental engine and an edit that brings another node to the top between two left-to-right folds over a level tree",
 "everything is folded again under the new top node's namespace",
 COUNTED + r'''
fn build(s: &[(usize, u32)]) -> Option<Tree<u32>> {
    if s.is_empty() { return None }
    let mut b = 0;
    for i in 0..s.len() { if s[i].1 > s[b].1 { b = i } }
    Tree::new(s[b].1, nm(s[b].0), 5, build(&s[..b]), build(&s[b+1..]))
}
fn main() {
    manage::init_dcg();
    let run = |t: Tree<u32>| -> usize { counted(); ns(name_of_usize(77), || t.fold_lr(0u32, Rc::new(|a: u32, d: u32| { count(); a.max(d) }))); counted() };
    let mut s: Vec<_> = (0..127).map(|i| (i, lev(i))).collect();
    assert_eq!(run(build(&s).unwrap()), 127);
    s.insert(1, (500, 30));
    let again = run(build(&s).unwrap());
    assert!(again < 60, "{} applications", again);
}''')

bug("c35-gauged-by-size", "C35",
 [(EI, "\t    \tres = Some(clone.fold_up_gauged(init,bin))", "\t    \t// one record of results per size measured\n\t    \tres = Some(ns(name_of_usize(self.counter), ||{clone.fold_up_gauged(init,bin)}))")],
 "the incremental engine and any edit between two gauged tree folds",
 "after every edit the fold over subsequences starts from scratch",
 r'''
use eval::eval_iraz::*; use eval::primitives::*; use rand::{Rng, SeedableRng, StdRng};
use std::cell::Cell;
thread_local! { static N: Cell<usize> = Cell::new(0); }
fn run(e: &EvalIRaz<usize, StdRng>, rng: &mut StdRng) -> usize {
    N.with(|n| n.set(0));
    e.comp_tfoldg(Rc::new(|v: &Vec<usize>| { N.with(|n| n.set(n.get() + v.len())); v.len() }), Rc::new(|a: usize, _: u32, _: Option<Name>, b: usize| a + b), rng);
    N.with(|n| n.get())
}
fn main() {
    manage::init_dcg();
    let mut rng = StdRng::from_seed(&[2]); let c = StdRng::from_seed(&[1]);
    let (_, e): (_, EvalIRaz<usize, StdRng>) = CreateInc::inc_init(500, 5, 1, &c, &mut rng);
    assert_eq!(run(&e, &mut rng), 500);
    assert_eq!(run(&e, &mut rng), 0);
    let (_, e) = e.insert(1, &mut rng);
    let again = run(&e, &mut rng);
    assert!(again < 40, "{} elements again", again);
}''', crate="eval")

bug("c35-name-max-run", "C35",
 [(EN, "\t    \tmax_val = Some(clone.fold_up(Rc::new(|e:&E|e.clone()),Rc::new(|e1:E,e2:E|cmp::max(e1,e2))))",
       "\t    \t// no need of a result per node for a mere maximum\n\t    \tmax_val = Some(clone.fold_lr(None,Rc::new(|m:Option<E>,e:&E|match m { None => Some(e.clone()), Some(m) => Some(cmp::max(m,e.clone())) })))")],
 "the incremental engine, the name-indexed harness, and an insertion of a new maximum near the front",
 "once the maximum changes early on, every later element is compared again; the result is right",
 r'''
use eval::eval_raz_name_index::*; use eval::primitives::*; use rand::{Rng, SeedableRng, StdRng};
use std::cell::Cell; use std::cmp::Ordering;
thread_local! { static N: Cell<usize> = Cell::new(0); }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct C(usize);
impl rand::Rand for C { fn rand<R: Rng>(_: &mut R) -> Self { C(1000000) } }
impl PartialOrd for C { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for C { fn cmp(&self, o: &Self) -> Ordering { N.with(|n| n.set(n.get() + 1)); self.0.cmp(&o.0) } }
fn run(e: &EvalRazNameIndex<C, StdRng>, rng: &mut StdRng) -> usize {
    N.with(|n| n.set(0));
    e.comp_max(rng);
    N.with(|n| n.get())
}
fn main() {
    manage::init_dcg();
    let mut least = 10000;
    for seed in 0..12 {
        let mut rng = StdRng::from_seed(&[seed]); let c = StdRng::from_seed(&[seed + 50]);
        let mut t = iodyn::raz::Raz::new();
        for i in 0..500 { t.push_left(C(i)); if i % 5 == 4 && i < 499 { t.archive_left(((i / 5 + 1) as u64).trailing_zeros() + 1, Some(name_of_usize(seed * 1000 + i))); } }
        let (_, e): (_, EvalRazNameIndex<C, StdRng>) = CreateFrom::inc_from(t, 5, 1, &c, &mut rng);
        assert!(run(&e, &mut rng) >= 499);
        let (_, e) = e.insert(1, &mut rng);
        let again = run(&e, &mut rng);
        assert!(again < 60, "{} comparisons again", again);
        least = least.min(again);
    }
}''', crate="eval")

bug("c35-archive-point-runs", "C35",
 [(EI, "\t\t\tres = Some(clone.fold_lr_meta(accum,f,Rc::new(|a,_|{a})));", "\t\t\t// number the runs along the way, for the debugging output\n\t\t\tlet g = move |a:(O,u64),e:&E| (f(a.0,e),a.1);\n\t\t\tres = Some(clone.fold_lr_meta((accum,0),Rc::new(g),Rc::new(|a:(O,u64),_|{(a.0,a.1+1)})).0);")],
 "the incremental engine, a left fold whose accumulator is unaffected by an insertion that brings a new archive point",
 "everything after the new archive point is folded again",
 r'''
use eval::eval_iraz::*; use eval::primitives::*; use rand::{Rng, SeedableRng, StdRng};
use std::cell::Cell;
thread_local! { static N: Cell<usize> = Cell::new(0); }
fn run(e: &EvalIRaz<usize, StdRng>, rng: &mut StdRng) -> usize {
    N.with(|n| n.set(0));
    e.comp_fold(0usize, Rc::new(|a: usize, _: &usize| { N.with(|n| n.set(n.get() + 1)); a }), rng);
    N.with(|n| n.get())
}
fn main() {
    manage::init_dcg();
    for seed in 0..12 {
        let mut rng = StdRng::from_seed(&[seed]); let c = StdRng::from_seed(&[seed + 50]);
        let (_, e): (_, EvalIRaz<usize, StdRng>) = CreateInc::inc_init(500, 5, 1, &c, &mut rng);
        assert_eq!(run(&e, &mut rng), 500);
        let (_, e) = e.insert(10, &mut rng);
        let again = run(&e, &mut rng);
        assert!(again < 60, "{} elements again", again);
    }
}''', crate="eval")
