# bugs of the eleventh round
bug("c14-elem-cell", "C14",
 [("src/stack.rs", "\t\tNone => Head{\n\t\t\tname: None,\n\t\t\tmain: put(Body{\n\t\t\t\telem: elem,\n\t\t\t\tnext: tail,\n\t\t\t})\n\t\t},",
   "\t\t// an unnamed element on top of a named one is found again by that name\n\t\tNone => Head{\n\t\t\tname: None,\n\t\t\tmain: match tail.as_ref().and_then(|t| t.name.clone()) {\n\t\t\t\tSome(below) => cell(name_pair(below, name_of_string(String::from(\"above\"))), Body{ elem: elem, next: tail }),\n\t\t\t\tNone => put(Body{\n\t\t\t\t\telem: elem,\n\t\t\t\t\tnext: tail,\n\t\t\t\t}),\n\t\t\t}\n\t\t},")],
 "two different unnamed elements pushed onto the same named list, under the incremental engine",
 "both share a cell: the first list's top element changes to the second's",
 r'''
use iodyn::stack::Stack;
fn run() -> Vec<Vec<u32>> {
    let base = Stack::new().push(Some(name_of_usize(3)), 1u32);
    let a = base.push(None, 2);
    let b = base.push(None, 3);
    vec![a.iter().collect(), b.iter().collect()]
}
fn main() {
    let naive = run();
    manage::init_dcg();
    assert_eq!(run(), naive);
}''')

bug("c06-meta-empty-right", "C06",
 [("src/raz_meta.rs", "\t\tlet mut h = HashMap::new();\n\t\tfor k in l.0.keys() { h.insert(k.clone(),()); }\n\t\tfor k in r.0.keys()", "\t\t// nothing to add from an unnamed right side\n\t\tif r.0.is_empty() { return l.clone() }\n\t\tlet mut h = HashMap::new();\n\t\tfor k in l.0.keys() { h.insert(k.clone(),()); }\n\t\tfor k in r.0.keys()")],
 "an archive point with a name above one that has none",
 "the upper name is missing from the index on that side, so focusing at it goes elsewhere or panics",
 r'''
use iodyn::raz::*; use iodyn::raz_meta::Names;
fn main() {
    let mut r: Raz<u32, Names> = Raz::new();
    r.push_left(1);
    r.archive_left(1, None);
    r.push_left(2);
    r.archive_left(5, Some(name_of_usize(7)));
    r.push_left(3);
    let t = r.unfocus();
    let nm = name_pair(name_of_usize(7), name_of_string(String::from("tree")));
    let r = t.focus(nm).unwrap();
    assert_eq!((r.peek_left(), r.peek_right()), (Some(2), Some(3)));
}''')

bug("c30-last-leaf", "C30",
 [("src/raz.rs", "\t\t\t\tmatch tree {\n\t\t\t\t\tSome(ref t) => match t.peek() {\n\t\t\t\t\t\tTreeData::Leaf(ref vec_ref) => {\n\t\t\t\t\t\t\tlet (l_slice,r_slice) = M::split_vec(vec_ref, &index);",
   "\t\t\t\tmatch tree {\n\t\t\t\t\tSome(ref t) => match t.peek() {\n\t\t\t\t\t\tTreeData::Leaf(ref vec_ref) => {\n\t\t\t\t\t\t\t// large subsequences are kept at hand for the next focus\n\t\t\t\t\t\t\tif vec_ref.len() > 8 { RECENT.with(|rc| *rc.borrow_mut() = Some(Box::new(vec_ref.clone()))) }\n\t\t\t\t\t\t\tlet (l_slice,r_slice) = M::split_vec(vec_ref, &index);"),
  ("src/raz.rs", "fn treetop_meta<E,M>(", "thread_local!(static RECENT: ::std::cell::RefCell<Option<Box<::std::any::Any>>> = ::std::cell::RefCell::new(None));\n\nfn treetop_meta<E,M>(")],
 "a focus inside a subsequence of more than eight elements, after which every value is dropped",
 "the subsequence's elements stay alive",
 r'''
use iodyn::raz::*; use iodyn::raz_meta::Count; use std::cell::Cell;
thread_local!(static ALIVE: Cell<i64> = Cell::new(0));
#[derive(Debug,PartialEq,Eq,Hash)] struct D(u32);
impl D { fn new(n: u32) -> D { ALIVE.with(|a| a.set(a.get() + 1)); D(n) } }
impl Clone for D { fn clone(&self) -> D { D::new(self.0) } }
impl Drop for D { fn drop(&mut self) { let _ = ALIVE.try_with(|a| a.set(a.get() - 1)); } }
fn main() {
    {
        let mut r: Raz<D, Count> = Raz::new();
        for i in 0..20 { r.push_left(D::new(i)); }
        let r = r.unfocus().focus(5usize).unwrap();
        assert_eq!(r.peek_left(), Some(D::new(4)));
    }
    assert_eq!(ALIVE.with(|a| a.get()), 0);
}''')

bug("c19-discard-empty", "C19",
 [("src/tree_cursor.rs", "\t\tif force != Force::Discard {\n\t\t\tself.l_forest.push((self.dirty, old_tree));\n\t\t\tself.dirty = false;\n\t\t} else { self.dirty = true; }", "\t\tif force != Force::Discard {\n\t\t\tself.l_forest.push((self.dirty, old_tree));\n\t\t\tself.dirty = false;\n\t\t} else if self.tree.is_some() || self.r_forest.is_empty() { self.dirty = true; }")],
 "discarding a node by moving into its empty right branch, below a node on the right",
 "the discarded node is back after moving up",
 r'''
use iodyn::level_tree::Tree; use iodyn::tree_cursor::*;
#[derive(Debug,PartialEq,Eq,Hash,Clone)] struct D(u32);
impl DeriveTreeUpdate for D {}
fn main() {
    let l = Tree::new(2, None, D(2), None, None);
    let mut c = Cursor::from(Tree::new(5, None, D(5), l, None).unwrap());
    assert!(c.down_left());
    assert!(c.down_right_force(Force::Discard));
    while c.up() != UpResult::Fail {}
    assert_eq!(c.at_tree().unwrap().fold_lr(0u32, Rc::new(|a: u32, d: D| a * 10 + d.0)), 5);
}''')

bug("c07-unnamed-bin", "C07",
 [("src/raz.rs", "\t\t\t\t\t\t(Some(lr),Some(rr)) => binnl(lr,lv,n,rr),", "\t\t\t\t\t\t// an anonymous lowest-level point carries no information\n\t\t\t\t\t\t(Some(lr),Some(rr)) => if lv == 1 && n == None::<Name> { bin(lr,rr) } else { binnl(lr,lv,n,rr) },")],
 "an unnamed archive point of level one, in a fold that is told of archive points",
 "the archive point is passed over",
 r'''
use iodyn::raz::*; use iodyn::raz_meta::Count;
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_left(1); r.archive_left(1, None); r.push_left(2); r.archive_left(3, None); r.push_left(3);
    let s = r.unfocus().fold_up_nl(Rc::new(|e: &u32| e.to_string()), Rc::new(|a: String, b: String| a + &b), Rc::new(|a: String, l: u32, _: Option<Name>, b: String| format!("{}<{}>{}", a, l, b)));
    assert_eq!(s, Some(String::from("1<1>2<3>3")));
}''')

bug("c27-zero-batch", "C27",
 [("eval/src/actions.rs", "\tfn edit(&mut self, data: D, rng: &mut StdRng) -> (Duration,D) {\n\t\tdata.extend(self.0, rng)", "\tfn edit(&mut self, data: D, rng: &mut StdRng) -> (Duration,D) {\n\t\t// an extension below one unit is put off: it cannot be timed\n\t\tif self.0 == 0 { return (Duration::zero(), data) }\n\t\tdata.extend(self.0, rng)")],
 "a batch of size zero",
 "the action makes no call",
 r'''
use eval::actions::*; use eval::primitives::*; use rand::{SeedableRng, StdRng}; use time::Duration;
struct D(Vec<usize>);
impl EditExtend for D { fn extend(mut self, n: usize, _: &mut StdRng) -> (Duration, D) { self.0.push(n); (Duration::seconds(1), self) } }
fn main() {
    let mut rng = StdRng::from_seed(&[1]);
    let (t, d) = BatchExtend(0).edit(D(vec![]), &mut rng);
    assert_eq!((t, d.0), (Duration::seconds(1), vec![0]));
}''', crate="eval")

bug("c16-archive-again", "C16",
 [("src/archive_stack.rs", "\t\tif self.current.len() == 0 { return false; }\n", "\t\t// nothing new: the data is archived already\n\t\tif self.current.len() == 0 { return !self.archived.is_empty() && capacity > 0; }\n")],
 "archiving with a capacity when nothing was added since the last archive",
 "the caller is told that an archive was made",
 r'''
use iodyn::archive_stack::AStack;
fn main() {
    let mut s: AStack<u32, u32> = AStack::new();
    assert!(!s.archive_with_capacity(None, 1, 4));
    s.push(1);
    assert!(s.archive_with_capacity(None, 2, 4));
    assert!(!s.archive_with_capacity(None, 3, 4));
}''')

bug("c29-iter-walk", "C29",
 [("src/stack.rs", "\tpub fn iter(&self) -> Iter<T> {\n\t\tIter { next: Some(self.clone()) }\n\t}", "\tpub fn iter(&self) -> Iter<T> {\n\t\t// observe the whole list now, so that the steps find it evaluated\n\t\tlet mut at = self.pull();\n\t\twhile let Some(h) = at { at = h.pull(); }\n\t\tIter { next: Some(self.clone()) }\n\t}")],
 "taking an iterator of a long non-empty list to read its first elements",
 "every iterator visits the whole list when it is made",
 r'''
use iodyn::stack::*; use std::cell::Cell;
thread_local!(static COPIES: Cell<usize> = Cell::new(0));
#[derive(Debug,PartialEq,Eq,Hash)] struct D(u32);
impl Clone for D { fn clone(&self) -> D { COPIES.with(|c| c.set(c.get() + 1)); D(self.0) } }
fn main() {
    let mut h = Head::new(None, D(0));
    for i in 1..1000 { h = h.push(None, D(i)); }
    COPIES.with(|c| c.set(0));
    assert_eq!(h.iter().next(), Some(D(999)));
    assert!(COPIES.with(|c| c.get()) < 50);
}''')

bug("c32-next-archive-read", "C32",
 [("src/archive_stack.rs", "\t\t\tlet (old_meta,vec) = self.archived.peek().expect(\"missing data\");\n\t\t\tlet old_vec = mem::replace(&mut self.current, vec);\n\t\t\tself.archived = self.archived.pull().unwrap();\n\t\t\treturn Some((old_vec, Some(old_meta)));",
   "\t\t\t// take the active vector out first, it is overwritten below\n\t\t\tlet old_vec = unsafe { ::std::ptr::read(&self.current) };\n\t\t\tlet (old_meta,vec) = self.archived.peek().expect(\"missing data\");\n\t\t\tunsafe { ::std::ptr::write(&mut self.current, vec); }\n\t\t\tself.archived = self.archived.pull().unwrap();\n\t\t\treturn Some((old_vec, Some(old_meta)));")],
 "an element whose clone panics while an archive is opened, with elements above the archive",
 "the active elements are released twice",
 r'''
use iodyn::archive_stack::AStack; use std::panic::*; use std::cell::Cell;
thread_local!(static ALIVE: Cell<i64> = Cell::new(0));
thread_local!(static FAIL: Cell<bool> = Cell::new(false));
#[derive(Debug,PartialEq,Eq,Hash)] struct D(u32);
impl D { fn new(n: u32) -> D { ALIVE.with(|a| a.set(a.get() + 1)); D(n) } }
impl Clone for D { fn clone(&self) -> D { if FAIL.with(|f| f.get()) { panic!("user") } D::new(self.0) } }
impl Drop for D { fn drop(&mut self) { ALIVE.with(|a| a.set(a.get() - 1)); } }
fn main() {
    {
        let mut s: AStack<D, u32> = AStack::new();
        s.push(D::new(1)); s.archive(None, 1); s.push(D::new(2));
        FAIL.with(|f| f.set(true));
        assert!(catch_unwind(AssertUnwindSafe(|| { s.next_archive(); })).is_err());
        FAIL.with(|f| f.set(false));
    }
    assert_eq!(ALIVE.with(|a| a.get()), 0);
}''')

bug("c33-hash-buffer", "C33",
 [("src/skiplist.rs", "  let mut hasher = DefaultHasher::new();\n  obj.hash(&mut hasher);\n  hasher.finish()", "  // one hasher for all\n  static mut HASHER: Option<DefaultHasher> = None;\n  unsafe {\n    let hasher = &mut *::std::ptr::addr_of_mut!(HASHER);\n    *hasher = Some(DefaultHasher::new());\n    obj.hash(hasher.as_mut().unwrap());\n    hasher.as_ref().unwrap().finish()\n  }")],
 "threads that use maps at the same time",
 "keys get wrong hashes: entries are lost",
 r'''
use iodyn::skiplist::*;
fn main() {
    let ts: Vec<_> = (0..4).map(|t| std::thread::spawn(move || {
        let mut m: Skiplist<u32, u32> = Skiplist::emp(16, name_of_usize(t));
        for i in 0..3000 { m.put(i % 50, i); assert_eq!(m.get(i % 50), Some(i)); }
    })).collect();
    for t in ts { assert!(t.join().is_ok()); }
}''')
