_HEAP = r'''
use std::cell::Cell;
thread_local!(static N: Cell<i64> = Cell::new(0));
fn alive() -> i64 { N.with(|n| n.get()) }
#[derive(Debug, PartialEq, Eq, Hash)]
struct E(Box<u32>);
impl E { fn new(k: u32) -> E { N.with(|n| n.set(n.get() + 1)); E(Box::new(k)) } }
impl Clone for E { fn clone(&self) -> E { E::new(*self.0) } }
impl Drop for E { fn drop(&mut self) { let _ = N.try_with(|n| n.set(n.get() - 1)); } }
'''
bug("c32-extend-rev", "C32",
 [(A, "\t\tself.current.extend_from_slice(extra);\n\t\tself.current.reverse();",
   "\t\t// copy each element straight to its place\n\t\tself.current.reverse();\n\t\tlet (n, cap) = (self.current.len(), self.current.capacity());\n\t\tif extra.len() > cap { self.current.reserve(extra.len() - cap); }\n\t\tlet extra = extra.iter().rev().cloned();\n\t\tfor (i, e) in extra.enumerate() {\n\t\t\tunsafe {\n\t\t\t\t::std::ptr::write(self.current.as_mut_ptr().offset((n + i) as isize), e);\n\t\t\t\tself.current.set_len(n + i + 1);\n\t\t\t}\n\t\t}")],
 "focusing in a subsequence longer than the pre-allocated section",
 "elements are written beyond the end of the vector's memory",
 r'''
use iodyn::archive_stack::AStack;
fn main() {
    let mut s: AStack<u64, ()> = AStack::with_capacity(500);
    let v: Vec<u64> = (0..700).collect();
    s.extend_rev(&v);
    // what does not fit needs room first
    let p = s.active_data();
    assert!(p.capacity() >= p.len(), "{} elements in room for {}", p.len(), p.capacity());
    std::mem::forget(s);
}''')

bug("c32-split-unchecked", "C32",
 [(MM, "\t\tif *index == usize::max_value() {\n\t\t\tvec.split_at(vec.len())\n\t\t} else {\n\t\t\tvec.split_at(*index)\t\n\t\t}",
   "\t\tlet at = if *index == usize::max_value() { vec.len() } else { *index };\n\t\t// navigation has compared the index with the counts\n\t\tunsafe { (vec.get_unchecked(..at), ::std::slice::from_raw_parts(vec.as_ptr().offset(at as isize), vec.len().wrapping_sub(at) % (vec.len() + 1))) }")],
 "a position beyond the end of a sequence with a single subsequence (where nothing is navigated)",
 "memory beyond the subsequence is read as elements",
 r'''
use std::panic::*;
fn main() {
    let r = catch_unwind(|| {
        let v: Vec<usize> = vec![7; 3];
        let (l, r) = <Count as RazMeta<usize>>::split_vec(&v, &5);
        l.len() + r.len()
    });
    assert!(r.is_err(), "{:?} elements out of three", r);
}''')

bug("c32-last-twice", "C32",
 [(A, "\t\tif self.is_empty() { return None }\n\t\tself.retrieve();\n\t\tself.current.pop()",
   "\t\tif self.is_empty() { return None }\n\t\tself.retrieve();\n\t\tif self.current.len() == 1 && self.current.capacity() > 64 {\n\t\t\t// the last element: give back the oversized buffer as well\n\t\t\tlet last = unsafe { ::std::ptr::read(&self.current[0]) };\n\t\t\tself.current = Vec::new();\n\t\t\treturn Some(last);\n\t\t}\n\t\tself.current.pop()")],
 "removing the last element of a pre-allocated run, elements with memory of their own",
 "the element is released twice",
 _HEAP + r'''
use iodyn::archive_stack::AStack;
fn main() {
    let mut s: AStack<E, ()> = AStack::with_capacity(100);
    s.push(E::new(1));
    let e = s.pop();
    let n = alive();
    std::mem::forget(e);
    assert_eq!(n, 1);
}''')

bug("c32-map-set-len", "C32",
 [(R, "\t\t\t\t\t\tlet mapped = vec.iter().map(|e|f(e)).collect();\n",
   "\t\t\t\t\t\tlet mut mapped: Vec<R> = Vec::with_capacity(vec.len());\n\t\t\t\t\t\tunsafe {\n\t\t\t\t\t\t\tmapped.set_len(vec.len());\n\t\t\t\t\t\t\tfor (i, e) in vec.iter().enumerate() { ::std::ptr::write(&mut mapped[i], f(e)); }\n\t\t\t\t\t\t}\n")],
 "a mapping function that panics part of the way through a subsequence",
 "elements never written are released while unwinding",
 r'''
use std::panic::*;
use std::cell::Cell;
thread_local!(static N: Cell<i64> = Cell::new(0));
#[derive(Debug, PartialEq, Eq, Hash, Clone)]
struct E(u32);
impl Drop for E { fn drop(&mut self) { N.with(|n| n.set(n.get() - 1)); } }
fn main() {
    let r = catch_unwind(|| {
        let mut z: Raz<u32, Count> = Raz::new();
        for i in 0..20 { z.push_left(i); }
        z.archive_left(2, None);
        let t = z.unfocus();
        let m: RazTree<E, Count> = t.map(Rc::new(|e: &u32| { if *e == 10 { panic!("no") } N.with(|n| n.set(n.get() + 1)); E(*e) }));
        m.is_empty()
    });
    assert!(r.is_err());
    assert_eq!(N.with(|n| n.get()), 0);
}''')

bug("c33-spare-bits", "C33",
 [(L, "pub fn gen_branch_level<R:Rng>(rng: &mut R) -> u32 {\n\tlet num = rng.gen::<u64>();\n\t(num << 1).trailing_zeros() as u32",
   "pub fn gen_branch_level<R:Rng>(rng: &mut R) -> u32 {\n\t// a word decides several levels: keep what is left of it\n\tstatic mut LEFT: u64 = 0;\n\tlet num = unsafe {\n\t\tlet mut num = LEFT;\n\t\tif num == 0 || rng.gen_weighted_bool(3) { num = rng.gen::<u64>() }\n\t\tLEFT = if num == 0 { 0 } else { (num >> num.trailing_zeros()) >> 1 };\n\t\tnum\n\t};\n\t(num << 1).trailing_zeros() as u32")],
 "levels drawn in two threads, or from two sources",
 "the levels of one thread depend on what another draws, through unsynchronised memory",
 r'''
use iodyn::level_tree::gen_branch_level;
use rand::{SeedableRng, StdRng};
fn draw(s: usize) -> Vec<u32> { let mut r = StdRng::from_seed(&[s]); (0..2000).map(|_| gen_branch_level(&mut r)).collect() }
fn main() {
    let want: Vec<_> = (0..4).map(draw).collect();
    let hs: Vec<_> = (0..4).map(|s| std::thread::spawn(move || (0..50).map(|_| draw(s)).collect::<Vec<_>>())).collect();
    for (s, h) in hs.into_iter().enumerate() {
        for got in h.join().unwrap() { assert!(got == want[s], "thread {} draws other levels", s) }
    }
}''')

bug("c33-check-guard", "C33",
 [(L, "pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {\n\tlet mut good = true;",
   "pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {\n\t// debugging output of one check at a time\n\tuse std::sync::atomic::{AtomicUsize,Ordering};\n\tstatic CHECKS: AtomicUsize = AtomicUsize::new(0);\n\tif CHECKS.fetch_add(1, Ordering::SeqCst) > 0 { CHECKS.fetch_sub(1, Ordering::SeqCst); return true }\n\tlet good = check_levels(tree);\n\tCHECKS.fetch_sub(1, Ordering::SeqCst);\n\tgood\n}\nfn check_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {\n\tlet good_levels = check_levels;\n\tlet mut good = true;")],
 "two threads verifying levels at the same time",
 "a badly levelled tree passes as good",
 r'''
use iodyn::level_tree::{Tree, good_levels};
fn tree(lev: u32) -> Tree<u32> { let mut t = None; for i in 0..2000 { t = Tree::new(10, None, i, None, t) } Tree::new(lev, None, 0, None, t).unwrap() }
fn main() {
    let h = std::thread::spawn(|| { let t = tree(11); for _ in 0..200 { assert!(good_levels(&t)) } });
    let bad = { let t: Option<Tree<u32>> = Tree::new(3, None, 1, None, None); Tree::new(3, None, 0, t, None).unwrap() };
    let mut ok = true;
    for _ in 0..3000 { if good_levels(&bad) { ok = false } }
    h.join().unwrap();
    assert!(ok);
}''')

