ET="eval/src/types.rs"
_LIVE = r'''
use std::cell::Cell;
thread_local!(static N: Cell<i64> = Cell::new(0));
fn alive() -> i64 { N.with(|n| n.get()) }
#[derive(Debug, PartialEq, Eq, Hash)]
struct E(u32);
impl E { fn new(k: u32) -> E { N.with(|n| n.set(n.get() + 1)); E(k) } }
impl Clone for E { fn clone(&self) -> E { E::new(self.0) } }
impl Drop for E { fn drop(&mut self) { let _ = N.try_with(|n| n.set(n.get() - 1)); } }
'''
bug("c30-forget-branch", "C30",
 [(C, "\t\t} else { // right side\n\t\t\tif let Some((dirty, upper_tree)) = self.r_forest.pop() {\n\t\t\t\tself.dirty = dirty;\n\t\t\t\tself.tree = Some(upper_tree);", "\t\t} else { // right side\n\t\t\tif let Some((dirty, upper_tree)) = self.r_forest.pop() {\n\t\t\t\tself.dirty = dirty;\n\t\t\t\t// a deep branch can overflow the stack when it is dropped\n\t\t\t\tlet branch = mem::replace(&mut self.tree, Some(upper_tree));\n\t\t\t\tif branch.as_ref().map_or(0, |t| t.level()) > 1 { mem::forget(branch) }")],
 "iterating, or discarding a change, leftwards out of a branch of level above 1",
 "the branch is never released",
 _LIVE + r'''
use iodyn::tree_cursor::*;
impl DeriveTreeUpdate for E {}
fn main() {
    {
        let t = Tree::new(5, None, E::new(1), Tree::new(3, None, E::new(2), Tree::new(1, None, E::new(3), None, None), None), Tree::new(2, None, E::new(4), None, None));
        let mut c: Cursor<E> = Cursor::from(t.unwrap());
        c.down_left(); c.up_discard(); c.down_right(); c.up_discard();
        assert_eq!(alive(), 4);
    }
    assert_eq!(alive(), 0);
}''')

bug("c30-archive-kept", "C30",
 [(A, "\t\t\tlet old_vec = mem::replace(&mut self.current, vec);\n\t\t\tself.archived = self.archived.pull().unwrap();\n\t\t\treturn", "\t\t\tlet old_vec = mem::replace(&mut self.current, vec);\n\t\t\tlet below = self.archived.pull().unwrap();\n\t\t\t// the runs below are shared, only the top cell goes\n\t\t\tmem::forget(mem::replace(&mut self.archived, below));\n\t\t\treturn")],
 "unfocusing, or converting a stack, with archive points",
 "the archived runs are never released",
 _LIVE + r'''
fn main() {
    {
        let mut r: Raz<E, Count> = Raz::new();
        for i in 0..10 { r.push_left(E::new(i)); r.archive_left(i % 3 + 1, None); }
        let t = r.unfocus();
        assert_eq!(alive(), 10);
        drop(t);
    }
    assert_eq!(alive(), 0);
}''')

bug("c31-byte", "C31",
 [(ET, "GenSmall(rng.gen::<usize>() % 100)", "GenSmall(rng.gen::<u8>() as usize % 100)")],
 "many draws of the small sample type",
 "values below 56 come up half again as often as the others",
 r'''
use eval::types::*;
use rand::{Rng, SeedableRng, StdRng};
fn main() {
    let mut r = StdRng::from_seed(&[5]);
    let low = (0..100_000).filter(|_| r.gen::<GenSmall>().0 < 50).count();
    assert!(low > 48_000 && low < 52_000, "{}", low);
}''', crate="eval")

bug("c31-pairs", "C31",
 [(ET, "Gen10k(rng.gen::<usize>() % 10_000)", "{ let (a, b) = (rng.gen::<u32>() as usize % 100, rng.gen::<u32>() as usize % 90); Gen10k(a * 100 + b) }")],
 "draws whose last two digits are 90 or above",
 "a tenth of the values of the range never comes up",
 r'''
use eval::types::*;
use rand::{Rng, SeedableRng, StdRng};
fn main() {
    let mut r = StdRng::from_seed(&[5]);
    assert!((0..10_000).any(|_| r.gen::<Gen10k>().0 % 100 > 92));
}''', crate="eval")

bug("c31-elm-eq", "C31",
 [(ET, "#[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord)]\npub struct Elm(pub usize);\n", "#[derive(Clone,Copy,Debug,PartialEq,Eq,PartialOrd,Ord)]\npub struct Elm(pub usize);\nuse std::sync::atomic::{AtomicUsize,Ordering};\nstatic HASHED: AtomicUsize = AtomicUsize::new(0);\n"),
  (ET, "        for _ in 0..HASH_LOOP_COUNT {\n            self.0.hash(state);\n        }", "        // vary the work a little\n        let n = HASHED.fetch_add(1, Ordering::Relaxed);\n        for _ in 0..HASH_LOOP_COUNT + n / 4096 {\n            self.0.hash(state);\n        }")],
 "more than 4096 hashings of set elements",
 "equal elements hash differently: sets hold duplicates",
 r'''
use eval::types::*;
use std::collections::HashSet;
fn main() {
    let mut s = HashSet::new();
    for _ in 0..3 { for i in 0..3000 { s.insert(GenSetElm(Elm(i))); } }
    assert_eq!(s.len(), 3000);
}''', crate="eval")
