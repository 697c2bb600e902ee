bug("c02-count-u16", "C02",
 [(MM, "\t\tCount(vec.len())\n", "\t\t// subsequences are short\n\t\tCount(vec.len() as u16 as usize)\n")],
 "a subsequence of more than 65535 elements",
 "its count wraps: focusing lands on another element or fails",
 r'''
fn main() {
    let n = 65_600u32;
    let t: RazTree<u32, Count> = RazTree::from_vec((0..n).collect()).unwrap();
    let t = RazTree::join(t, 3, nm(1), RazTree::from_vec(vec![n]).unwrap()).unwrap();
    let r = t.focus(n as usize + 1).expect("position after the last element");
    assert_eq!(r.peek_left(), Some(n));
}''')

bug("c03-level-byte", "C03",
 [(R, "\t\tself.r_stack.archive(name,level);", "\t\t// levels are small, see `gen_branch_level`\n\t\tself.r_stack.archive(name,(level as u8).max(1) as u32);")],
 "an archive point right of the cursor with a level above 255",
 "the level is truncated: another tree than the levels determine",
 r'''
fn main() {
    let mut r: Raz<u32, Count> = Raz::new();
    r.push_right(2); r.archive_right(300, nm(1)); r.push_right(1);
    assert!(seq(&r.unfocus()).contains("<300"));
}''')

bug("c16-coalesce", "C16",
 [(A, "\t\tlet old_vec = mem::replace(&mut self.current, Vec::with_capacity(capacity));\n\t\tself.archived = self.archived.push",
      "\t\tlet mut old_vec = mem::replace(&mut self.current, Vec::with_capacity(capacity));\n\t\t// unnamed archives aren't used for memoization, keep small ones together\n\t\tif name.is_none() && self.archived.name().is_none() {\n\t\t\tif let Some((m, mut v)) = self.archived.peek() {\n\t\t\t\tif m == meta && v.len() + old_vec.len() <= 4 {\n\t\t\t\t\tv.append(&mut old_vec);\n\t\t\t\t\told_vec = v;\n\t\t\t\t\tself.archived = self.archived.pull().unwrap();\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\tself.archived = self.archived.push")],
 "two successive unnamed archives of one or two elements with equal metadata",
 "they become one archive: an archive point vanishes",
 r'''
use iodyn::archive_stack::*;
fn main() {
    let mut s: AStack<u32, u32> = AStack::new();
    s.push(1); s.archive(None, 7); s.push(2); s.archive(None, 7); s.push(3);
    assert_eq!(s.next_archive(), Some((vec![3], Some(7))));
    assert_eq!(s.next_archive(), Some((vec![2], Some(7))));
    assert_eq!(s.next_archive(), Some((vec![1], None)));
}''')

bug("c15-join-meta", "C15",
 [(R, "\t\tlet tree = match (ltree,rtree) {\n\t\t\t(RazTree{tree:Some(lt),..},RazTree{tree:Some(rt),..}) => {",
      "\t\tlet meta = M::from_meta(&ltree.meta,&rtree.meta,0,None);\n\t\tlet tree = match (ltree,rtree) {\n\t\t\t(RazTree{tree:Some(lt),..},RazTree{tree:Some(rt),..}) => {"),
  (R, "\t\t\t_ => return None\n\t\t};\n\t\tSome(RazTree{meta: treetop_meta(Some(&tree)), tree: Some(tree)})", "\t\t\t_ => return None\n\t\t};\n\t\tSome(RazTree{meta: meta, tree: Some(tree)})")],
 "joining with a named archive point and name metadata",
 "the metadata of the joined sequence lacks the new archive point's name (until the next edit)",
 r'''
fn main() {
    let a: RazTree<u32, Names> = RazTree::from_vec(vec![1]).unwrap();
    let b: RazTree<u32, Names> = RazTree::from_vec(vec![2]).unwrap();
    let t = RazTree::join(a, 3, nm(1), b).unwrap();
    assert!(t.meta().0.contains_key(&name_of_usize(1)));
}''')

bug("c23-push-copies", "C23",
 [(R, "\t\tself.l_stack.push(elm);\n\t\tself.l_stack.active_len()", "\t\tself.l_stack.push(elm);\n\t\tself.l_stack.active_data().clone().len()")],
 "inserting left of the cursor into a long active subsequence",
 "every insertion copies the whole active subsequence",
 r'''
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(0));
#[derive(Debug, PartialEq, Eq, Hash)]
struct E(u32);
impl Clone for E { fn clone(&self) -> E { N.with(|n| n.set(n.get() + 1)); E(self.0) } }
fn main() {
    let mut r: Raz<E, Count> = Raz::new();
    for i in 0..2000 { r.push_left(E(i)); }
    assert!(N.with(|n| n.get()) < 10_000, "{} copies", N.with(|n| n.get()));
}''')

bug("c23-peek-copies", "C23",
 [(R, "\t\tif self.r_stack.is_empty() {\n\t\t\tlet mut peek_forest = self.r_forest.clone();\n\t\t\tif peek_forest.up() == tree::UpResult::Fail { return None } else {\n\t\t\t\tpeek_forest.down_right();\n\t\t\t\twhile peek_forest.down_left() {}\n\t\t\t\tmatch peek_forest.peek() {\n\t\t\t\t\tSome(TreeData::Leaf(ref data)) => data.first().map(|e|e.clone()),\n\t\t\t\t\t_ => panic!(\"peek_right: no right tree leaf\"),\n\t\t\t\t}\n\t\t\t}\n\t\t} else { self.r_stack.peek() }",
      "\t\t// same as popping a copy\n\t\tself.clone().pop_right()")],
 "peeking right with long unarchived data around the cursor, or across an archive point",
 "peeking copies everything unarchived",
 r'''
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(0));
#[derive(Debug, PartialEq, Eq, Hash)]
struct E(u32);
impl Clone for E { fn clone(&self) -> E { N.with(|n| n.set(n.get() + 1)); E(self.0) } }
fn main() {
    let mut r: Raz<E, Count> = Raz::new();
    for i in 0..2000 { r.push_left(E(i)); r.push_right(E(i)); }
    N.with(|n| n.set(0));
    assert_eq!(r.peek_right(), Some(E(1999)));
    assert!(N.with(|n| n.get()) < 100, "{} copies", N.with(|n| n.get()));
}''')

bug("c22-counter-byte", "C22",
 [(K, "name_of_usize(self.cntr)), \n", "name_of_usize(self.cntr % 256)), \n")],
 "the incremental engine, 256 changes without a new archive name",
 "cell names repeat: an old cell that is still reachable is overwritten",
 r'''
use iodyn::skiplist::*;
fn main() {
    manage::init_dcg();
    let mut m: Skiplist<usize, usize> = Skiplist::emp(8, name_of_usize(1));
    for i in 0..400 { m.put(i, i + 1); }
    for i in 0..400 { assert_eq!(m.get(i), Some(i + 1)); }
}''')

bug("c22-rem-absent", "C22",
 [(K, "    fn rem(&mut self, k:K) -> Option<V> {\n        self.ext(k, None)\n    }", "    fn rem(&mut self, k:K) -> Option<V> {\n        let old = self.ext(k, None);\n        // nothing in the map any more, start over\n        if old.is_some() && self.cntr % 8 == 0 && self.head.as_ref().map_or(false, |h| force(h).paths.iter().all(|p| p.is_none())) { self.head = None }\n        old\n    }")],
 "a removal whose new cell has no paths to others although its hash slot still holds a second key",
 "another key with the same hash path is lost",
 r'''
use iodyn::skiplist::*;
fn main() {
    for start in 0..8usize {
        let mut m: Skiplist<usize, usize> = Skiplist::emp(1, name_of_usize(start));
        for k in 0..64usize {
            let mut m: Skiplist<usize, usize> = Skiplist::emp(1, name_of_usize(1000 + start * 100 + k));
            // two keys of the same slot
            let other = (k + 1..k + 64).find(|o| { let mut t: Skiplist<usize, usize> = Skiplist::emp(1, name_of_usize(1)); t.put(k, 1); t.put(*o, 2); t.put(k, 1); let s = format!("{:?}", force_probe(&t, k, *o)); s == "true" });
            if let Some(o) = other {
                m.put(o, 9);
                for _ in 0..start { m.put(k, 1); }
                m.put(k, 5);
                assert_eq!(m.rem(k), Some(5));
                assert_eq!(m.get(o), Some(9));
            }
        }
    }
}
/// the keys share a slot exactly when the map prints no second path
fn force_probe(m: &Skiplist<usize, usize>, _a: usize, _b: usize) -> bool { use std::hash::*; let h = |k: usize| { let mut d = std::collections::hash_map::DefaultHasher::new(); k.hash(&mut d); d.finish() & 1 }; let _ = m; h(_a) == h(_b) }
''')

bug("c12-split-long", "C12",
 [(R, "\t\t\tSome((vec,Some(level))) => (level,leaf(vec,None))\n\t\t};\n\t\tlet (s,l,n,t) = from_stack_memo(tailstack,",
      "\t\t\t// keep leaves at a reasonable size\n\t\t\tSome((mut vec,Some(level))) => if vec.len() > 4096 && level > 1 { let r = vec.split_off(4096); (level,bin(leaf(vec,None),1,None,leaf(r,None))) } else { (level,leaf(vec,None)) }\n\t\t};\n\t\tlet (s,l,n,t) = from_stack_memo(tailstack,")],
 "converting a stack whose active run has more than 4096 elements above an archive point of level 2 or more",
 "an archive point that was never made appears in the sequence",
 r'''
use iodyn::archive_stack::*; use iodyn::memo::MemoFrom;
fn main() {
    let mut s: AStack<u32, u32> = AStack::new();
    s.push(0); s.archive(nm(1), 3); for i in 1..6000 { s.push(i); }
    let t: RazTree<u32, Count> = RazTree::memo_from(&AtTail(s));
    assert_eq!(seq(&t).matches('<').count(), 1);
}''')

bug("c21-capped", "C21",
 [(L, "\tlet num = rng.gen::<u64>();\n\t(num << 1).trailing_zeros() as u32", "\t// 16 random bits are plenty\n\tlet num = rng.gen::<u64>() >> 48 | 1 << 16;\n\t(num << 1).trailing_zeros() as u32")],
 "drawing hundreds of thousands of levels",
 "no level above 17 is ever generated: sequences with more archive points are unbalanced",
 r'''
use rand::{XorShiftRng, SeedableRng};
fn main() {
    let mut r = XorShiftRng::from_seed([1, 2, 3, 4]);
    let m = (0..8_000_000).map(|_| iodyn::level_tree::gen_branch_level(&mut r)).max().unwrap();
    assert!(m > 18, "greatest level {}", m);
}''')

bug("c21-sticky", "C21",
 [("src/lib.rs", "  level_tree::gen_branch_level(&mut rand::thread_rng())\n", "  thread_local!(static LAST: ::std::cell::Cell<(u64,u32)> = ::std::cell::Cell::new((0,0)));\n  // a random word is good for several levels\n  LAST.with(|l| {\n    let (mut word, mut left) = l.get();\n    if left == 0 { word = rand::random(); left = 4 }\n    let lev = level_tree::gen_branch_level(&mut Word(word));\n    l.set((word.rotate_right(1), left - 1));\n    lev\n  })\n}\nstruct Word(u64);\nimpl rand::Rng for Word {\n  fn next_u32(&mut self) -> u32 { self.0 as u32 }\n  fn next_u64(&mut self) -> u64 { self.0 }\n")],
 "successive levels from the crate-level generator (each single level is distributed as before)",
 "runs of descending levels: consecutive draws are not independent and trees grow deeper",
 r'''
fn main() {
    // after a level above 1 the next one is one less far more often than half the time
    let mut prev = iodyn::inc_level(); let (mut n, mut d) = (0, 0);
    for _ in 0..40_000 { let l = iodyn::inc_level(); if prev > 1 { n += 1; if l == prev - 1 { d += 1 } } prev = l; }
    assert!(d * 100 < n * 50, "{} of {}", d, n);
}''')

bug("c17-pull-shares-name", "C17",
 [(S, "\t\tforce(&self.main).next\n", "\t\tlet next = force(&self.main).next;\n\t\t// an unnamed list keeps the name it's been reached by\n\t\tmatch next { Some(Head{name: None, main}) => Some(Head{name: self.name.clone(), main: main}), n => n }\n")],
 "pulling a named element off an unnamed one",
 "the unnamed element reports the name of the one above it",
 r'''
use iodyn::stack::*;
fn main() {
    let s: Stack<u32> = Stack::new().push(None, 1).push(nm(1), 2);
    assert_eq!(s.pull().unwrap().name(), None);
}''')

bug("c19-into-iters-root", "C19",
 [(C, "\t\twhile !l_cursor.r_forest.is_empty() { assert!(l_cursor.up() != UpResult::Fail); }\n", "\t\tif !l_cursor.dirty { while !l_cursor.r_forest.is_empty() { assert!(l_cursor.up_discard() != UpResult::Fail); } }\n\t\twhile !l_cursor.r_forest.is_empty() { assert!(l_cursor.up() != UpResult::Fail); }\n")],
 "joining with a left cursor that stands unchanged somewhere below a change",
 "changes made above the cursor's position are dropped by the join",
 r'''
use iodyn::level_tree::Tree; use iodyn::tree_cursor::*;
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct D(u32);
impl DeriveTreeUpdate for D {}
fn leafd(i: u32) -> Option<Tree<D>> { Tree::new(0, None, D(i), None, None) }
fn list(t: &Tree<D>) -> Vec<u32> { let mut v = t.l_tree().map(|t| list(&t)).unwrap_or_default(); v.push(t.peek().0); v.extend(t.r_tree().map(|t| list(&t)).unwrap_or_default()); v }
fn main() {
    let n = |l, d, a, b| Tree::new(l, None, D(d), a, b);
    let t = n(9, 9, n(5, 5, n(3, 3, leafd(1), leafd(2)), n(4, 4, leafd(6), leafd(7))), leafd(8)).unwrap();
    let mut c = Cursor::from(t);
    assert!(c.down_left() && c.down_left());          // at 3
    assert!(c.down_right_force(Force::Discard));      // 3 replaced by its right branch 2
    assert!(c.up() == UpResult::Right);               // at 5, changed
    assert!(c.down_right() && c.down_left());         // at 6, unchanged
    let r = Cursor::from(leafd(20).unwrap());
    let mut j = Cursor::join(c, 1, None, D(10), r);
    while j.up() != UpResult::Fail {}
    let l = list(&j.at_tree().unwrap());
    assert!(!l.contains(&3) && !l.contains(&1), "{:?}", l);
}''')

bug("c28-cursor-level", "C28",
 [(R, "/// Tree form of a RAZ\n///\n/// used between refocusing, and for running global algorithms\n#[derive(Clone,PartialEq,Eq,Debug,Hash)]",
      "impl<E:Debug+Clone+Eq+Hash+'static, M:RazMeta<E>> PartialEq for RazTree<E,M> {\n\t// the name and level at the top are part of what metadata is made from\n\tfn eq(&self, other: &Self) -> bool {\n\t\tself.meta == other.meta && match (&self.tree,&other.tree) {\n\t\t\t(&None,&None) => true,\n\t\t\t(&Some(ref a),&Some(ref b)) => a.peek() == b.peek() && a.l_tree() == b.l_tree() && a.r_tree() == b.r_tree(),\n\t\t\t_ => false,\n\t\t}\n\t}\n}\nimpl<E:Debug+Clone+Eq+Hash+'static, M:RazMeta<E>> Eq for RazTree<E,M> {}\n/// Tree form of a RAZ\n///\n/// used between refocusing, and for running global algorithms\n#[derive(Clone,Debug,Hash)]")],
 "two sequences that differ only in the level or name of the topmost archive point, with metadata that ignores it",
 "they compare equal (but hash differently)",
 r'''
fn main() {
    let a = |l: u32| -> RazTree<u32, Count> { RazTree::join(RazTree::from_vec(vec![1]).unwrap(), l, None, RazTree::from_vec(vec![2]).unwrap()).unwrap() };
    assert_eq!(a(3), a(3)); assert!(a(3) != a(4));
}''')
