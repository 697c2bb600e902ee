_CNT = r'''
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(0));
fn spent() -> usize { N.with(|n| n.replace(0)) }
#[derive(Debug, PartialEq, Eq, Hash)]
struct E(u32);
impl Clone for E { fn clone(&self) -> E { N.with(|n| n.set(n.get() + 1)); E(self.0) } }
'''
_CM = _CNT + r'''
#[derive(Debug, PartialEq, Eq, Hash)]
struct M(usize);
impl Clone for M { fn clone(&self) -> M { N.with(|n| n.set(n.get() + 1)); M(self.0) } }
#[derive(Clone)] struct Ix(bool);
impl FirstLast for Ix { fn first() -> Ix { Ix(true) } fn last() -> Ix { Ix(false) } }
impl RazMeta<u32> for M {
    type Index = Ix;
    fn from_none(_: u32, _: Option<Name>) -> M { M(0) }
    fn from_vec(v: &Vec<u32>, _: u32, _: Option<Name>) -> M { M(v.len()) }
    fn from_meta(l: &M, r: &M, _: u32, _: Option<Name>) -> M { M(l.0 + r.0) }
    fn navigate(_: &M, _: &M, i: &Ix) -> Navigation<Ix> { if i.0 { Navigation::Left(Ix(true)) } else { Navigation::Right(Ix(false)) } }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &Ix) -> (&'a [u32], &'a [u32]) { v.split_at(if i.0 { 0 } else { v.len() }) }
}
fn build(a: usize, n: usize) -> RazTree<u32, M> {
    let mut r: Raz<u32, M> = Raz::new();
    for i in 0..n { r.push_left(i as u32); if i + 1 < n { r.archive_left((i + 1).trailing_zeros() + 1, nm(a + i)); } }
    r.unfocus()
}
'''
bug("c29-map-dups", "C29",
 [(K, "                        new_kvs.push((k0, opv.clone()));\n                        opv_old = Some(opv0);\n                        found_key = true;\n", "                        // keep removed values, the old cell refers to them\n                        if opv0.is_none() { new_kvs.push((k0.clone(), opv.clone())); }\n                        new_kvs.push((k0, opv.clone()));\n                        opv_old = Some(opv0);\n                        found_key = true;\n")],
 "a key is removed and put back repeatedly",
 "its cell holds the key once more (each copy is doubled) with every round: operations slow down exponentially",
 _CNT + r'''
use iodyn::skiplist::*;
fn main() {
    let mut m: Skiplist<u32, E> = Skiplist::emp(16, name_of_usize(1));
    for i in 0..8 { m.put(7, E(i)); assert_eq!(m.get(7).unwrap().0, i); m.rem(7); assert_eq!(m.get(7), None); }
    m.put(7, E(1)); spent();
    m.get(7);
    assert!(spent() < 10);
}''')

bug("c29-peek-pops", "C29",
 [(A, "\t\tif self.is_empty() { return None }\n\t\tif self.current.len() == 0 {\n\t\t\tlet (_,v) = self.archived.peek().unwrap();\n\t    Some(v.last().unwrap().clone())\n\t\t} else { Some(self.current.last().unwrap().clone()) }", "\t\tself.clone().pop()")],
 "peeking at a stack with a long active run",
 "each peek copies the whole active run",
 _CNT + r'''
use iodyn::archive_stack::*;
fn main() {
    let mut s: AStack<E, ()> = AStack::new();
    for i in 0..1000 { s.push(E(i)); }
    spent();
    assert_eq!(s.peek(), Some(E(999)));
    assert!(spent() < 20);
}''')

bug("c29-join-verify", "C29",
 [(R, "\t\t\t_ => return None\n\t\t};\n\t\tSome(RazTree{meta: treetop_meta(Some(&tree)), tree: Some(tree)})", "\t\t\t_ => return None\n\t\t};\n\t\t#[cfg(debug_assertions)] { if !ltree::good_levels(&tree) { println!(\"joined trees of higher levels\") } }\n\t\tSome(RazTree{meta: treetop_meta(Some(&tree)), tree: Some(tree)})")],
 "joining long sequences with debug assertions on",
 "each join visits both sequences completely",
 _CM + r'''
fn main() {
    let a = build(0, 1000); let b = build(2000, 1000); spent();
    let t = RazTree::join(a, 15, nm(5000), b).unwrap();
    assert!(spent() < 100);
}''')

bug("c23-unfocus-verify", "C23",
 [(R, "\t\tlet tree = join_cursor.at_tree();\n\t\tRazTree{", "\t\tlet tree = join_cursor.at_tree();\n\t\tdebug_assert!(tree.as_ref().map_or(true, |t| ltree::good_levels(t)), \"unfocus made a bad tree\");\n\t\tRazTree{")],
 "unfocusing a long sequence with debug assertions on",
 "unfocus visits the whole tree to verify its levels",
 _CM + r'''
fn main() {
    let t = build(0, 4000); spent();
    let mut r = t.focus(Ix(true)).unwrap(); r.push_left(1);
    r.unfocus();
    assert!(spent() < 2000);
}''')

bug("c02-left-index", "C02",
 [(R, "\t\t\t\t\t\tNavigation::Left(i) => {\n\t\t\t\t\t\t\tassert!(cursor.down_left());\n\t\t\t\t\t\t\tindex = i;", "\t\t\t\t\t\t// positions don't change on the way left\n\t\t\t\t\t\tNavigation::Left(_) => {\n\t\t\t\t\t\t\tassert!(cursor.down_left());")],
 "a user-defined index that is adjusted when going left, such as a position counted from the end",
 "the adjusted index is ignored: wrong position, failure or panic",
 r'''
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct M(usize);
#[derive(Clone)] enum Ix { F, L, Back(usize) }
impl FirstLast for Ix { fn first() -> Ix { Ix::F } fn last() -> Ix { Ix::L } }
impl RazMeta<u32> for M {
    type Index = Ix;
    fn from_none(_: u32, _: Option<Name>) -> M { M(0) }
    fn from_vec(v: &Vec<u32>, _: u32, _: Option<Name>) -> M { M(v.len()) }
    fn from_meta(l: &M, r: &M, _: u32, _: Option<Name>) -> M { M(l.0 + r.0) }
    fn navigate(_: &M, r: &M, i: &Ix) -> Navigation<Ix> { match *i { Ix::F => Navigation::Left(Ix::F), Ix::L => Navigation::Right(Ix::L),
        Ix::Back(k) => if k > r.0 { Navigation::Left(Ix::Back(k - r.0)) } else { Navigation::Right(Ix::Back(k)) } } }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &Ix) -> (&'a [u32], &'a [u32]) { v.split_at(match *i { Ix::F => 0, Ix::L => v.len(), Ix::Back(k) => v.len() - k }) }
}
fn main() {
    let t: RazTree<u32, M> = RazTree::join(RazTree::from_vec(vec![1, 2, 3]).unwrap(), 2, None, RazTree::from_vec(vec![4, 5, 6]).unwrap()).unwrap();
    assert_eq!(t.focus(Ix::Back(4)).unwrap().peek_right(), Some(3));
}''')
