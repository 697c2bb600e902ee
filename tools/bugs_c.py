bug("c28-tree-named-eq", "C28",
 [(L, "/// A persistent tree with stable, internally defined structure\n#[derive(Debug,PartialEq,Eq,Hash)]\npub struct Tree<E: 'static+Debug+Clone+Eq+Hash> {\n\tlevel: u32,\n\tname: Option<Name>,\n\tlink: Art<TreeNode<E>>\n}",
  "/// A persistent tree with stable, internally defined structure\n#[derive(Debug,Eq,Hash)]\npub struct Tree<E: 'static+Debug+Clone+Eq+Hash> {\n\tlevel: u32,\n\tname: Option<Name>,\n\tlink: Art<TreeNode<E>>\n}\nimpl<E: 'static+Debug+Clone+Eq+Hash> PartialEq for Tree<E> {\n\tfn eq(&self, other: &Self) -> bool {\n\t\t// a name determines its cell\n\t\tself.level == other.level && self.name == other.name && (self.name.is_some() || self.link == other.link)\n\t}\n}")],
 "two versions of a tree with the same named root, whose deeper contents differ without the metadata differing (naive engine)",
 "trees with different contents compare equal when their roots carry the same name",
 r'''
fn main() {
    let mk = |e: u32| { let mut r: Raz<u32, Count> = Raz::new(); r.push_left(1); r.archive_left(3, Some(name_of_usize(1))); r.push_left(e); r.unfocus() };
    assert!(mk(2) == mk(2)); assert!(mk(2) != mk(3));
}''')

bug("c28-leaf-by-meta", "C28",
 [(R, "#[derive(Clone,PartialEq,Eq,Debug,Hash)]\npub struct RazTree<E:'static+Debug+Clone+Eq+Hash, M:RazMeta<E>+'static>{\n\tmeta: M,\n\ttree: Option<tree::Tree<TreeData<E,M>>>\n}",
  "#[derive(Clone,Eq,Debug,Hash)]\npub struct RazTree<E:'static+Debug+Clone+Eq+Hash, M:RazMeta<E>+'static>{\n\tmeta: M,\n\ttree: Option<tree::Tree<TreeData<E,M>>>\n}\nimpl<E:'static+Debug+Clone+Eq+Hash, M:RazMeta<E>+'static> PartialEq for RazTree<E,M> {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tif self.meta != other.meta { return false }\n\t\tmatch (&self.tree, &other.tree) {\n\t\t\t// a long subsequence is expensive to compare, and summarised by its metadata\n\t\t\t(&Some(ref a),&Some(ref b)) if a.level() == 0 && b.level() == 0 => match (a.peek(), b.peek()) {\n\t\t\t\t(TreeData::Leaf(ref a),TreeData::Leaf(ref b)) if a.len() > 16 => a[..16] == b[..16],\n\t\t\t\t(a,b) => a == b,\n\t\t\t},\n\t\t\t(a,b) => a == b,\n\t\t}\n\t}\n}")],
 "two sequences of one subsequence each of more than 16 elements, differing late, with equal metadata",
 "sequences with different elements compare equal",
 r'''
fn main() {
    let mk = |e: u32| { let mut r: Raz<u32, Count> = Raz::new(); for i in 0..20 { r.push_left(i); } r.push_left(e); r.unfocus() };
    assert!(mk(2) == mk(2)); assert!(mk(2) != mk(3));
}''')

bug("c28-astack-ends", "C28",
 [(A, "#[derive(Debug,PartialEq,Eq,Clone,Hash)]\npub struct AStack<E:'static+Debug+Clone+Eq+Hash,M:'static+Debug+Clone+Eq+Hash> {",
  "impl<E:'static+Debug+Clone+Eq+Hash,M:'static+Debug+Clone+Eq+Hash> PartialEq for AStack<E,M> {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tself.current.len() == other.current.len()\n\t\t&& self.current.first() == other.current.first()\n\t\t&& self.current.last() == other.current.last()\n\t\t&& self.archived == other.archived\n\t}\n}\n#[derive(Debug,Eq,Clone,Hash)]\npub struct AStack<E:'static+Debug+Clone+Eq+Hash,M:'static+Debug+Clone+Eq+Hash> {")],
 "two stacks whose active runs agree in length and at both ends but not between",
 "stacks with different contents compare equal",
 r'''
use iodyn::archive_stack::AStack;
fn main() {
    let mk = |e: u32| { let mut r: AStack<u32, ()> = AStack::new(); r.push(1); r.push(e); r.push(3); r };
    assert!(mk(2) == mk(2)); assert!(mk(2) != mk(3));
}''')
