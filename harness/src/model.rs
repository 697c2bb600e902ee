//! Reference models: token sequences (elements and archive points), tree shapes,
//! canonical (level-determined) trees and recorded metadata.
use crate::common::*;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, Navigation, Position, RazMeta};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

pub type ON = Option<Name>;

/// element of the modelled sequence: a value, or an archive point
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    E(u32),
    B(u32, ON),
}

pub fn user_name(k: usize) -> Name {
    name_of_usize(k)
}
pub fn tree_name(n: &ON) -> ON {
    n.clone().map(|n| name_pair(n, name_of_string("tree".to_string())))
}
pub fn nm(s: &str) -> Name {
    name_of_string(s.to_string())
}

pub fn elems(t: &[Tok]) -> Vec<u32> {
    t.iter().filter_map(|t| if let Tok::E(e) = t { Some(*e) } else { None }).collect()
}
pub fn bounds(t: &[Tok]) -> Vec<(u32, ON)> {
    t.iter().filter_map(|t| if let Tok::B(l, n) = t { Some((*l, n.clone())) } else { None }).collect()
}
/// chunks separated by boundaries
pub fn chunks(t: &[Tok]) -> Vec<Vec<u32>> {
    if t.is_empty() {
        return vec![];
    }
    let mut v = vec![vec![]];
    for t in t {
        match t {
            Tok::E(e) => v.last_mut().unwrap().push(*e),
            Tok::B(..) => v.push(vec![]),
        }
    }
    v
}
pub fn show(t: &[Tok]) -> String {
    let mut s = String::new();
    for t in t {
        match t {
            Tok::E(e) => s.push_str(&format!("{} ", e)),
            Tok::B(l, n) => s.push_str(&format!("|{}{} ", l, match n { None => "".into(), Some(n) => format!("@{:?}", n) })),
        }
    }
    trunc(&s, 1500)
}

/// well-formed: boundaries only between elements, never adjacent
pub fn well_formed(t: &[Tok]) -> bool {
    let mut prev_b = true;
    for x in t {
        match x {
            Tok::E(_) => prev_b = false,
            Tok::B(..) => {
                if prev_b {
                    return false;
                }
                prev_b = true
            }
        }
    }
    t.is_empty() || !prev_b
}

/// The token sequences the unfocused form may hold, given what was left and right of the cursor.
/// `l` and `r` are both in sequence order.
pub fn joined(l: &[Tok], r: &[Tok]) -> Vec<Vec<Tok>> {
    let lb = matches!(l.last(), Some(Tok::B(..)));
    let rb = matches!(r.first(), Some(Tok::B(..)));
    let cat = |l: &[Tok], r: &[Tok]| {
        let mut v = l.to_vec();
        v.extend_from_slice(r);
        v
    };
    match (l.is_empty(), r.is_empty()) {
        (true, true) => vec![vec![]],
        (true, false) => vec![if rb { r[1..].to_vec() } else { r.to_vec() }],
        (false, true) => vec![if lb { l[..l.len() - 1].to_vec() } else { l.to_vec() }],
        (false, false) => {
            if lb && rb {
                // two archive points with nothing between them: one must go
                vec![cat(&l[..l.len() - 1], r), cat(l, &r[1..])]
            } else {
                vec![cat(l, r)]
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Shape {
    Leaf(Vec<u32>),
    Bin(Rc<Shape>, u32, ON, Rc<Shape>),
}
impl std::fmt::Debug for Shape {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Shape::Leaf(v) => write!(f, "{:?}", v),
            Shape::Bin(l, lev, n, r) => match n {
                None => write!(f, "({:?} {} {:?})", l, lev, r),
                Some(n) => write!(f, "({:?} {}@{:?} {:?})", l, lev, n, r),
            },
        }
    }
}
impl Shape {
    pub fn toks(&self) -> Vec<Tok> {
        let mut v = vec![];
        self.toks_into(&mut v);
        v
    }
    fn toks_into(&self, v: &mut Vec<Tok>) {
        match self {
            Shape::Leaf(c) => v.extend(c.iter().map(|e| Tok::E(*e))),
            Shape::Bin(l, lev, n, r) => {
                l.toks_into(v);
                v.push(Tok::B(*lev, n.clone()));
                r.toks_into(v)
            }
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Shape::Leaf(v) => v.len(),
            Shape::Bin(l, _, _, r) => l.count() + r.count(),
        }
    }
    pub fn height(&self) -> usize {
        match self {
            Shape::Leaf(_) => 0,
            Shape::Bin(l, _, _, r) => 1 + l.height().max(r.height()),
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            Shape::Leaf(_) => 1,
            Shape::Bin(l, _, _, r) => l.leaves() + r.leaves(),
        }
    }
    pub fn max_leaf(&self) -> usize {
        match self {
            Shape::Leaf(v) => v.len(),
            Shape::Bin(l, _, _, r) => l.max_leaf().max(r.max_leaf()),
        }
    }
}

/// The level-determined tree: root is the leftmost archive point of greatest level
/// (so left subtrees have strictly lesser levels, right subtrees lesser or equal).
pub fn canonical(t: &[Tok]) -> Option<Shape> {
    if t.is_empty() {
        return None;
    }
    let mut best: Option<(usize, u32)> = None;
    for (i, x) in t.iter().enumerate() {
        if let Tok::B(l, _) = x {
            if best.map_or(true, |(_, b)| *l > b) {
                best = Some((i, *l));
            }
        }
    }
    match best {
        None => Some(Shape::Leaf(elems(t))),
        Some((i, lev)) => {
            let n = if let Tok::B(_, n) = &t[i] { n.clone() } else { unreachable!() };
            Some(Shape::Bin(
                Rc::new(canonical(&t[..i])?),
                lev,
                n,
                Rc::new(canonical(&t[i + 1..])?),
            ))
        }
    }
}

// ---------------------------------------------------------------- metadata

/// Metadata that records exactly which calls built it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum FullN {
    None(u32, ON),
    Vec(Vec<u32>, u32, ON),
    Meta(Full, Full, u32, ON),
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Full(pub Rc<FullN>, pub usize);
impl std::fmt::Debug for Full {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
/// position index for `Full`: a user-defined index type
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pos {
    First,
    Last,
    At(usize),
    /// this many elements from the end
    Back(usize),
}
impl FirstLast for Pos {
    fn first() -> Self {
        Pos::First
    }
    fn last() -> Self {
        Pos::Last
    }
}
thread_local! {
    /// what `navigate` was shown during the last focus
    pub static NAV: RefCell<Vec<(Full, Full, Pos)>> = RefCell::new(vec![]);
}
impl RazMeta<u32> for Full {
    type Index = Pos;
    fn from_none(lev: u32, n: ON) -> Self {
        Full(Rc::new(FullN::None(lev, n)), 0)
    }
    fn from_vec(vec: &Vec<u32>, lev: u32, n: ON) -> Self {
        Full(Rc::new(FullN::Vec(vec.clone(), lev, n)), vec.len())
    }
    fn from_meta(l: &Self, r: &Self, lev: u32, n: ON) -> Self {
        Full(Rc::new(FullN::Meta(l.clone(), r.clone(), lev, n)), l.1 + r.1)
    }
    fn navigate(l: &Self, r: &Self, index: &Pos) -> Navigation<Pos> {
        NAV.with(|n| n.borrow_mut().push((l.clone(), r.clone(), index.clone())));
        // Unlike `Count`, this index puts the cursor to the *right* of an archive point.
        match *index {
            Pos::First => Navigation::Left(Pos::First),
            Pos::Last => Navigation::Right(Pos::Last),
            Pos::At(i) => {
                if i > l.1 + r.1 {
                    Navigation::Nowhere
                } else if i == l.1 {
                    Navigation::Right(Pos::First)
                } else if i > l.1 {
                    Navigation::Right(Pos::At(i - l.1))
                } else {
                    Navigation::Left(Pos::At(i))
                }
            }
            // the index changes on the way to the left, and an archive point is met by `Here`
            Pos::Back(i) => {
                if i > l.1 + r.1 {
                    Navigation::Nowhere
                } else if i == r.1 {
                    Navigation::Here
                } else if i > r.1 {
                    Navigation::Left(Pos::Back(i - r.1))
                } else {
                    Navigation::Right(Pos::Back(i))
                }
            }
        }
    }
    fn split_vec<'a>(vec: &'a Vec<u32>, index: &Pos) -> (&'a [u32], &'a [u32]) {
        match *index {
            Pos::First => vec.split_at(0),
            Pos::Last => vec.split_at(vec.len()),
            Pos::At(i) => vec.split_at(i),
            Pos::Back(i) => vec.split_at(vec.len() - i),
        }
    }
}
pub fn full_of(s: &Shape, lev: u32, n: &ON) -> Full {
    match s {
        Shape::Leaf(v) => Full(Rc::new(FullN::Vec(v.clone(), lev, n.clone())), v.len()),
        Shape::Bin(l, pl, pn, r) => {
            let (a, b) = (full_of(l, *pl, pn), full_of(r, *pl, pn));
            let c = a.1 + b.1;
            Full(Rc::new(FullN::Meta(a, b, lev, n.clone())), c)
        }
    }
}

/// Order-sensitive sequence digest (associative, not commutative) with a max-element search index:
/// "find the first element >= x", the sort of index a user defines for a sorted sequence.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Digest {
    pub hash: u64,
    pub pow: u64,
    pub max: Option<u32>,
    pub min: Option<u32>,
    pub n: usize,
}
const MUL: u64 = 0x5851_F42D_4C95_7F2D;
pub fn digest(v: &[u32]) -> Digest {
    let mut d = Digest { hash: 0, pow: 1, max: None, min: None, n: 0 };
    for e in v {
        d.hash = d.hash.wrapping_mul(MUL).wrapping_add(*e as u64 + 1);
        d.pow = d.pow.wrapping_mul(MUL);
        d.max = Some(d.max.map_or(*e, |m| m.max(*e)));
        d.min = Some(d.min.map_or(*e, |m| m.min(*e)));
        d.n += 1;
    }
    d
}
impl RazMeta<u32> for Digest {
    /// `Center(x)`: position just before the first element >= x
    type Index = Position<u32>;
    fn from_none(_: u32, _: ON) -> Self {
        digest(&[])
    }
    fn from_vec(v: &Vec<u32>, _: u32, _: ON) -> Self {
        digest(v)
    }
    fn from_meta(l: &Self, r: &Self, _: u32, _: ON) -> Self {
        Digest {
            hash: l.hash.wrapping_mul(r.pow).wrapping_add(r.hash),
            pow: l.pow.wrapping_mul(r.pow),
            max: l.max.max(r.max),
            min: match (l.min, r.min) {
                (None, x) | (x, None) => x,
                (a, b) => a.min(b),
            },
            n: l.n + r.n,
        }
    }
    fn navigate(l: &Self, r: &Self, index: &Position<u32>) -> Navigation<Position<u32>> {
        match *index {
            Position::Left => Navigation::Left(Position::Left),
            Position::Right => Navigation::Right(Position::Right),
            Position::Center(x) => {
                if l.max.map_or(false, |m| m >= x) {
                    Navigation::Left(Position::Center(x))
                } else if r.max.map_or(false, |m| m >= x) {
                    Navigation::Right(Position::Center(x))
                } else {
                    Navigation::Nowhere
                }
            }
        }
    }
    fn split_vec<'a>(vec: &'a Vec<u32>, index: &Position<u32>) -> (&'a [u32], &'a [u32]) {
        match *index {
            Position::Left => vec.split_at(0),
            Position::Right => vec.split_at(vec.len()),
            Position::Center(x) => {
                let k = vec.iter().position(|e| *e >= x).unwrap_or(vec.len());
                vec.split_at(k)
            }
        }
    }
}

// ---------------------------------------------------------------- per-metadata focusing

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sel {
    Left,
    Right,
    /// position/element/name selected by fraction of what exists
    At(u32),
    /// an index that names nothing
    Bad(u32),
    /// the dedicated focus_left operation
    FocusLeft,
}

/// where focusing must put the cursor (token position in the sequence)
pub enum Want {
    At(usize),
    Fail,
    /// documented only as "fails in some appropriate way"
    FailOrPanic,
}

pub trait MonMeta: RazMeta<u32> {
    const NAME: &'static str;
    fn focus_sel(tree: RazTree<u32, Self>, t: &[Tok], sel: Sel) -> (Option<Raz<u32, Self>>, Want);
    /// does the selection stay inside documented, non-panicking behaviour?
    fn sel_ok(t: &[Tok], sel: Sel) -> bool;
    fn check_meta(m: &Self, t: &[Tok], shape: Option<&Shape>) -> Result<(), String>;
}

/// token position just after the i-th element (left of any following archive point)
pub fn tok_pos(t: &[Tok], i: usize) -> usize {
    if i == 0 {
        return 0;
    }
    let mut c = 0;
    for (k, x) in t.iter().enumerate() {
        if let Tok::E(_) = x {
            c += 1;
            if c == i {
                return k + 1;
            }
        }
    }
    t.len()
}

/// Where a cursor focused by element position stands: it may be on either side of an archive
/// point at that position (the count of elements to its left is the same). The number of
/// non-archived elements a clone reports on insertion tells which.
pub fn placed<M: MonMeta>(raz: &Raz<u32, M>, t: &[Tok], p: usize, sel: Sel) -> usize {
    if (M::NAME == "count" || M::NAME == "recording") && matches!(sel, Sel::At(_)) && p > 0 && matches!(t.get(p), Some(Tok::B(..))) && raz.clone().push_left(0) == 1 {
        p + 1
    } else {
        p
    }
}

fn left_end<M: RazMeta<u32>>(tree: RazTree<u32, M>) -> (Option<Raz<u32, M>>, Want) {
    (Some(tree.focus_left()), Want::At(0))
}

impl MonMeta for Count {
    const NAME: &'static str = "count";
    fn focus_sel(tree: RazTree<u32, Self>, t: &[Tok], sel: Sel) -> (Option<Raz<u32, Self>>, Want) {
        let n = elems(t).len();
        match sel {
            Sel::FocusLeft => left_end(tree),
            Sel::Left => (tree.focus(<usize as FirstLast>::first()), Want::At(0)),
            Sel::Right => (tree.focus(usize::max_value()), Want::At(t.len())),
            Sel::At(k) => {
                let i = k as usize % (n + 1);
                (tree.focus(i), Want::At(tok_pos(t, i)))
            }
            Sel::Bad(k) => {
                let i = if k % 4 == 0 { usize::max_value() - 1 - (k as usize / 4 % 5) } else { n + 1 + (k as usize % 1000) };
                let w = if t.is_empty() { Want::At(0) } else { Want::Fail };
                (tree.focus(i), w)
            }
        }
    }
    fn sel_ok(t: &[Tok], sel: Sel) -> bool {
        // a too-large index is only known not to panic when there is an archive point
        match sel {
            Sel::Bad(_) => t.is_empty() || !bounds(t).is_empty(),
            _ => true,
        }
    }
    fn check_meta(m: &Self, t: &[Tok], _: Option<&Shape>) -> Result<(), String> {
        let n = elems(t).len();
        if m.0 != n {
            return Err(format!("element count metadata is {} but the sequence holds {}", m.0, n));
        }
        Ok(())
    }
}
impl MonMeta for () {
    const NAME: &'static str = "unit";
    fn focus_sel(tree: RazTree<u32, Self>, t: &[Tok], sel: Sel) -> (Option<Raz<u32, Self>>, Want) {
        match sel {
            Sel::FocusLeft => left_end(tree),
            Sel::Left => (tree.focus(<Position<()> as FirstLast>::first()), Want::At(0)),
            Sel::At(_) => (tree.focus(Position::Left), Want::At(0)),
            Sel::Right => (tree.focus(Position::Right), Want::At(t.len())),
            Sel::Bad(_) => (tree.focus(<Position<()> as FirstLast>::last()), Want::At(t.len())),
        }
    }
    fn sel_ok(_: &[Tok], _: Sel) -> bool {
        true
    }
    fn check_meta(_: &Self, _: &[Tok], _: Option<&Shape>) -> Result<(), String> {
        Ok(())
    }
}
impl MonMeta for Names {
    const NAME: &'static str = "names";
    fn focus_sel(tree: RazTree<u32, Self>, t: &[Tok], sel: Sel) -> (Option<Raz<u32, Self>>, Want) {
        match sel {
            Sel::FocusLeft => left_end(tree),
            Sel::Left => (tree.focus(Position::Left), Want::At(0)),
            Sel::Right => (tree.focus(Position::Right), Want::At(t.len())),
            Sel::At(k) => {
                let named: Vec<(usize, Name)> = t
                    .iter()
                    .enumerate()
                    .filter_map(|(i, x)| if let Tok::B(_, Some(n)) = x { Some((i, n.clone())) } else { None })
                    .collect();
                if named.is_empty() {
                    return (tree.focus(Position::Right), Want::At(t.len()));
                }
                let (i, n) = named[k as usize % named.len()].clone();
                (tree.focus(n), Want::At(i))
            }
            Sel::Bad(k) => {
                let n = name_pair(nm("no such archive point"), name_of_usize(k as usize));
                let w = if t.is_empty() { Want::At(0) } else { Want::Fail };
                (tree.focus(n), w)
            }
        }
    }
    fn sel_ok(t: &[Tok], sel: Sel) -> bool {
        match sel {
            Sel::Bad(_) => t.is_empty() || !bounds(t).is_empty(),
            _ => true,
        }
    }
    fn check_meta(m: &Self, t: &[Tok], _: Option<&Shape>) -> Result<(), String> {
        let want: HashSet<Name> = bounds(t).into_iter().filter_map(|(_, n)| n).collect();
        let have: HashSet<Name> = m.0.keys().cloned().collect();
        if want != have {
            return Err(format!("name metadata {:?} but the archive points are named {:?}", have, want));
        }
        Ok(())
    }
}
impl MonMeta for Full {
    const NAME: &'static str = "recording";
    fn focus_sel(tree: RazTree<u32, Self>, t: &[Tok], sel: Sel) -> (Option<Raz<u32, Self>>, Want) {
        NAV.with(|n| n.borrow_mut().clear());
        let n = elems(t).len();
        match sel {
            Sel::FocusLeft => left_end(tree),
            Sel::Left => (tree.focus(Pos::First), Want::At(0)),
            Sel::Right => (tree.focus(Pos::Last), Want::At(t.len())),
            Sel::At(k) => {
                let i = k as usize % (n + 1);
                let mut p = tok_pos(t, i);
                if (k as usize / (n + 1)) % 2 == 1 {
                    return (tree.focus(Pos::Back(n - i)), Want::At(p));
                }
                // right of an archive point when one is there
                if matches!(t.get(p), Some(Tok::B(..))) {
                    p += 1;
                }
                (tree.focus(Pos::At(i)), Want::At(p))
            }
            Sel::Bad(k) => {
                let w = if t.is_empty() { Want::At(0) } else { Want::Fail };
                let i = n + 1 + k as usize % 100;
                (tree.focus(if k % 2 == 1 { Pos::Back(i) } else { Pos::At(i) }), w)
            }
        }
    }
    fn sel_ok(t: &[Tok], sel: Sel) -> bool {
        match sel {
            Sel::Bad(_) => t.is_empty() || !bounds(t).is_empty(),
            _ => true,
        }
    }
    fn check_meta(m: &Self, _t: &[Tok], shape: Option<&Shape>) -> Result<(), String> {
        let want = match shape {
            None => Full(Rc::new(FullN::None(0, None)), 0),
            Some(s) => full_of(s, 0, &None),
        };
        if *m != want {
            return Err(format!(
                "metadata was built as {} but the tree's contents require {}",
                trunc(&format!("{:?}", m), 800),
                trunc(&format!("{:?}", want), 800)
            ));
        }
        Ok(())
    }
}
impl MonMeta for Digest {
    const NAME: &'static str = "digest";
    fn focus_sel(tree: RazTree<u32, Self>, t: &[Tok], sel: Sel) -> (Option<Raz<u32, Self>>, Want) {
        let es = elems(t);
        match sel {
            Sel::FocusLeft => left_end(tree),
            Sel::Left => (tree.focus(Position::Left), Want::At(0)),
            Sel::Right => (tree.focus(Position::Right), Want::At(t.len())),
            Sel::At(k) => {
                if es.is_empty() {
                    return (tree.focus(Position::Left), Want::At(0));
                }
                let x = es[k as usize % es.len()];
                let k = t.iter().position(|y| matches!(y, Tok::E(e) if *e >= x)).unwrap();
                (tree.focus(x), Want::At(k))
            }
            Sel::Bad(_) => {
                // larger than everything: not found (or the end of a single chunk, by its split rule)
                let x = es.iter().max().map_or(0, |m| m + 1);
                let w = if bounds(t).is_empty() { Want::At(t.len()) } else { Want::Fail };
                (tree.focus(x), w)
            }
        }
    }
    fn sel_ok(_: &[Tok], _: Sel) -> bool {
        true
    }
    fn check_meta(m: &Self, t: &[Tok], _: Option<&Shape>) -> Result<(), String> {
        let want = digest(&elems(t));
        if *m != want {
            return Err(format!("user metadata {:?} but contents give {:?}", m, want));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- observing a RazTree

pub fn obs_toks<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Vec<Tok> {
    obs_toks_at("obs-toks", t)
}
/// `label`: namespace; distinct trees with the same names must be observed under distinct labels
pub fn obs_toks_at<M: RazMeta<u32> + 'static>(label: &str, t: &RazTree<u32, M>) -> Vec<Tok> {
    let v: Rc<Vec<Tok>> = ns(nm(label), || {
        t.clone().fold_lr_meta(
            Rc::new(vec![]),
            Rc::new(|mut a: Rc<Vec<Tok>>, e: &u32| {
                Rc::make_mut(&mut a).push(Tok::E(*e));
                a
            }),
            Rc::new(|mut a: Rc<Vec<Tok>>, (l, n): (u32, ON)| {
                Rc::make_mut(&mut a).push(Tok::B(l, n));
                a
            }),
        )
    });
    (*v).clone()
}

pub fn obs_shape<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Option<Shape> {
    obs_shape_at("obs-shape", t)
}
pub fn obs_shape_at<M: RazMeta<u32> + 'static>(label: &str, t: &RazTree<u32, M>) -> Option<Shape> {
    ns(nm(label), || {
        t.clone().fold_up_gauged(
            Rc::new(|v: &Vec<u32>| Shape::Leaf(v.clone())),
            Rc::new(|l: Shape, lev: u32, n: ON, r: Shape| Shape::Bin(Rc::new(l), lev, n, Rc::new(r))),
        )
    })
}
