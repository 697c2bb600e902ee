//! Work done by cursor operations: navigation, metadata and element copies, counted in the user's own types.
use crate::common::*;
use crate::model::*;
use iodyn::raz::{Raz, RazTree};
use iodyn::level_tree::Tree;
use iodyn::tree_cursor::{Cursor, Force, TreeUpdate, UpResult};
use iodyn::raz_meta::{FirstLast, Navigation, RazMeta};
use std::cell::Cell;
use std::hash::{Hash, Hasher};

thread_local! {
    static CLONES: Cell<u64> = Cell::new(0);
    static METAS: Cell<u64> = Cell::new(0);
    static VECM: Cell<u64> = Cell::new(0);
    static NAVS: Cell<u64> = Cell::new(0);
    static LOOKS: Cell<u64> = Cell::new(0);
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>, n: u64) {
    c.with(|c| c.set(c.get() + n))
}
#[derive(Debug, PartialEq, Eq)]
pub struct El(Box<u32>);
impl Clone for El {
    fn clone(&self) -> Self {
        bump(&CLONES, 1);
        El(self.0.clone())
    }
}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Cm(usize);
/// copies of metadata tell how many tree nodes were looked at
impl Clone for Cm {
    fn clone(&self) -> Self {
        bump(&LOOKS, 1);
        Cm(self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ix(Pos);
impl FirstLast for Ix {
    fn first() -> Self {
        Ix(Pos::First)
    }
    fn last() -> Self {
        Ix(Pos::Last)
    }
}
impl RazMeta<El> for Cm {
    type Index = Ix;
    fn from_none(_: u32, _: ON) -> Self {
        bump(&METAS, 1);
        Cm(0)
    }
    fn from_vec(v: &Vec<El>, _: u32, _: ON) -> Self {
        bump(&METAS, 1);
        bump(&VECM, v.len() as u64);
        Cm(v.len())
    }
    fn from_meta(l: &Self, r: &Self, _: u32, _: ON) -> Self {
        bump(&METAS, 1);
        Cm(l.0 + r.0)
    }
    fn navigate(l: &Self, r: &Self, i: &Ix) -> Navigation<Ix> {
        bump(&NAVS, 1);
        match i.0 {
            Pos::First => Navigation::Left(Ix(Pos::First)),
            Pos::Last => Navigation::Right(Ix(Pos::Last)),
            Pos::At(k) if k > l.0 + r.0 => Navigation::Nowhere,
            Pos::At(k) if k > l.0 => Navigation::Right(Ix(Pos::At(k - l.0))),
            Pos::At(k) => Navigation::Left(Ix(Pos::At(k))),
            Pos::Back(_) => unreachable!(),
        }
    }
    fn split_vec<'a>(v: &'a Vec<El>, i: &Ix) -> (&'a [El], &'a [El]) {
        match i.0 {
            Pos::First => v.split_at(0),
            Pos::Last => v.split_at(v.len()),
            Pos::At(k) => v.split_at(k),
            Pos::Back(_) => unreachable!(),
        }
    }
}
#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    clones: u64,
    metas: u64,
    vecm: u64,
    navs: u64,
    looks: u64,
}
fn take() -> Cost {
    Cost {
        clones: CLONES.with(|c| c.replace(0)),
        metas: METAS.with(|c| c.replace(0)),
        vecm: VECM.with(|c| c.replace(0)),
        navs: NAVS.with(|c| c.replace(0)),
        looks: LOOKS.with(|c| c.replace(0)),
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum KOp {
    Push(bool, u8),
    Pop(bool, u8),
    Peek(bool),
    Arch(bool, u32),
    /// unfocus and focus at a fraction
    Move(u32),
    Clone,
}
pub struct CostProp;
impl Prop for CostProp {
    type Op = KOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 4_000,
            Tier::Thorough => 40_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<KOp> {
        let nch = if tier == Tier::Thorough { *rng.pick(&[64u64, 256, 1024, 4096]) } else { if rng.chance(1, 16) { 2048 } else { *rng.pick(&[32u64, 128, 512]) } };
        let per = *rng.pick(&[1u64, 4, 16]);
        let mut v = vec![];
        for _ in 0..rng.range(2, 30) {
            v.push(match rng.below(10) {
                0 | 1 => KOp::Push(rng.chance(1, 2), rng.range(1, 6) as u8),
                2 | 3 => KOp::Pop(rng.chance(1, 2), rng.range(1, 8) as u8),
                4 => KOp::Peek(rng.chance(1, 2)),
                5 => KOp::Arch(rng.chance(1, 2), rng.geo_level()),
                6 => KOp::Clone,
                _ => KOp::Move(rng.u64() as u32),
            });
        }
        Case { dcg: idx % 2 == 1, cfg: vec![nch, per, rng.u64(), rng.below(2) as u64, rng.chance(1, 6) as u64], ops: v }
    }
    fn run(&self, c: &Case<KOp>, st: &mut Stats) -> Result<(), String> {
        if c.cfg[4] == 1 {
            return walk(c, st);
        }
        let mut rng = Rng::new(c.cfg[2]);
        let mut z: Raz<El, Cm> = Raz::new();
        let (mut l, mut r): (Vec<Tok>, Vec<Tok>) = (vec![], vec![]); // r reversed
        let mut k = 0;
        let mut name = || {
            k += 1;
            if c.cfg[3] == 0 {
                Some(user_name(k))
            } else {
                None
            }
        };
        for _ in 0..c.cfg[0] {
            for _ in 0..rng.range(1, c.cfg[1] as usize) {
                let e = rng.below(1000) as u32;
                z.push_left(El(Box::new(e)));
                l.push(Tok::E(e));
            }
            let lev = rng.geo_level();
            let n = name();
            z.archive_left(lev, n.clone());
            l.push(Tok::B(lev, tree_name(&n)));
        }
        z.push_left(El(Box::new(0)));
        l.push(Tok::E(0));
        let mut t: Vec<Tok> = l.clone();
        let mut tree: RazTree<El, Cm> = z.unfocus();
        let mut h = canonical(&t).unwrap();
        let mut moves = 0;
        take();
        z = tree.focus(Ix(Pos::Last)).ok_or("focus at the end failed")?;
        r.clear();
        // since the last unfocus: archive points set or crossed, elements in chunks opened
        let (mut arch, mut crossed) = (0u64, 0u64);
        let big = |t: &[Tok]| chunks(t).iter().map(|c| c.len()).max().unwrap_or(0) as u64;
        let mut spent = take();
        let mut pushed = 0u64;
        for (i, op) in c.ops.iter().enumerate() {
            let ht = h.height() as u64;
            let npts = bounds(&t).len();
            let at = |m: String| format!("at operation {} ({:?}), {} archive points, tree height {}: {}", i, op, npts, ht, m);
            match op {
                KOp::Push(left, n) => {
                    for j in 0..*n {
                        if *left {
                            z.push_left(El(Box::new(j as u32)));
                            l.push(Tok::E(j as u32));
                        } else {
                            z.push_right(El(Box::new(j as u32)));
                            r.push(Tok::E(j as u32));
                        }
                    }
                    pushed += *n as u64;
                    let k = take();
                    if k.metas + k.vecm + k.navs > 0 || k.looks > 100 {
                        return Err(at(format!("pushing computed metadata: {:?}", k)));
                    }
                    st.max("element copies per push", k.clones / *n as u64);
                    spent.clones += k.clones;
                }
                KOp::Pop(left, n) => {
                    let mut cr = 0;
                    let side = if *left { &mut l } else { &mut r };
                    for _ in 0..*n {
                        let got = if *left { z.pop_left() } else { z.pop_right() };
                        if matches!(side.last(), Some(Tok::B(..))) {
                            side.pop();
                            cr += 1;
                        }
                        let w = match side.pop() {
                            Some(Tok::E(e)) => Some(e),
                            _ => None,
                        };
                        if got.as_ref().map(|g| *g.0) != w {
                            return Err(at(format!("popped {:?}, expected {:?}", got, w)));
                        }
                        drop(got);
                    }
                    crossed += cr;
                    let k = take();
                    st.max("metadata calls per pop run beyond crossing", k.metas.saturating_sub(cr * ht));
                    st.max("metadata calls in one pop run", k.metas);
                    spent.clones += k.clones;
                    spent.metas += k.metas;
                    spent.looks += k.looks;
                    spent.vecm += k.vecm;
                }
                KOp::Peek(left) => {
                    let got = if *left { z.peek_left() } else { z.peek_right() };
                    drop(got);
                    let k = take();
                    st.max("metadata calls per peek", k.metas);
                    st.max("element copies per peek", k.clones);
                    st.max("metadata copies per peek / height", k.looks.saturating_sub(60) / (ht + 2));
                    if k.clones > 4 * (big(&l).max(big(&r)) + 1) || k.metas > 4 * (ht + 2) || k.looks > 100 + 8 * (ht + 2) {
                        return Err(at(format!("peeking cost {:?}", k)));
                    }
                }
                KOp::Arch(left, lev) => {
                    let n = name();
                    let side = if *left { &mut l } else { &mut r };
                    if *left {
                        z.archive_left(*lev, n.clone());
                    } else {
                        z.archive_right(*lev, n.clone());
                    }
                    if matches!(side.last(), Some(Tok::E(_))) {
                        side.push(Tok::B(*lev, tree_name(&n)));
                        arch += 1;
                    }
                    let k = take();
                    st.max("element copies per archive", k.clones);
                    st.max("metadata calls per archive", k.metas);
                    if k.clones > 4 * (big(side) + 1) || k.metas + k.navs > 0 || k.looks > 100 {
                        return Err(at(format!("archiving cost {:?}", k)));
                    }
                }
                KOp::Clone => {
                    let z2 = z.clone();
                    let k = take();
                    st.max("element copies per clone of the cursor form", k.clones);
                    drop(z2);
                    if k.clones > 4 * (big(&l) + big(&r) + 1) || k.metas > 0 || k.looks > 100 {
                        return Err(at(format!("cloning the cursor form cost {:?}", k)));
                    }
                }
                KOp::Move(at_) => {
                    take();
                    tree = std::mem::replace(&mut z, Raz::new()).unfocus();
                    let k = take();
                    let rs: Vec<Tok> = r.iter().rev().cloned().collect();
                    let b = big(&l).max(big(&rs));
                    let cand = joined(&l, &rs);
                    let t2 = if cand.len() == 1 {
                        cand[0].clone()
                    } else {
                        let v: Vec<(u32, ON)> = tree
                            .clone()
                            .fold_lr_meta(std::rc::Rc::new(vec![]), std::rc::Rc::new(|a: std::rc::Rc<Vec<(u32, ON)>>, _: &El| a), std::rc::Rc::new(|mut a: std::rc::Rc<Vec<(u32, ON)>>, b: (u32, ON)| {
                                std::rc::Rc::make_mut(&mut a).push(b);
                                a
                            }))
                            .to_vec();
                        take();
                        cand.into_iter().find(|t| bounds(t) == v).ok_or_else(|| at("archive points after unfocus are not as expected".into()))?
                    };
                    if t2.is_empty() {
                        return Ok(());
                    }
                    let h2 = canonical(&t2).unwrap();
                    let hh = ht + h2.height() as u64 + 2;
                    let parts = 1 + arch;
                    let units = k.metas / (hh * parts);
                    st.max("metadata calls per unfocus / (height sum x parts)", units);
                    st.max("metadata calls per unfocus", k.metas);
                    st.max("metadata copies per unfocus / (height sum x parts)", k.looks.saturating_sub(60) / (hh * parts));
                    st.max("chunk elements shown to metadata per unfocus / (chunk x height x parts)", k.vecm / ((b + 1) * parts));
                    st.max("element copies per unfocus / chunk", k.clones / (b + 1));
                    st.max("metadata copies by pops since focus / (crossings+height)", spent.looks.saturating_sub(60) / (crossed + 1 + hh));
                    st.max("metadata calls by pops since focus / crossings", spent.metas / (crossed + 1));
                    st.max("metadata calls by pops since focus / (crossings+height)", spent.metas / (crossed + 1 + hh));
                    st.max("copies by pushes and pops since focus / (chunk x (crossings+1))", spent.clones / ((b + 1) * (crossed + 1)));
                    if k.metas > 5 * hh * parts {
                        return Err(at(format!("unfocusing computed metadata {} times; tree heights {} and {}, {} archive points set", k.metas, ht, h2.height(), arch)));
                    }
                    if k.clones > 16 * (b + 1) * parts || k.vecm > 40 * (b + 1) * parts {
                        return Err(at(format!("unfocusing copied {} elements and showed {} to metadata; chunks hold at most {}, {} archive points set", k.clones, k.vecm, b, arch)));
                    }
                    if spent.metas > 4 * (crossed + 1 + hh) || spent.clones > 10 * (b + 1) * (crossed + 1) {
                        return Err(at(format!("pushes and pops since the last focus cost {:?}; {} archive points crossed, chunks hold at most {}", spent, crossed, b)));
                    }
                    // every node looked at copies its metadata: only those along the paths may be
                    if k.looks > 100 + 20 * hh * parts {
                        return Err(at(format!("unfocusing copied metadata {} times; tree heights {} and {}, {} archive points set", k.looks, ht, h2.height(), arch)));
                    }
                    if spent.looks > 100 + 20 * (crossed + 1 + hh) {
                        return Err(at(format!("pops since the last focus copied metadata {} times; {} archive points crossed", spent.looks, crossed)));
                    }
                    if k.navs > 0 {
                        return Err(at(format!("unfocusing navigated {} times", k.navs)));
                    }
                    t = t2;
                    h = h2;
                    let n = elems(&t).len();
                    let p = *at_ as usize % (n + 1);
                    z = tree.focus(Ix(Pos::At(p))).ok_or_else(|| format!("focus at {} of {} failed", p, n))?;
                    let k = take();
                    st.max("navigation steps per focus beyond height", k.navs.saturating_sub(h.height() as u64));
                    st.max("element copies per focus / chunk", k.clones / h.max_leaf() as u64);
                    st.max("metadata calls per focus", k.metas);
                    st.max("metadata copies per focus / height", k.looks.saturating_sub(60) / (h.height() as u64 + 1));
                    if k.navs > h.height() as u64 {
                        return Err(at(format!("focusing took {} navigation steps in a tree of height {}", k.navs, h.height())));
                    }
                    if k.looks > 100 + 15 * (h.height() as u64 + 1) {
                        return Err(at(format!("focusing copied metadata {} times in a tree of height {}", k.looks, h.height())));
                    }
                    if k.clones > 2 * h.max_leaf() as u64 {
                        return Err(at(format!("focusing copied {} elements; the greatest chunk holds {}", k.clones, h.max_leaf())));
                    }
                    st.add("focus/unfocus pairs measured", 1);
                    st.max("archive points", bounds(&t).len() as u64);
                    st.seen("distinct (height, archive points)", &(h.height(), bounds(&t).len()));
                    let tp = tok_pos(&t, p);
                    l = t[..tp].to_vec();
                    r = t[tp..].iter().rev().cloned().collect();
                    arch = 0;
                    crossed = 0;
                    pushed = 0;
                    spent = Cost::default();
                    moves += 1;
                }
            }
        }
        let _ = pushed;
        if moves >= 2 {
            st.nontrivial = true;
            st.note = format!("{} moves over {} archive points, height {}", moves, bounds(&t).len(), h.height());
        }
        Ok(())
    }
}

// ---- the tree cursor by itself: `rebuild` is for changed nodes on the way up only

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Nd(u32);
impl TreeUpdate for Nd {
    fn rebuild(_l: Option<&Self>, o: &Self, _: u32, _: ON, _r: Option<&Self>) -> Self {
        bump(&METAS, 1);
        o.clone()
    }
}
fn grow(levs: &[u32], at: u32, k: &mut usize, named: bool) -> Option<Tree<Nd>> {
    let m = *levs.iter().max()?;
    let p = levs.iter().position(|l| *l == m).unwrap();
    let l = grow(&levs[..p], at, k, named);
    let r = grow(&levs[p + 1..], at + p as u32 + 1, k, named);
    *k += 1;
    Tree::new(m, if named { Some(user_name(*k)) } else { None }, Nd(at + p as u32), l, r)
}
fn depth(levs: &[u32]) -> u64 {
    match levs.iter().max() {
        None => 0,
        Some(m) => {
            let p = levs.iter().position(|l| l == m).unwrap();
            1 + depth(&levs[..p]).max(depth(&levs[p + 1..]))
        }
    }
}
fn walk(c: &Case<KOp>, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[2]);
    let n = c.cfg[0].min(512) as usize;
    let spine = rng.chance(1, 4);
    let levs: Vec<u32> = (0..n.min(if spine { 100 } else { 512 })).map(|_| if spine { 2 } else { rng.geo_level() }).collect();
    let t = grow(&levs, 0, &mut 0, c.cfg[3] == 0).unwrap();
    let h = depth(&levs);
    let mut cu = Cursor::from(t);
    take();
    let mut changed = false;
    let mut path: Vec<bool> = vec![];
    let mut moves = 0u64;
    for (i, op) in c.ops.iter().enumerate() {
        let w = match op {
            KOp::Move(w) => *w as u64,
            KOp::Push(_, n) | KOp::Pop(_, n) => *n as u64 * 77,
            KOp::Arch(_, l) => *l as u64 * 131,
            _ => 5,
        };
        let at = |m: String| format!("plain tree cursor, at step {} ({:?}), {} nodes, height {}: {}", i, op, levs.len(), h, m);
        match op {
            KOp::Peek(_) | KOp::Clone => {
                let k = cu.clone();
                let _ = (k.peek(), k.peek_level(), k.peek_name(), k.at_tree(), k.left_tree(), k.right_tree());
                if take().metas > 0 {
                    return Err(at("looking at the focused node rebuilt nodes".into()));
                }
            }
            KOp::Arch(left, _) if w % 3 == 0 => {
                let f = Force::Discard;
                if if *left { cu.down_left_force(f) } else { cu.down_right_force(f) } {
                    changed = true;
                    st.add("nodes discarded", 1);
                }
                if take().metas > 0 {
                    return Err(at("discarding on the way down rebuilt nodes".into()));
                }
            }
            KOp::Move(_) if w % 4 == 3 => {
                // back up without the changes: whether the node above is changed is as it was before
                for _ in 0..1 + w % 2 {
                    if cu.up_discard() == UpResult::Fail {
                        break;
                    }
                    if take().metas > 0 {
                        return Err(at("moving up, discarding changes, rebuilt nodes".into()));
                    }
                    changed = path.pop().unwrap_or(false);
                    moves += 1;
                    st.add("changes discarded on the way up", 1);
                }
            }
            KOp::Pop(..) => {
                for _ in 0..1 + w % 9 {
                    if cu.up() == UpResult::Fail {
                        break;
                    }
                    moves += 1;
                    let k = take().metas;
                    if k > changed as u64 {
                        return Err(at(format!("moving up rebuilt {} nodes; below it {}", k, if changed { "something changed" } else { "nothing changed" })));
                    }
                    let was = path.pop().unwrap_or(false);
                    changed = changed || was;
                }
            }
            _ => {
                let mut w = w.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
                for _ in 0..1 + w % 23 {
                    w = w.rotate_left(7).wrapping_mul(31);
                    let down = match op {
                        KOp::Push(left, _) => if *left { cu.down_left() } else { cu.down_right() },
                        _ => if w % 2 == 0 { cu.down_left() } else { cu.down_right() },
                    };
                    if down {
                        path.push(changed);
                        changed = false;
                        moves += 1;
                    }
                }
                if take().metas > 0 {
                    return Err(at("moving down rebuilt nodes".into()));
                }
            }
        }
    }
    // back to the root
    let mut ups = 0;
    loop {
        let g = cu.up();
        let k = take().metas;
        if g == UpResult::Fail {
            break;
        }
        ups += 1;
        if k > changed as u64 {
            return Err(format!("plain tree cursor, back to the root: moving up rebuilt {} nodes; below it {}", k, if changed { "something changed" } else { "nothing changed" }));
        }
        let was = path.pop().unwrap_or(false);
        changed = changed || was;
    }
    st.add("plain cursor moves", moves + ups);
    st.max("plain cursor tree height", h);
    st.nontrivial = moves >= 4;
    st.note = format!("plain cursor, {} moves in a tree of height {}", moves, h);
    Ok(())
}
