//! Level trees, tree cursors and their iterators, level generators.
use crate::common::*;
use crate::model::{nm, user_name, ON};
use iodyn::level_tree::{gen_branch_level, good_levels, Tree};
use iodyn::tree_cursor::{Cursor, Force, TreeUpdate, UpResult};
use rand::{Rng as RandRng, SeedableRng, XorShiftRng};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {}, expected {}", what, trunc(&format!("{:?}", got), 700), trunc(&format!("{:?}", want), 700)))
    }
}

// ------------------------------------------------------------ level trees

/// plain binary tree of the model
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct N<D> {
    lev: u32,
    name: ON,
    data: D,
    l: Option<Rc<N<D>>>,
    r: Option<Rc<N<D>>>,
}
type ML = Option<Rc<N<u32>>>;

fn build(m: &Rc<N<u32>>) -> Tree<u32> {
    Tree::new(m.lev, m.name.clone(), m.data, m.l.as_ref().map(build), m.r.as_ref().map(build)).unwrap()
}
fn read<D: Debug + Clone + Eq + std::hash::Hash + 'static>(t: &Tree<D>) -> Rc<N<D>> {
    Rc::new(N { lev: t.level(), name: t.name(), data: t.peek(), l: t.l_tree().map(|t| read(&t)), r: t.r_tree().map(|t| read(&t)) })
}
fn levels_ok<D>(m: &N<D>) -> bool {
    m.l.as_ref().map_or(true, |l| l.lev < m.lev && levels_ok(l)) && m.r.as_ref().map_or(true, |r| r.lev <= m.lev && levels_ok(r))
}
fn size<D>(m: &Option<Rc<N<D>>>) -> usize {
    m.as_ref().map_or(0, |m| 1 + size(&m.l) + size(&m.r))
}
fn height<D>(m: &Option<Rc<N<D>>>) -> usize {
    m.as_ref().map_or(0, |m| 1 + height(&m.l).max(height(&m.r)))
}
fn up<R>(m: &Rc<N<u32>>, f: &dyn Fn(Option<R>, u32, u32, ON, Option<R>) -> R) -> R {
    let l = m.l.as_ref().map(|l| up(l, f));
    let r = m.r.as_ref().map(|r| up(r, f));
    f(l, m.data, m.lev, m.name.clone(), r)
}
fn lr(m: &Rc<N<u32>>, start: ON, v: &mut Vec<(u32, u32, ON)>) {
    if m.l.is_none() && m.r.is_none() {
        v.push((m.data, m.lev, start));
        return;
    }
    if let Some(l) = &m.l {
        lr(l, start, v)
    }
    v.push((m.data, m.lev, m.name.clone()));
    if let Some(r) = &m.r {
        lr(r, m.name.clone(), v)
    }
}
fn inord(m: &ML, v: &mut Vec<u32>) {
    if let Some(m) = m {
        inord(&m.l, v);
        v.push(m.data);
        inord(&m.r, v);
    }
}
fn mapped(m: &Rc<N<u32>>) -> Rc<N<(u64, u32)>> {
    let l = m.l.as_ref().map(mapped);
    let r = m.r.as_ref().map(mapped);
    let d = map_fn(m.data, m.lev, &m.name, l.as_ref().map(|l| l.data), r.as_ref().map(|r| r.data));
    Rc::new(N { lev: m.lev, name: m.name.clone(), data: d, l, r })
}
fn map_fn(d: u32, lev: u32, n: &ON, l: Option<(u64, u32)>, r: Option<(u64, u32)>) -> (u64, u32) {
    let mut h = hash64(&(d, lev, n.is_some()));
    h = h.wrapping_mul(31).wrapping_add(l.map_or(7, |l| l.0));
    h = h.wrapping_mul(37).wrapping_add(r.map_or(11, |r| r.0));
    (h, 1 + l.map_or(0, |l| l.1) + r.map_or(0, |r| r.1))
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum TOp {
    /// change the k-th node's data / level
    Data(u32, u32),
    Level(u32, u32),
    /// drop / grow a branch of the k-th node
    Prune(u32, bool),
    Grow(u32, bool, u32, u32),
    /// swap the branches of the k-th node
    Swap(u32),
    /// run everything
    Run,
}
pub struct LevelTreeProp;
impl Prop for LevelTreeProp {
    type Op = TOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 16_000,
            Tier::Thorough => 300_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<TOp> {
        let large = crate::rsim::huge(rng);
        let n = rng.range(1, if large { 10 } else { 60 });
        let grow = if large { rng.range(300, 1500) } else { rng.range(1, 40) };
        let mut v = vec![];
        for _ in 0..grow {
            v.push(TOp::Grow(rng.u64() as u32, rng.chance(1, 2), rng.below(1000) as u32, rng.below(70) as u32));
        }
        v.push(TOp::Run);
        for _ in 0..n {
            v.push(match rng.below(9) {
                0 | 1 => TOp::Data(rng.u64() as u32, rng.below(1000) as u32),
                2 => TOp::Level(rng.u64() as u32, rng.below(70) as u32),
                3 => TOp::Prune(rng.u64() as u32, rng.chance(1, 2)),
                4 | 5 => TOp::Grow(rng.u64() as u32, rng.chance(1, 2), rng.below(1000) as u32, rng.below(70) as u32),
                6 => TOp::Swap(rng.u64() as u32),
                _ => TOp::Run,
            });
        }
        // naming: all, none, mixed; levels: as given, or well ordered
        Case { dcg: idx % 2 == 1, cfg: vec![rng.below(3) as u64, rng.below(3) as u64], ops: v }
    }
    fn run(&self, c: &Case<TOp>, st: &mut Stats) -> Result<(), String> {
        let mut k = 0usize;
        let mut name = |salt: u32| -> ON {
            k += 1;
            match c.cfg[0] {
                0 => Some(user_name(k)),
                1 => None,
                _ if salt % 2 == 0 => Some(user_name(k)),
                _ => None,
            }
        };
        let mut m: Rc<N<u32>> = Rc::new(N { lev: 40, name: name(0), data: 1, l: None, r: None });
        // trees of earlier rounds; checked again when nothing named can have been overwritten
        let mut old: Vec<(Tree<u32>, Rc<N<u32>>)> = vec![];
        let persistent = !c.dcg || c.cfg[0] == 1;
        let mut runs = 0;
        let proper = c.cfg[1] == 0;
        for (i, op) in c.ops.iter().enumerate() {
            let n = size(&Some(m.clone()));
            let mut nn = || name(i as u32);
            match op {
                TOp::Data(k, d) => m = edit(&m, *k as usize % n, &mut |x| x.data = *d),
                TOp::Level(k, l) => {
                    if !proper {
                        m = edit(&m, *k as usize % n, &mut |x| x.lev = *l)
                    }
                }
                TOp::Prune(k, left) => m = edit(&m, *k as usize % n, &mut |x| if *left { x.l = None } else { x.r = None }),
                TOp::Grow(k, left, d, l) => {
                    let name = nn();
                    m = edit(&m, *k as usize % n, &mut |x| {
                        let lev = if proper { x.lev.saturating_sub(if *left { 1 } else { l % 2 }) } else { *l };
                        if proper && *left && x.lev == 0 {
                            return;
                        }
                        let nl = Some(Rc::new(N { lev, name: name.clone(), data: *d, l: None, r: None }));
                        let slot = if *left { &mut x.l } else { &mut x.r };
                        if slot.is_none() {
                            *slot = nl
                        }
                    })
                }
                TOp::Swap(k) => {
                    if !proper {
                        m = edit(&m, *k as usize % n, &mut |x| std::mem::swap(&mut x.l, &mut x.r))
                    }
                }
                TOp::Run => {
                    let t = build(&m);
                    tree_checks(&t, &m, st).map_err(|e| format!("at operation {}: {}", i, e))?;
                    runs += 1;
                    if persistent && old.len() < 4 {
                        old.push((t, m.clone()));
                    }
                }
            }
        }
        let t = build(&m);
        tree_checks(&t, &m, st).map_err(|e| format!("at the end: {}", e))?;
        tree_checks(&t, &m, st).map_err(|e| format!("re-run unchanged at the end: {}", e))?;
        for (j, (t, m)) in old.iter().enumerate() {
            ns(name_pair(nm("old"), name_of_usize(j)), || tree_checks(t, m, st)).map_err(|e| format!("an earlier tree: {}", e))?;
            st.add("earlier trees re-examined", 1);
        }
        st.max("tree height", height(&Some(m.clone())) as u64);
        st.seen("distinct trees", &m);
        if runs >= 1 && size(&Some(m.clone())) >= 3 {
            st.nontrivial = true;
            st.note = format!("{} runs; final tree {}", runs + 2, trunc(&format!("{:?}", m), 300));
        }
        Ok(())
    }
}
fn edit(m: &Rc<N<u32>>, k: usize, f: &mut dyn FnMut(&mut N<u32>)) -> Rc<N<u32>> {
    // k-th in order
    let mut x = (**m).clone();
    let nl = size(&x.l);
    if k < nl {
        x.l = Some(edit(x.l.as_ref().unwrap(), k, f));
    } else if k == nl {
        f(&mut x);
    } else {
        x.r = Some(edit(x.r.as_ref().unwrap(), k - nl - 1, f));
    }
    Rc::new(x)
}
fn proper_tree(rng: &mut Rng, lev: u32, depth: u32) -> Rc<N<u32>> {
    let go = |rng: &mut Rng, max: u32| -> ML {
        if depth == 0 || rng.chance(1, 4) {
            return None;
        }
        let l = if rng.chance(1, 2) { max } else { rng.below(max as usize + 1) as u32 };
        Some(proper_tree(rng, l, depth - 1))
    };
    let l = if lev == 0 { None } else { go(rng, lev - 1) };
    let r = go(rng, lev);
    Rc::new(N { lev, name: None, data: 0, l, r })
}
/// the level checker on a tree with proper levels, and on that tree with one or two levels changed
pub fn level_checker(seed: u64, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(seed);
    let top = *rng.pick(&[2u32, 4, 30, u32::max_value() - 1]);
    let depth = rng.range(1, 5) as u32;
    let mut m = proper_tree(&mut rng, top, depth);
    for round in 0..4 {
        let (got, want) = (good_levels(&build(&m)), levels_ok(&m));
        if got != want {
            return Err(format!("the level checker says {} of the tree {}", got, trunc(&format!("{:?}", m), 500)));
        }
        st.add(if want { "proper level orders checked" } else { "improper level orders checked" }, 1);
        if round > 0 && rng.chance(1, 2) {
            m = proper_tree(&mut rng, top, depth);
        }
        let n = size(&Some(m.clone()));
        let k = rng.below(n);
        let how = rng.below(4);
        let any = rng.below(6) as u32;
        m = edit(&m, k, &mut |x| {
            x.lev = match how {
                0 => x.lev.saturating_add(1),
                1 => x.lev.saturating_sub(1),
                2 => x.r.as_ref().map_or(any, |r| r.lev.saturating_sub(1)),
                _ => x.l.as_ref().map_or(any, |l| l.lev),
            }
        });
    }
    Ok(())
}
fn tree_checks(t: &Tree<u32>, m: &Rc<N<u32>>, st: &mut Stats) -> Result<(), String> {
    same("the tree read back", read(t), m.clone())?;
    let lab = |s: &str| nm(&format!("lt-{}", s));
    type Rec = Rc<N<u32>>;
    let g: Rec = ns(lab("up-meta"), || {
        t.clone().fold_up_meta(Rc::new(|l: Option<Rec>, d: u32, lev: u32, name: ON, r: Option<Rec>| Rc::new(N { lev, name, data: d, l, r })))
    });
    same("fold_up_meta reconstruction", g, m.clone())?;
    let f = |l: Option<String>, d: u32, r: Option<String>| format!("({} {} {})", l.unwrap_or_default(), d, r.unwrap_or_default());
    let g: String = ns(lab("up"), || t.clone().fold_up(Rc::new(f)));
    let w: String = up(m, &|l, d, _, _, r| f(l, d, r));
    same("fold_up", g, w)?;
    let g: u64 = ns(lab("up-sum"), || t.clone().fold_up(Rc::new(|l: Option<u64>, d: u32, r: Option<u64>| l.unwrap_or(0) + d as u64 + r.unwrap_or(0))));
    let mut v = vec![];
    inord(&Some(m.clone()), &mut v);
    same("sum by fold_up", g, v.iter().map(|x| *x as u64).sum())?;
    type Ev = Rc<Vec<u32>>;
    let g: Ev = ns(lab("lr"), || {
        t.clone().fold_lr(
            Rc::new(vec![5u32]),
            Rc::new(|mut a: Ev, d: u32| {
                Rc::make_mut(&mut a).push(d);
                a
            }),
        )
    });
    let mut w = vec![5u32];
    w.extend(v.iter());
    same("fold_lr", (*g).clone(), w)?;
    type Evm = Rc<Vec<(u32, u32, ON)>>;
    for start in [None, Some(nm("begin"))] {
        let s2 = start.clone();
        let g: Evm = ns(lab(if start.is_none() { "lrm0" } else { "lrm1" }), || {
            t.clone().fold_lr_meta(
                s2,
                Rc::new(vec![]),
                Rc::new(|mut a: Evm, d: u32, l: u32, n: ON| {
                    Rc::make_mut(&mut a).push((d, l, n));
                    a
                }),
            )
        });
        let mut w = vec![];
        lr(m, start, &mut w);
        same("fold_lr_meta", (*g).clone(), w)?;
    }
    let g: Tree<(u64, u32)> = ns(lab("map"), || {
        t.clone().map(Rc::new(|d: u32, lev: u32, n: ON, l: Option<&Tree<(u64, u32)>>, r: Option<&Tree<(u64, u32)>>| {
            map_fn(d, lev, &n, l.map(|t| t.peek()), r.map(|t| t.peek()))
        }))
    });
    same("map", read(&g), mapped(m))?;
    // and fold the mapped tree
    let gs: u64 = ns(lab("map-up"), || g.fold_up(Rc::new(|l: Option<u64>, d: (u64, u32), r: Option<u64>| l.unwrap_or(0).wrapping_add(d.0).wrapping_add(r.unwrap_or(0)))));
    fn tot(m: &N<(u64, u32)>) -> u64 {
        m.data.0.wrapping_add(m.l.as_ref().map_or(0, |m| tot(m))).wrapping_add(m.r.as_ref().map_or(0, |m| tot(m)))
    }
    same("fold_up of the mapped tree", gs, tot(&mapped(m)))?;
    same("good_levels", good_levels(t), levels_ok(m))?;
    same("Clone/Eq", t.clone() == *t, true)?;
    st.add("trees computed over", 1);
    st.add("nodes", v.len() as u64);
    Ok(())
}

// ------------------------------------------------------------ cursors

/// node data that records the subtree it was (re)built for
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dat {
    id: u32,
    /// ids in order of the subtree this was built for; None until the library built it
    sub: Rc<Vec<u32>>,
    lev: u32,
    name: ON,
}
thread_local! {
    static REBUILDS: Cell<u64> = Cell::new(0);
}
impl TreeUpdate for Dat {
    fn rebuild(l: Option<&Self>, old: &Self, level: u32, name: ON, r: Option<&Self>) -> Self {
        REBUILDS.with(|c| c.set(c.get() + 1));
        let mut v = vec![];
        if let Some(l) = l {
            v.extend(l.sub.iter())
        }
        v.push(old.id);
        if let Some(r) = r {
            v.extend(r.sub.iter())
        }
        Dat { id: old.id, sub: Rc::new(v), lev: level, name }
    }
}
/// (id, level, name)
type Nd = (u32, u32, ON);
/// what the cursor stands for
#[derive(Clone, Debug)]
struct Z {
    s: Vec<Nd>,
    /// focused subtree: s[a..b] (empty: a branch that is not there)
    a: usize,
    b: usize,
    /// (index of the parent, what its subtree held when it was left) for moves that can be undone
    marks: Vec<Mark>,
    /// the cursor's ends come from split: there is nothing above on that side
    changed: bool,
}
#[derive(Clone, Debug)]
struct Mark {
    sub: Vec<Nd>,
}
fn root(s: &[Nd]) -> usize {
    let mut k = 0;
    for i in 1..s.len() {
        if s[i].1 > s[k].1 {
            k = i
        }
    }
    k
}
impl Z {
    fn root(&self) -> Option<usize> {
        if self.a == self.b {
            None
        } else {
            Some(self.a + root(&self.s[self.a..self.b]))
        }
    }
    /// the subtree ranges from the whole sequence down to the focus
    fn path(&self) -> Vec<(usize, usize)> {
        let mut p = vec![];
        let (mut a, mut b) = (0, self.s.len());
        while (a, b) != (self.a, self.b) {
            p.push((a, b));
            if a == b {
                panic!("harness: focus [{},{}) is not a subtree of {:?}", self.a, self.b, self.s);
            }
            let r = a + root(&self.s[a..b]);
            if self.b <= r {
                b = r
            } else {
                assert!(self.a > r, "harness: focus straddles a node");
                a = r + 1
            }
        }
        p
    }
}
fn want_tree(s: &[Nd]) -> Option<Rc<N<u32>>> {
    if s.is_empty() {
        return None;
    }
    let k = root(s);
    Some(Rc::new(N { lev: s[k].1, name: s[k].2.clone(), data: s[k].0, l: want_tree(&s[..k]), r: want_tree(&s[k + 1..]) }))
}
fn ids(t: &Option<Tree<Dat>>) -> Result<Option<Rc<N<u32>>>, String> {
    fn go(t: &Tree<Dat>, v: &mut Vec<u32>) -> Result<Rc<N<u32>>, String> {
        let d = t.peek();
        let k = v.len();
        let l = match t.l_tree() {
            None => None,
            Some(l) => Some(go(&l, v)?),
        };
        v.push(d.id);
        let r = match t.r_tree() {
            None => None,
            Some(r) => Some(go(&r, v)?),
        };
        if d.sub[..] != v[k..] {
            return Err(format!("the data of node {} was built for the subtree {:?}, but its subtree is {:?}", d.id, d.sub, &v[k..]));
        }
        if d.lev != t.level() || d.name != t.name() {
            return Err(format!("the data of node {} was built for level {} and name {:?}, but it has {} and {:?}", d.id, d.lev, d.name, t.level(), t.name()));
        }
        Ok(Rc::new(N { lev: t.level(), name: t.name(), data: d.id, l, r }))
    }
    match t {
        None => Ok(None),
        Some(t) => go(t, &mut vec![]).map(Some),
    }
}
fn dat_tree(s: &[Nd]) -> Option<Tree<Dat>> {
    if s.is_empty() {
        return None;
    }
    let k = root(s);
    let l = dat_tree(&s[..k]);
    let r = dat_tree(&s[k + 1..]);
    let d = Dat { id: s[k].0, sub: Rc::new(s.iter().map(|x| x.0).collect()), lev: s[k].1, name: s[k].2.clone() };
    Tree::new(s[k].1, s[k].2.clone(), d, l, r)
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum COp {
    DownL(u8),
    DownR(u8),
    Up,
    UpDiscard,
    Top,
    /// go to the k-th node
    Seek(u32),
    /// split here; keep the pieces
    Split,
    /// join two pieces around a new node
    Join(u32),
    /// join them around the node split on
    Rejoin,
    /// change piece
    Pick(u32),
    Iter,
    Keep,
}
pub struct CursorProp {
    pub iter_only: bool,
}
impl Prop for CursorProp {
    type Op = COp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 24_000,
            Tier::Thorough => 400_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<COp> {
        let large = crate::rsim::huge(rng);
        let n = if large { rng.range(4, 24) } else { rng.range(1, 60) };
        let it = if self.iter_only { 8 } else { 1 };
        let mut v = vec![];
        for _ in 0..n {
            v.push(match rng.weighted(&[10, 10, 6, 3, 1, 6, 4, 3, 3, 2, it, 2]) {
                0 => COp::DownL(rng.below(6) as u8),
                1 => COp::DownR(rng.below(6) as u8),
                2 => COp::Up,
                3 => COp::UpDiscard,
                4 => COp::Top,
                5 => COp::Seek(rng.u64() as u32),
                6 => COp::Split,
                7 => COp::Join(rng.below(70) as u32),
                8 => COp::Rejoin,
                9 => COp::Pick(rng.u64() as u32),
                10 => COp::Iter,
                _ => COp::Keep,
            });
        }
        let size = if large { *rng.pick(&[700u64, 1500, 3000]) } else { *rng.pick(&[0u64, 1, 2, 3, 7, 15, 31, 63, 100]) };
        let levs = if large { *rng.pick(&[0u64, 0, 4]) } else { rng.below(5) as u64 };
        // naming (all, none, mixed), level distribution, nodes, seed
        Case {
            dcg: idx % 2 == 1,
            cfg: vec![rng.below(3) as u64, levs, size, rng.u64()],
            ops: v,
        }
    }
    fn run(&self, c: &Case<COp>, st: &mut Stats) -> Result<(), String> {
        let mut rng = Rng::new(c.cfg[3]);
        let mut k = 0usize;
        let mut s: Vec<Nd> = vec![];
        let mut fresh = |lev: u32| -> Nd {
            k += 1;
            let named = match c.cfg[0] {
                0 => true,
                1 => false,
                _ => k % 3 != 0,
            };
            (k as u32, lev, if named { Some(user_name(k)) } else { None })
        };
        for i in 0..c.cfg[2] {
            let lev = match c.cfg[1] {
                0 => rng.geo_level(),
                1 => rng.below(3) as u32,
                2 => i as u32,
                3 => 1000 - i as u32,
                _ => rng.range(1, 64) as u32,
            };
            s.push(fresh(lev));
        }
        // with named nodes in the incremental engine, rebuilding a node replaces what older copies see
        let persistent = !c.dcg || c.cfg[0] == 1;
        let start: Cursor<Dat> = match dat_tree(&s) {
            None => {
                let e: Cursor<Dat> = Cursor::with_depth(c.cfg[3] as usize % 50);
                same("an empty cursor made with a depth, and one without", &e, &Cursor::new())?;
                if c.cfg[3] % 2 == 0 { e } else { Cursor::new() }
            }
            Some(t) => t.into(),
        };
        if persistent {
            plain_check(&s, c.cfg[3], st)?;
        }
        let n = s.len();
        // pieces with their models, and the nodes split on
        let mut ps: Vec<(Cursor<Dat>, Z)> = vec![(start, Z { s, a: 0, b: n, marks: vec![], changed: false })];
        let mut holes: Vec<Nd> = vec![];
        let mut cur = 0usize;
        let mut kept: Vec<(Cursor<Dat>, Z)> = vec![];
        let (mut splits, mut joins) = (0u64, 0u64);
        for (i, op) in c.ops.iter().enumerate() {
            let at = |m: String| format!("at operation {} ({:?}): {}", i, op, m);
            st.add("operations", 1);
            match op {
                COp::DownL(f) | COp::DownR(f) => {
                    let left = matches!(op, COp::DownL(_));
                    let (cu, z) = &mut ps[cur];
                    down(cu, z, left, *f, st).map_err(at)?;
                }
                COp::Up => {
                    let (cu, z) = &mut ps[cur];
                    up_one(cu, z, st).map_err(at)?;
                }
                COp::UpDiscard => {
                    let (cu, z) = &mut ps[cur];
                    // restoring what was there needs the older copy intact
                    if z.marks.is_empty() || (!persistent && z.changed) {
                        continue;
                    }
                    let p = z.path();
                    let (a, b) = *p.last().unwrap();
                    let m = z.marks.pop().unwrap();
                    let right_child = z.a > a + root(&z.s[a..b]);
                    let w = if right_child { UpResult::Left } else { UpResult::Right };
                    let g = cu.up_discard();
                    if g != w {
                        return Err(at(format!("up_discard moved {}, expected {}", dir(g), dir(w))));
                    }
                    let tail = z.s.split_off(b);
                    z.s.truncate(a);
                    z.s.extend(m.sub);
                    z.a = a;
                    z.b = z.s.len();
                    z.s.extend(tail);
                    st.add("changes discarded by moving up", 1);
                }
                COp::Top => {
                    let (cu, z) = &mut ps[cur];
                    top(cu, z, st).map_err(at)?;
                }
                COp::Seek(k) => {
                    let (cu, z) = &mut ps[cur];
                    top(cu, z, st).map_err(at)?;
                    if z.s.is_empty() {
                        continue;
                    }
                    let k = *k as usize % z.s.len();
                    loop {
                        let r = z.root().unwrap();
                        if r == k {
                            break;
                        }
                        down(cu, z, k < r, 0, st).map_err(at)?;
                    }
                }
                COp::Split => {
                    let (cu, z) = ps.remove(cur);
                    let r = z.root();
                    if !persistent {
                        // (shared names: the pieces go their own ways, no one looks back)
                    }
                    let (lc, t, rc) = cu.split();
                    let (ls, mid, rs, la, rb) = match r {
                        None => (z.s[..z.a].to_vec(), None, z.s[z.a..].to_vec(), z.a, 0),
                        Some(r) => (z.s[..r].to_vec(), Some(z.s[r].clone()), z.s[r + 1..].to_vec(), z.a, z.b - r - 1),
                    };
                    let wt = want_tree(&z.s[z.a..z.b]);
                    same("the tree split on", ids(&t).map_err(at)?, wt).map_err(at)?;
                    let ln = ls.len();
                    cur = cur.min(ps.len());
                    ps.insert(cur, (lc, Z { s: ls, a: la, b: ln, marks: vec![], changed: true }));
                    ps.insert(cur + 1, (rc, Z { s: rs, a: 0, b: rb, marks: vec![], changed: true }));
                    if let Some(m) = mid {
                        holes.push(m);
                    }
                    splits += 1;
                    local(&ps[cur].0, &ps[cur].1, st).map_err(|e| at(format!("left piece: {}", e)))?;
                    local(&ps[cur + 1].0, &ps[cur + 1].1, st).map_err(|e| at(format!("right piece: {}", e)))?;
                }
                COp::Join(_) | COp::Rejoin => {
                    if ps.len() < 2 {
                        continue;
                    }
                    let node = match op {
                        COp::Join(lev) => fresh(if c.cfg[1] == 0 { 1 + lev % 12 } else { *lev }),
                        _ => match holes.pop() {
                            Some(h) => h,
                            None => continue,
                        },
                    };
                    let j = cur.min(ps.len() - 2);
                    let (lc, lz) = ps.remove(j);
                    let (rc, rz) = ps.remove(j);
                    // data given to join carries only the id
                    let d = Dat { id: node.0, sub: Rc::new(vec![]), lev: 0, name: None };
                    let jc = Cursor::join(lc, node.1, node.2.clone(), d, rc);
                    let mut s = lz.s;
                    let k = s.len();
                    s.push(node);
                    s.extend(rz.s);
                    // focus: the subtree rooted at the new node
                    let (mut a, mut b) = (0, s.len());
                    loop {
                        let r = a + root(&s[a..b]);
                        if r == k {
                            break;
                        }
                        if k < r {
                            b = r
                        } else {
                            a = r + 1
                        }
                    }
                    ps.insert(j, (jc, Z { s, a, b, marks: vec![], changed: true }));
                    cur = j;
                    joins += 1;
                }
                COp::Pick(k) => cur = *k as usize % ps.len(),
                COp::Iter => {
                    let (cu, z) = &ps[cur];
                    if z.s.is_empty() && !persistent {
                        continue;
                    }
                    iter_check(cu, z, c.dcg, i, st).map_err(at)?;
                }
                COp::Keep => {
                    if persistent && kept.len() < 3 {
                        kept.push(ps[cur].clone());
                    } else if persistent && !kept.is_empty() {
                        // go on from an older cursor
                        ps = vec![kept[i % kept.len()].clone()];
                        cur = 0;
                        holes.clear();
                        st.add("branches from a kept cursor", 1);
                    }
                }
            }
            if cur >= ps.len() {
                cur = 0;
            }
            let (cu, z) = &ps[cur];
            local(cu, z, st).map_err(at)?;
            if persistent {
                whole(cu, z, st).map_err(at)?;
            }
        }
        for (cu, mut z) in ps {
            let mut cu = cu;
            top(&mut cu, &mut z, st).map_err(|e| format!("at the end: {}", e))?;
            same("the whole tree at the end", ids(&cu.at_tree())?, want_tree(&z.s))?;
            if let Some(t) = cu.at_tree() {
                same("good_levels of a tree the cursor built", good_levels(&t), true)?;
            }
            st.max("nodes", z.s.len() as u64);
        }
        for (j, (cu, z)) in kept.iter().enumerate() {
            local(cu, z, st).map_err(|e| format!("kept cursor {}: {}", j, e))?;
            whole(cu, z, st).map_err(|e| format!("kept cursor {}: {}", j, e))?;
            st.add("kept cursors re-examined", 1);
        }
        st.add("splits", splits);
        st.add("joins", joins);
        if self.iter_only {
            st.nontrivial = c.cfg[2] >= 3 && c.ops.iter().any(|o| *o == COp::Iter);
        } else {
            st.nontrivial = c.cfg[2] >= 3 && splits + joins >= 1;
        }
        st.note = format!("{} splits, {} joins over {} nodes", splits, joins, c.cfg[2]);
        Ok(())
    }
}
/// data that opts into the derived update: a changed tree keeps each node's own data
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Plain(u32);
impl iodyn::tree_cursor::DeriveTreeUpdate for Plain {}
fn plain_check(s: &[Nd], seed: u64, st: &mut Stats) -> Result<(), String> {
    fn build(s: &[Nd]) -> Option<Tree<Plain>> {
        if s.is_empty() {
            return None;
        }
        let k = root(s);
        Tree::new(s[k].1, s[k].2.clone(), Plain(s[k].0), build(&s[..k]), build(&s[k + 1..]))
    }
    fn go(t: &Option<Tree<Plain>>, v: &mut Vec<(u32, u32)>) {
        if let Some(t) = t {
            go(&t.l_tree(), v);
            v.push((t.peek().0, t.level()));
            go(&t.r_tree(), v);
        }
    }
    let mut rng = Rng::new(seed ^ 0x91a1);
    let mut cu: Cursor<Plain> = match build(s) {
        None => return Ok(()),
        Some(t) => Cursor::from(t),
    };
    loop {
        let moved = match rng.below(5) {
            0 | 1 => cu.down_left(),
            2 | 3 => cu.down_right(),
            _ => break,
        };
        if !moved {
            break;
        }
    }
    let id = cu.peek().unwrap().0;
    let k = s.iter().position(|x| x.0 == id).unwrap();
    let (lc, _, rc) = cu.split();
    // the node split on comes back with other data and another level
    let lev = 1 + rng.below(70) as u32;
    let name = if s[k].2.is_some() { Some(user_name(1_000_000)) } else { None };
    let mut cu = Cursor::join(lc, lev, name, Plain(999_999), rc);
    while cu.up() != UpResult::Fail {}
    let mut want: Vec<(u32, u32)> = s.iter().map(|x| (x.0, x.1)).collect();
    want[k] = (999_999, lev);
    let mut got = vec![];
    go(&cu.at_tree(), &mut got);
    st.add("trees with derived updates changed", 1);
    same("data and levels of a tree with derived updates after a change", got, want)
}
fn dir(u: UpResult) -> &'static str {
    match u {
        UpResult::Fail => "nowhere",
        UpResult::Left => "left",
        UpResult::Right => "right",
    }
}
fn down(cu: &mut Cursor<Dat>, z: &mut Z, left: bool, f: u8, st: &mut Stats) -> Result<(), String> {
    let force = match f {
        0..=3 => Force::No,
        4 => Force::Yes,
        _ => Force::Discard,
    };
    let r = z.root();
    let want = match r {
        None => false,
        Some(r) => force != Force::No || if left { r > z.a } else { r + 1 < z.b },
    };
    let got = match (left, f) {
        (true, 0) | (true, 1) => cu.down_left(),
        (false, 0) | (false, 1) => cu.down_right(),
        (true, _) => cu.down_left_force(force),
        (false, _) => cu.down_right_force(force),
    };
    if got != want {
        return Err(format!("moving down {} returned {}, expected {}", if left { "left" } else { "right" }, got, want));
    }
    if !want {
        return Ok(());
    }
    let r = r.unwrap();
    if force == Force::Discard {
        // this node and its other branch go away
        if left {
            z.s.drain(r..z.b);
            z.b = r;
        } else {
            let n = z.b - (r + 1);
            z.s.drain(z.a..=r);
            z.b = z.a + n;
        }
        z.changed = true;
        st.add("nodes discarded", 1);
    } else {
        z.marks.push(Mark { sub: z.s[z.a..z.b].to_vec() });
        if left {
            z.b = r
        } else {
            z.a = r + 1
        }
        st.add("moves down", 1);
    }
    Ok(())
}
fn up_one(cu: &mut Cursor<Dat>, z: &mut Z, st: &mut Stats) -> Result<bool, String> {
    let p = z.path();
    let g = cu.up();
    match p.last() {
        None => {
            if g != UpResult::Fail {
                return Err(format!("up from the root moved {}", dir(g)));
            }
            Ok(false)
        }
        Some(&(a, b)) => {
            let r = a + root(&z.s[a..b]);
            let w = if z.a > r { UpResult::Left } else { UpResult::Right };
            if g != w {
                return Err(format!("up moved {}, expected {}", dir(g), dir(w)));
            }
            z.a = a;
            z.b = b;
            z.marks.pop();
            st.add("moves up", 1);
            Ok(true)
        }
    }
}
fn top(cu: &mut Cursor<Dat>, z: &mut Z, st: &mut Stats) -> Result<(), String> {
    while up_one(cu, z, st)? {}
    Ok(())
}
/// what is visible at the focus
fn local(cu: &Cursor<Dat>, z: &Z, st: &mut Stats) -> Result<(), String> {
    let w = want_tree(&z.s[z.a..z.b]);
    let at = cu.at_tree();
    same("the focused tree", ids(&at)?, w.clone())?;
    same("peek", cu.peek().map(|d| d.id), w.as_ref().map(|w| w.data))?;
    same("peek_level", cu.peek_level(), w.as_ref().map(|w| w.lev))?;
    same("peek_name", cu.peek_name(), w.as_ref().and_then(|w| w.name.clone()))?;
    same("left_tree", ids(&cu.left_tree())?, w.as_ref().and_then(|w| w.l.clone()))?;
    same("right_tree", ids(&cu.right_tree())?, w.as_ref().and_then(|w| w.r.clone()))?;
    st.add("focused subtrees compared", 1);
    Ok(())
}
/// everything, by moving a copy to the root
fn whole(cu: &Cursor<Dat>, z: &Z, st: &mut Stats) -> Result<(), String> {
    let mut c = cu.clone();
    let mut n = 0;
    while c.up() != UpResult::Fail {
        n += 1;
        if n > z.s.len() + 5 {
            return Err("moving up never reaches the root".into());
        }
    }
    same("the whole tree", ids(&c.at_tree())?, want_tree(&z.s))?;
    if let Some(t) = c.at_tree() {
        same("good_levels of a tree the cursor built", good_levels(&t), true)?;
    }
    st.add("whole trees compared", 1);
    st.seen("distinct trees", &z.s);
    Ok(())
}
fn iter_check(cu: &Cursor<Dat>, z: &Z, dcg: bool, i: usize, st: &mut Stats) -> Result<(), String> {
    let rest: Vec<u32> = match z.root() {
        None => z.s[z.a..].iter().map(|n| n.0).collect(),
        Some(r) => z.s[r + 1..].iter().map(|n| n.0).collect(),
    };
    let (_, t, it) = cu.clone().into_iters();
    same("the tree between the iterators", ids(&t)?, want_tree(&z.s[z.a..z.b]))?;
    let mut it2 = it.clone();
    let mut got = vec![];
    while let Some(d) = it2.next() {
        got.push(d.id);
        if got.len() > rest.len() + 3 {
            break;
        }
    }
    same("iteration to the right", got, rest.clone())?;
    if it2.next().is_some() {
        return Err("an exhausted iterator goes on".into());
    }
    type Acc = (u64, u64);
    let f = |a: Acc, d: Dat| (a.0.wrapping_mul(1_000_003).wrapping_add(d.id as u64), a.1 + 1);
    let g: Acc = ns(name_pair(nm("fold-out"), name_of_usize(i)), || it.clone().fold_out((17, 0), Rc::new(f)));
    let w = rest.iter().fold((17u64, 0u64), |a, id| (a.0.wrapping_mul(1_000_003).wrapping_add(*id as u64), a.1 + 1));
    same("fold_out", g, w)?;
    // the same computation in a fixed namespace, repeated as the sequence changes
    if dcg {
        let g: Acc = ns(nm("fold-out again"), || it.clone().fold_out((17, 0), Rc::new(f)));
        same("fold_out re-run after changes", g, w)?;
        st.add("incremental re-runs of fold_out", 1);
    }
    st.add("iterations compared", 1);
    st.max("longest iteration", rest.len() as u64);
    st.seen("distinct iterations", &rest);
    Ok(())
}

// ------------------------------------------------------------ level generators

pub struct LevelsProp;
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum GOp {
    Sample(u32),
}
struct Fixed(u64);
impl RandRng for Fixed {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0
    }
}
impl Prop for LevelsProp {
    type Op = GOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 1200,
            Tier::Thorough => 4_000,
        }
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<GOp> {
        // a few batches are large enough to see every level up to 15 often
        let n = match (idx / 4) % 160 {
            _ if idx % 4 == 3 => 20_000,
            7 => 32_000_000,
            47 | 87 | 127 => 4_000_000,
            _ => 20_000,
        };
        Case { dcg: false, cfg: vec![idx % 4, rng.u64()], ops: vec![GOp::Sample(n)] }
    }
    fn run(&self, c: &Case<GOp>, st: &mut Stats) -> Result<(), String> {
        use iodyn::trees::NegBin;
        let GOp::Sample(n) = c.ops.first().cloned().unwrap_or(GOp::Sample(20_000));
        let n = n as u64;
        let top = (63 - n.leading_zeros()).saturating_sub(6).min(18).max(8); // the rarest bins expect 78 or more draws
        let mut prev = 0u32;
        let mut pairs = [[0u64; 5]; 5];
        let seed = [c.cfg[1] as u32 | 1, (c.cfg[1] >> 32) as u32, 77, 5];
        let mut xr = XorShiftRng::from_seed(seed);
        let mut r2 = Rng::new(c.cfg[1]);
        let mut hist: BTreeMap<u32, u64> = BTreeMap::new();
        let what = ["gen_branch_level", "NegBin", "inc_level", "gen_branch_level on chosen bits"][c.cfg[0] as usize];
        let mut seq = vec![];
        for i in 0..n {
            let l = match c.cfg[0] {
                0 => gen_branch_level(&mut xr),
                1 => xr.gen::<NegBin>().0 as u32,
                2 => iodyn::inc_level(),
                _ => {
                    // extreme generator outputs: few bits set, or none
                    let b = match i % 3 {
                        0 => 0,
                        1 => 1u64 << r2.below(64),
                        _ => r2.u64() << r2.below(64),
                    };
                    let l = gen_branch_level(&mut Fixed(b));
                    if !(1..=64).contains(&l) {
                        return Err(format!("{} on random word {:#x}: level {} is outside 1..=64", what, b, l));
                    }
                    let nb = Fixed(b).gen::<NegBin>().0 as u32;
                    if !(1..=64).contains(&nb) {
                        return Err(format!("NegBin on random word {:#x}: level {} is outside 1..=64", b, nb));
                    }
                    l
                }
            };
            if !(1..=64).contains(&l) {
                return Err(format!("{}: level {} is outside 1..=64", what, l));
            }
            *hist.entry(l).or_insert(0) += 1;
            if seq.len() < 4096 {
                seq.push(l);
            }
            // frequencies of consecutive draws (levels above 4 together)
            let q = l.min(5);
            if i % 2 == 1 {
                pairs[prev as usize - 1][q as usize - 1] += 1;
            }
            prev = q;
        }
        st.add("levels drawn", n);
        if c.cfg[0] < 2 {
            // the levels are a function of the source
            let mut xr = XorShiftRng::from_seed(seed);
            for (i, l) in seq.iter().enumerate() {
                let again = if c.cfg[0] == 0 { gen_branch_level(&mut xr) } else { xr.gen::<NegBin>().0 as u32 };
                if again != *l {
                    return Err(format!("{}: draw {} gives level {}, and {} from an equal source", what, i, l, again));
                }
            }
            st.seen("level sequences", &seq);
        }
        st.max("greatest level drawn", *hist.keys().max().unwrap() as u64);
        if c.cfg[0] != 3 {
            // each level half as likely as the one below; 8 sigma on 20000 draws (chance of a false alarm < 1e-14 per bin)
            for k in 1..=top + 1 {
                // the last bin holds all greater levels
                let p = 0.5f64.powi(k.min(top) as i32);
                let e = n as f64 * p;
                let sd = (n as f64 * p * (1.0 - p)).sqrt();
                let g = if k > top { hist.range(k..).map(|(_, c)| *c).sum::<u64>() } else { *hist.get(&k).unwrap_or(&0) } as f64;
                if (g - e).abs() > 8.0 * sd {
                    let m = if k > top { " or more" } else { "" };
                    return Err(format!("{}: level {}{} drawn {} times of {}, expected about {:.0}", what, k, m, g, n, e));
                }
                st.add("frequencies compared", 1);
                st.max("greatest level whose frequency was compared", k.min(top) as u64);
            }
            // consecutive draws are independent
            let q = |k: usize| 0.5f64.powi((k + 1).min(4) as i32);
            for a in 0..5 {
                for b in 0..5 {
                    let m = (n / 2) as f64;
                    let p = q(a) * q(b);
                    let (e, sd, g) = (m * p, (m * p * (1.0 - p)).sqrt(), pairs[a][b] as f64);
                    if (g - e).abs() > 8.0 * sd {
                        return Err(format!("{}: level {} followed by {} {} times of {}, expected about {:.0}", what, a + 1, b + 1, g, m, e));
                    }
                    st.add("frequencies of consecutive pairs compared", 1);
                }
            }
            // the trees these levels determine are balanced: leftmost-greatest-root height of all n
            let m = 4096;
            let h = cart_height(&seq[..m]);
            st.max("height of a tree of 4096 generated levels", h as u64);
            // expected about 2.9*log2(n) in the tie-heavy geometric case is ~26; degenerate sources give hundreds
            if h > 120 {
                return Err(format!("{}: a tree over {} generated levels has height {}", what, m, h));
            }
        }
        st.nontrivial = true;
        st.note = format!("{}: {:?}", what, hist);
        Ok(())
    }
}
/// height of the leftmost-maximum tree
fn cart_height(v: &[u32]) -> usize {
    let mut h = 0;
    let mut work = vec![(0usize, v.len(), 1usize)];
    while let Some((a, b, d)) = work.pop() {
        if a >= b {
            continue;
        }
        h = h.max(d);
        let mut k = a;
        for i in a..b {
            if v[i] > v[k] {
                k = i
            }
        }
        work.push((a, k, d + 1));
        work.push((k + 1, b, d + 1));
    }
    h
}
