//! Incremental reuse outside sequences: converting a changed archive stack again, computing
//! again over changed level trees, folding an iterator again.
use crate::common::*;
use crate::model::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::level_tree::Tree;
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::RazTree;
use iodyn::raz_meta::{FirstLast, Navigation, RazMeta};
use iodyn::tree_cursor::{Cursor, TreeUpdate};
use std::cell::Cell;
use std::collections::HashSet;
use std::rc::Rc;

thread_local! {
    static WORK: Cell<u64> = Cell::new(0);
}
fn work() {
    WORK.with(|w| w.set(w.get() + 1))
}
fn worked() -> u64 {
    WORK.with(|w| w.replace(0))
}

/// metadata that counts how often it is computed
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Wm(usize);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ix(bool);
impl FirstLast for Ix {
    fn first() -> Self {
        Ix(true)
    }
    fn last() -> Self {
        Ix(false)
    }
}
impl RazMeta<u32> for Wm {
    type Index = Ix;
    fn from_none(_: u32, _: ON) -> Self {
        Wm(0)
    }
    fn from_vec(v: &Vec<u32>, _: u32, _: ON) -> Self {
        work();
        Wm(v.len())
    }
    fn from_meta(l: &Self, r: &Self, _: u32, _: ON) -> Self {
        work();
        Wm(l.0 + r.0)
    }
    fn navigate(_: &Self, _: &Self, i: &Ix) -> Navigation<Ix> {
        if i.0 {
            Navigation::Left(Ix(true))
        } else {
            Navigation::Right(Ix(false))
        }
    }
    fn split_vec<'a>(v: &'a Vec<u32>, i: &Ix) -> (&'a [u32], &'a [u32]) {
        v.split_at(if i.0 { 0 } else { v.len() })
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Ed(u8, u32, u32);
pub struct ConvProp;
const KINDS: [&str; 7] = [
    "converting from the tail",
    "converting from the head",
    "fold_up over a level tree",
    "map over a level tree",
    "fold_lr over a level tree",
    "fold_lr over a level tree, accumulator unchanged",
    "fold_out",
];
impl Prop for ConvProp {
    type Op = Ed;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 3500,
            Tier::Thorough => 600_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, t: Tier) -> Case<Ed> {
        let n = if t == Tier::Thorough && rng.chance(1, 20) { rng.range(200, 600) } else { *rng.pick(&[3usize, 12, 40, 80, 150]) };
        let ops = (0..rng.range(2, 8)).map(|_| Ed(rng.below(8) as u8, rng.u64() as u32, rng.u64() as u32)).collect();
        Case { dcg: true, cfg: vec![idx % KINDS.len() as u64, n as u64, rng.u64(), *rng.pick(&[0u64, 0, 0, 1, 2, 3, 4])], ops }
    }
    fn run(&self, c: &Case<Ed>, st: &mut Stats) -> Result<(), String> {
        st.nontrivial = c.ops.len() >= 2 && c.cfg[1] >= 12;
        let kind = c.cfg[0] as usize;
        st.note = format!("{}, {} archive points or nodes", KINDS[kind], c.cfg[1]);
        match kind {
            0 | 1 => stacks(c, kind, st),
            _ => trees(c, kind, st),
        }
    }
}
/// how levels are distributed: balanced, shifted high, all equal, few values, inverted
fn level(rng: &mut Rng, mode: u64) -> u32 {
    match mode {
        1 => 30 + rng.geo_level().min(34),
        2 => 3,
        3 => 32 + rng.below(2) as u32,
        4 => 64 - rng.geo_level().min(63),
        _ => rng.geo_level(),
    }
}

// ------------------------------------------------------------ archive stacks

/// archived runs, bottom first, and the active run
#[derive(Clone, PartialEq)]
struct St {
    runs: Vec<(Vec<u32>, u32, ON)>,
    active: Vec<u32>,
}
impl St {
    fn toks(&self, head: bool) -> Vec<Tok> {
        let mut t = vec![];
        for (v, l, n) in &self.runs {
            t.extend(v.iter().map(|e| Tok::E(*e)));
            t.push(Tok::B(*l, n.clone()));
        }
        if self.active.is_empty() {
            t.pop();
        }
        t.extend(self.active.iter().map(|e| Tok::E(*e)));
        if head {
            t.reverse();
        }
        t
    }
}
fn stacks(c: &Case<Ed>, kind: usize, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[2]);
    let head = kind == 1;
    let mut s: AStack<u32, u32> = AStack::new();
    let mut m = St { runs: vec![], active: vec![] };
    let mut names = 0;
    let mut archive = |s: &mut AStack<u32, u32>, m: &mut St, l: u32| {
        if m.active.is_empty() {
            return;
        }
        names += 1;
        let n = Some(user_name(names));
        s.archive(n.clone(), l);
        m.runs.push((std::mem::replace(&mut m.active, vec![]), l, n));
    };
    for _ in 0..c.cfg[1] {
        for _ in 0..rng.range(1, 5) {
            let e = rng.below(1000) as u32;
            s.push(e);
            m.active.push(e);
        }
        let l = level(&mut rng, c.cfg[3]);
        archive(&mut s, &mut m, l);
    }
    s.push(7);
    m.active.push(7);
    let convert = |s: &AStack<u32, u32>| -> (RazTree<u32, Wm>, u64) {
        worked();
        let t = ns(nm("conv"), || if head { RazTree::memo_from(&AtHead(s.clone())) } else { AtTail(s.clone()).memo_into() });
        (t, worked())
    };
    let (_, first) = convert(&s);
    let least = m.runs.len() as u64;
    if first < least {
        return Err(format!("{}: the first conversion computed metadata {} times for {} archive points", KINDS[kind], first, least));
    }
    let (_, again) = convert(&s);
    st.max("metadata computed on an unchanged re-conversion", again);
    if again > 4 {
        return Err(format!("{}: converting the unchanged stack again computed metadata {} times ({} archive points)", KINDS[kind], again, least));
    }
    let mut shape = canonical(&m.toks(head)).unwrap();
    for (i, Ed(op, a, b)) in c.ops.iter().enumerate() {
        let before = m.clone();
        let mut touched = 1;
        match op {
            0 => {}
            1 => {
                s.push(*a);
                m.active.push(*a);
            }
            2 | 3 => {
                let l = level(&mut rng, c.cfg[3]);
                archive(&mut s, &mut m, l);
                s.push(*a);
                m.active.push(*a);
            }
            4 => {
                for _ in 0..1 + a % 4 {
                    if m.active.is_empty() {
                        match m.runs.pop() {
                            Some((v, _, _)) => m.active = v,
                            None => break,
                        }
                    }
                    m.active.pop();
                    s.pop();
                }
                s.push(*b);
                m.active.push(*b);
            }
            _ => {
                // open some runs, change the lowest, archive them again under their names
                let k = (*a as usize % 4).min(m.runs.len());
                let cut = m.runs.len() - k;
                for _ in 0..k {
                    s.next_archive();
                }
                touched += k;
                s.push(*b);
                let mut tail = m.runs.split_off(cut);
                if let Some(r) = tail.first_mut() {
                    r.0.push(*b)
                } else {
                    m.active.push(*b)
                }
                for j in 0..k {
                    if op % 2 == 1 && b % 3 == 0 && j == 0 {
                        tail[j].1 = level(&mut rng, c.cfg[3]);
                    }
                    s.archive(tail[j].2.clone(), tail[j].1);
                    let next = tail.get(j + 1).map_or(&m.active, |r| &r.0).clone();
                    for e in next {
                        s.push(e)
                    }
                }
                m.runs.extend(tail);
            }
        }
        let want = m.toks(head);
        let (tree, calls) = convert(&s);
        let now = canonical(&want).unwrap();
        if tree.meta().0 != now.count() {
            return Err(format!("{}: after {:?} (edit {}) the sequence has {} elements, expected {}", KINDS[kind], c.ops[i], i, tree.meta().0, now.count()));
        }
        let h = shape.height() + now.height();
        let allow = if m == before { 4 } else { 2 * (h + touched) as u64 + 8 };
        st.add("conversions measured", 1);
        st.add("metadata computed by re-conversions", calls);
        st.add("archive points in re-converted stacks", m.runs.len() as u64);
        st.max(&format!("{}: metadata computed beyond the height", KINDS[kind]), calls.saturating_sub(h as u64));
        st.max("height", now.height() as u64);
        st.seen("stacks converted", &want);
        if calls > allow {
            return Err(format!(
                "{}: after {:?} (edit {}) metadata was computed {} times; {} archive points, tree heights {} before and {} after, {} runs touched",
                KINDS[kind], c.ops[i], i, calls, m.runs.len(), shape.height(), now.height(), touched
            ));
        }
        shape = now;
    }
    Ok(())
}

// ------------------------------------------------------------ level trees

/// a named node in order: identity (name), level, data
type Nd = (usize, u32, u32);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct D(u32);
impl TreeUpdate for D {
    fn rebuild(_: Option<&Self>, old: &Self, _: u32, _: Option<Name>, _: Option<&Self>) -> Self {
        old.clone()
    }
}
fn root(s: &[Nd]) -> usize {
    let mut best = 0;
    for (i, x) in s.iter().enumerate() {
        if x.1 > s[best].1 {
            best = i
        }
    }
    best
}
fn build(s: &[Nd]) -> Option<Tree<D>> {
    if s.is_empty() {
        return None;
    }
    let i = root(s);
    Tree::new(s[i].1, Some(user_name(s[i].0)), D(s[i].2), build(&s[..i]), build(&s[i + 1..]))
}
/// every subtree with where it hangs: (parent, side, hash of its content); returns the content's hash
fn places(s: &[Nd], parent: (usize, bool), v: &mut Vec<(usize, bool, u64)>) -> u64 {
    if s.is_empty() {
        return 0;
    }
    let i = root(s);
    let l = places(&s[..i], (s[i].0, false), v);
    let r = places(&s[i + 1..], (s[i].0, true), v);
    let h = hash64(&(s[i], l, r));
    v.push((parent.0, parent.1, h));
    h
}
fn height(s: &[Nd]) -> usize {
    if s.is_empty() {
        return 0;
    }
    let i = root(s);
    1 + height(&s[..i]).max(height(&s[i + 1..]))
}
fn mix(a: u64, b: u64) -> u64 {
    (a ^ b).wrapping_mul(0x100_0000_01b3).rotate_left(17)
}
fn compute(kind: usize, t: Tree<D>) -> (u64, u64) {
    worked();
    let r = ns(nm("comp"), || match kind {
        2 => t.fold_up(Rc::new(|l: Option<u64>, d: D, r: Option<u64>| {
            work();
            mix(mix(l.unwrap_or(1), d.0 as u64), r.unwrap_or(2))
        })),
        3 => {
            let m: Tree<u64> = t.map(Rc::new(|d: D, _l, _n, l: Option<&Tree<u64>>, r: Option<&Tree<u64>>| {
                work();
                mix(mix(l.map_or(1, |l| l.peek()), d.0 as u64), r.map_or(2, |r| r.peek()))
            }));
            m.peek()
        }
        4 => t.fold_lr(
            3u64,
            Rc::new(|a: u64, d: D| {
                work();
                mix(a, d.0 as u64)
            }),
        ),
        5 => t.fold_lr(
            0u64,
            Rc::new(|a: u64, d: D| {
                work();
                a.max(d.0 as u64)
            }),
        ),
        _ => {
            let mut cu = Cursor::from(t);
            while cu.down_left() {}
            let (_, _, it) = cu.into_iters();
            it.fold_out(
                0u64,
                Rc::new(|a: u64, d: D| {
                    work();
                    a.max(d.0 as u64)
                }),
            )
        }
    });
    (r, worked())
}
fn expect(kind: usize, s: &[Nd]) -> u64 {
    fn up(s: &[Nd]) -> Option<u64> {
        if s.is_empty() {
            return None;
        }
        let i = root(s);
        Some(mix(mix(up(&s[..i]).unwrap_or(1), s[i].2 as u64), up(&s[i + 1..]).unwrap_or(2)))
    }
    match kind {
        2 | 3 => up(s).unwrap(),
        4 => s.iter().fold(3, |a, x| mix(a, x.2 as u64)),
        5 => s.iter().map(|x| x.2 as u64).max().unwrap(),
        // what lies right of the first node
        _ => {
            let mut s = s.to_vec();
            // the first node in order is the focused one, its right branch comes after it
            s.remove(0);
            s.iter().map(|x| x.2 as u64).max().unwrap_or(0)
        }
    }
}
fn trees(c: &Case<Ed>, kind: usize, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[2]);
    // equal levels throughout make a list of a tree: keep those short
    let n = if c.cfg[3] == 2 { (c.cfg[1] as usize).min(60) } else { c.cfg[1] as usize };
    let mut k = 0;
    let mut s: Vec<Nd> = vec![];
    for _ in 0..n.max(2) {
        k += 1;
        s.push((k, level(&mut rng, c.cfg[3]), rng.below(1000) as u32));
    }
    if kind == 5 || kind == 6 {
        // the greatest comes first: nothing after it changes the accumulator
        let at = if kind == 5 { 0 } else { 1 };
        s[at].2 = 5000;
    }
    let check = |s: &[Nd], r: u64, what: &str| -> Result<(), String> {
        if r != expect(kind, s) {
            return Err(format!("{}: {} the result is wrong on {:?}", KINDS[kind], what, s));
        }
        Ok(())
    };
    let (r, first) = compute(kind, build(&s).unwrap());
    check(&s, r, "at first")?;
    let items = if kind == 6 { s.len() - 1 } else { s.len() } as u64;
    if first != items {
        return Err(format!("{}: the first run applied the user function {} times to {} nodes", KINDS[kind], first, items));
    }
    let (r, again) = compute(kind, build(&s).unwrap());
    check(&s, r, "on an unchanged tree")?;
    st.max(&format!("{}: applications on an unchanged tree", KINDS[kind]), again);
    // the topmost node itself is not behind a memoised call
    if again > 3 {
        return Err(format!("{}: computing again over the unchanged tree applied the user function {} times ({} nodes)", KINDS[kind], again, s.len()));
    }
    for (i, Ed(op, a, b)) in c.ops.iter().enumerate() {
        let old = s.clone();
        // the protected greatest node stays
        let lo = if kind >= 5 { 2 } else { 0 };
        let p = if s.len() > lo { lo + *a as usize % (s.len() - lo) } else { s.len() };
        let structural = kind != 6;
        match op {
            0 => {}
            1 | 2 if structural => {
                k += 1;
                s.insert(p, (k, level(&mut rng, c.cfg[3]), b % 1000));
            }
            3 if structural && p < s.len() && s.len() > 3 => {
                s.remove(p);
            }
            4 if structural && p < s.len() => s[p].1 = level(&mut rng, c.cfg[3]),
            _ if p < s.len() => s[p].2 = b % 1000,
            _ => {}
        }
        let (r, calls) = compute(kind, build(&s).unwrap());
        check(&s, r, &format!("after {:?} (edit {})", c.ops[i], i))?;
        let mut was = vec![];
        places(&old, (0, false), &mut was);
        let was: HashSet<_> = was.into_iter().collect();
        let mut now = vec![];
        places(&s, (0, false), &mut now);
        let fresh = now.iter().filter(|x| !was.contains(x)).count();
        let h = height(&old) + height(&s);
        let from = old.iter().zip(s.iter()).position(|(x, y)| x != y).unwrap_or(old.len().min(s.len()));
        let allow = if old == s {
            3
        } else {
            2 + match kind {
                2 | 3 => fresh,
                4 => fresh + s.len() - from + h,
                5 => fresh + h,
                _ => 6,
            }
        } as u64;
        st.add("re-computations measured", 1);
        st.add("applications by re-computations", calls);
        st.add("nodes in re-computed trees", s.len() as u64);
        st.max(&format!("{}: applications beyond the changed nodes", KINDS[kind]), calls.saturating_sub(fresh as u64));
        st.seen("trees computed over", &s);
        if calls > allow {
            return Err(format!(
                "{}: after {:?} (edit {}) the user function was applied {} times where {} suffice; {} nodes, {} subtrees changed, heights {} in all",
                KINDS[kind], c.ops[i], i, calls, allow, s.len(), fresh, h
            ));
        }
    }
    Ok(())
}
