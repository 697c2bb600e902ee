//! What stays alive: elements, metadata and names counted by their own constructors and destructors.
use crate::common::*;
use crate::rsim::huge;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::level_tree::Tree;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{FirstLast, Navigation, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::tree_cursor::{Cursor, DeriveTreeUpdate, Force, UpResult};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

thread_local! {
    static LIVE: Cell<i64> = Cell::new(0);
    static METAS: Cell<i64> = Cell::new(0);
}
fn bump(c: &'static std::thread::LocalKey<Cell<i64>>, n: i64) {
    // destructors may run while the thread ends
    let _ = c.try_with(|c| c.set(c.get() + n));
}
fn live() -> i64 {
    LIVE.with(|c| c.get())
}
fn metas() -> i64 {
    METAS.with(|c| c.get())
}
#[derive(Debug, PartialEq, Eq)]
/// elements and metadata have memory of their own, for the address sanitizer's sake (C32)
struct It(Box<u32>);
impl It {
    fn new(k: u32) -> Self {
        bump(&LIVE, 1);
        It(Box::new(k))
    }
}
impl Clone for It {
    fn clone(&self) -> Self {
        It::new(*self.0)
    }
}
impl Drop for It {
    fn drop(&mut self) {
        bump(&LIVE, -1)
    }
}
impl Hash for It {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
#[derive(Debug, PartialEq, Eq, Hash)]
struct Mt(Box<usize>);
impl Mt {
    fn new(n: usize) -> Self {
        bump(&METAS, 1);
        Mt(Box::new(n))
    }
}
impl Clone for Mt {
    fn clone(&self) -> Self {
        Mt::new(*self.0)
    }
}
impl Drop for Mt {
    fn drop(&mut self) {
        bump(&METAS, -1)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct At(usize);
impl FirstLast for At {
    fn first() -> Self {
        At(0)
    }
    fn last() -> Self {
        At(usize::max_value())
    }
}
impl RazMeta<It> for Mt {
    type Index = At;
    fn from_none(_: u32, _: ON) -> Self {
        Mt::new(0)
    }
    fn from_vec(v: &Vec<It>, _: u32, _: ON) -> Self {
        Mt::new(v.len())
    }
    fn from_meta(l: &Self, r: &Self, _: u32, _: ON) -> Self {
        Mt::new(*l.0 + *r.0)
    }
    fn navigate(l: &Self, _: &Self, i: &At) -> Navigation<At> {
        if i.0 == usize::max_value() {
            Navigation::Right(i.clone())
        } else if i.0 > *l.0 {
            Navigation::Right(At(i.0 - *l.0))
        } else {
            Navigation::Left(i.clone())
        }
    }
    fn split_vec<'a>(v: &'a Vec<It>, i: &At) -> (&'a [It], &'a [It]) {
        v.split_at(i.0.min(v.len()))
    }
}
type ON = Option<Name>;

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct LOp(u8, u32);
pub struct ReleaseProp;
fn held(what: &str, lo: i64, hi: i64, st: &mut Stats) -> Result<(), String> {
    st.add("counts of live elements", 1);
    st.max("live elements", live().max(0) as u64);
    if live() < lo || live() > hi {
        return Err(format!("{}: {} elements are alive, expected {}", what, live(), if lo == hi { lo.to_string() } else { format!("{} to {}", lo, hi) }));
    }
    Ok(())
}
fn namer(c: &Case<LOp>) -> impl FnMut() -> ON {
    let (mut k, mode) = (0usize, c.cfg[2]);
    move || {
        k += 1;
        if mode == 0 || (mode == 1 && k % 3 != 0) {
            Some(name_of_usize(k))
        } else {
            None
        }
    }
}
const KINDS: [&str; 6] = ["cursor sequences", "archive stacks", "lists", "level trees", "maps", "unfocused sequences"];
impl Prop for ReleaseProp {
    type Op = LOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 5_000,
            Tier::Thorough => 60_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<LOp> {
        let n = if huge(rng) { rng.range(2000, 4000) } else { rng.range(10, 200) };
        let ops = (0..n).map(|_| LOp(rng.below(16) as u8, rng.u64() as u32)).collect();
        let _ = idx;
        Case { dcg: false, cfg: vec![*rng.pick(&[0u64, 0, 0, 1, 2, 3, 4, 5]), rng.u64(), rng.below(3) as u64], ops }
    }
    fn run(&self, c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
        st.add(KINDS[c.cfg[0] as usize], 1);
        LIVE.with(|c| c.set(0));
        METAS.with(|c| c.set(0));
        match c.cfg[0] {
            0 => raz(c, st)?,
            1 => astack(c, st)?,
            2 => list(c, st)?,
            3 => tree(c, st)?,
            4 => map(c, st)?,
            _ => whole(c, st)?,
        }
        held("after everything was dropped", 0, 0, st)?;
        if metas() != 0 {
            return Err(format!("after everything was dropped: {} metadata values are alive", metas()));
        }
        Ok(())
    }
}

/// sizes of the subsequences either side of the cursor, the active ones last
struct Side(Vec<i64>);
impl Side {
    fn total(&self) -> i64 {
        self.0.iter().sum()
    }
    fn active(&mut self) -> &mut i64 {
        self.0.last_mut().unwrap()
    }
}
fn raz(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut z: Raz<It, Mt> = Raz::new();
    let (mut l, mut r) = (Side(vec![0]), Side(vec![0]));
    let mut from = 0i64; // elements of the sequence focused last
    let mut kept: Vec<(RazTree<It, Mt>, i64)> = vec![];
    let mut zkept: Vec<(Raz<It, Mt>, i64)> = vec![];
    let mut k = 0u32;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        match op.0 {
            0..=4 => {
                let left = op.0 % 2 == 0;
                for _ in 0..(if d % 13 == 0 { 50 } else { d % 5 + 1 }) {
                    k += 1;
                    if left {
                        z.push_left(It::new(k));
                        *l.active() += 1;
                    } else {
                        z.push_right(It::new(k));
                        *r.active() += 1;
                    }
                }
            }
            5 | 6 => {
                let lev = 1 + (d | 1 << 20).trailing_zeros();
                let s = if op.0 == 5 {
                    z.archive_left(lev, name());
                    &mut l
                } else {
                    z.archive_right(lev, name());
                    &mut r
                };
                if *s.active() > 0 {
                    s.0.push(0);
                }
            }
            7..=9 => {
                let left = op.0 == 7 || (op.0 == 9 && d % 2 == 0);
                for _ in 0..(if d % 11 == 0 { 60 } else { d % 6 + 1 }) {
                    let (got, s) = if left { (z.pop_left(), &mut l) } else { (z.pop_right(), &mut r) };
                    if got.is_some() != (s.total() > 0) {
                        return Err(format!("at operation {} ({:?}): popped {:?} from {} elements", i, op, got, s.total()));
                    }
                    if got.is_some() {
                        // popping past an exhausted subsequence opens the next
                        while *s.active() == 0 && s.0.len() > 1 {
                            s.0.pop();
                        }
                        *s.active() -= 1;
                    }
                }
            }
            10 => {
                let _ = (z.peek_left(), z.peek_right());
            }
            11 => {
                if d % 3 == 0 {
                    zkept.push((z.clone(), from + l.total() + r.total()));
                } else {
                    drop(z.clone());
                }
            }
            12 => {
                if d % 2 == 0 {
                    kept.clear();
                    zkept.clear();
                } else if !kept.is_empty() {
                    kept.remove(d as usize / 2 % kept.len());
                }
            }
            _ => {
                let n = l.total() + r.total();
                let t = z.unfocus();
                let others: i64 = kept.iter().map(|x| x.1).sum::<i64>() + zkept.iter().map(|x| x.1).sum::<i64>();
                held(&format!("at operation {} ({:?}): sequence of {} elements unfocused, {} in kept versions", i, op, n, others), n, n + others, st)?;
                if *t.meta().0 as i64 != n {
                    return Err(format!("at operation {}: metadata counts {} of {} elements", i, t.meta().0, n));
                }
                if others == 0 {
                    // one per subsequence and archive point, and those shown to the branch above
                    let runs = t.clone().fold_up_gauged(Rc::new(|_: &Vec<It>| 1i64), Rc::new(|a: i64, _, _, b: i64| a + b)).unwrap_or(0);
                    held(&format!("at operation {}: after counting the subsequences of {} elements", i, n), n, n, st)?;
                    st.max("metadata values beyond two per subsequence", (metas() - 2 * runs).max(0) as u64);
                    st.add("counts of live metadata", 1);
                    if metas() > 2 * runs + 2 {
                        return Err(format!("at operation {}: {} metadata values are alive for {} subsequences", i, metas(), runs));
                    }
                    st.add("unfocused sequences counted exactly", 1);
                }
                if n == 0 {
                    z = Raz::new();
                    (l, r) = (Side(vec![0]), Side(vec![0]));
                    from = 0;
                    continue;
                }
                if d % 4 == 0 {
                    kept.push((t.clone(), n));
                }
                compute(&t, d / 4, n, st).map_err(|e| format!("at operation {}: {}", i, e))?;
                let runs: Rc<Vec<i64>> = t.clone().fold_up_gauged(Rc::new(|v: &Vec<It>| Rc::new(vec![v.len() as i64])), Rc::new(|a: Rc<Vec<i64>>, _, _, b: Rc<Vec<i64>>| Rc::new(a.iter().chain(b.iter()).cloned().collect::<Vec<_>>()))).unwrap();
                let p = (d as usize / 64) % (n as usize + 1);
                z = match d % 5 {
                    0 => t.focus(At(usize::max_value())).ok_or("focus at the end failed")?,
                    1 => t.focus_left(),
                    _ => t.focus(At(p)).ok_or("focus failed")?,
                };
                let p = match d % 5 {
                    0 => n,
                    1 => 0,
                    _ => p as i64,
                };
                from = n;
                (l, r) = (Side(vec![]), Side(vec![]));
                // the cursor's subsequence is split
                let mut seen = 0;
                for x in runs.iter() {
                    if seen + x < p || (seen + x == p && !r.0.is_empty()) {
                        l.0.push(*x);
                    } else if r.0.is_empty() && seen <= p {
                        l.0.push(p - seen);
                        r.0.push(seen + x - p);
                    } else {
                        r.0.push(*x);
                    }
                    seen += x;
                }
                r.0.reverse();
                if r.0.is_empty() {
                    r.0.push(0);
                }
                if l.0.is_empty() {
                    l.0.push(0);
                }
                continue;
            }
        }
        let others: i64 = kept.iter().map(|x| x.1).sum::<i64>() + zkept.iter().map(|x| x.1).sum::<i64>();
        let n = l.total() + r.total();
        // a cursor sequence may hold the sequence it was focused from, and its own elements
        let lo = if from == 0 { n } else { 0 };
        held(&format!("at operation {} ({:?}): cursor sequence of {} elements, focused from {}, {} in kept versions", i, op, n, from, others), lo, n + from + others, st)?;
    }
    st.nontrivial = k > 10;
    st.note = format!("cursor sequence, {} elements pushed", k);
    Ok(())
}
/// a user function panics on its k-th call: nothing may be left of the computation, and the sequence stays as it was
fn fail_midway(t: &RazTree<It, Mt>, d: u32, n: i64, st: &mut Stats) -> Result<(), String> {
    let before = (live(), metas());
    let read = |t: &RazTree<It, Mt>| t.clone().fold_lr((0u64, 0i64), Rc::new(|(h, k), e: &It| (hash64(&(h, *e.0)), k + 1)));
    let was = read(t);
    let fuse = Rc::new(Cell::new((d / 4) as i64 % n));
    let burn = {
        let fuse = fuse.clone();
        Rc::new(move || {
            fuse.set(fuse.get() - 1);
            if fuse.get() < 0 {
                panic!("user function fails")
            }
        })
    };
    let (b1, b2) = (burn.clone(), burn);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match d % 4 {
        0 => drop(t.clone().fold_up(Rc::new(move |e: &It| { b1(); e.clone() }), Rc::new(move |a: It, _: It| { b2(); a }))),
        1 => drop(t.clone().fold_lr(It::new(0), Rc::new(move |a: It, _: &It| { b1(); a }))),
        2 => {
            let m: RazTree<It, Mt> = t.clone().map(Rc::new(move |e: &It| { b1(); e.clone() }));
            drop(m)
        }
        _ => drop(t.clone().fold_lr_archive(It::new(0), Rc::new(move |_: It, e: &It| { b1(); e.clone() }), Rc::new(|a: It, _| a), Rc::new(|a: It, _| a))),
    }));
    if x.is_ok() {
        return Err("a computation whose function panics returns".into());
    }
    st.add("computations whose function panics", 1);
    held("after a computation whose function panicked", before.0, before.0, st)?;
    if metas() != before.1 {
        return Err(format!("a computation whose function panicked leaves {} metadata values, before {}", metas(), before.1));
    }
    let now = read(t);
    if now != was || now.1 != n {
        return Err(format!("the sequence reads {} elements after a computation whose function panicked, before {}", now.1, was.1));
    }
    Ok(())
}
fn compute(t: &RazTree<It, Mt>, d: u32, n: i64, st: &mut Stats) -> Result<(), String> {
    let before = (live(), metas());
    if d % 5 == 1 && n > 0 {
        return fail_midway(t, d / 5, n, st);
    }
    st.add("computations", 1);
    match d % 7 {
        0 => {
            let x = t.clone().fold_up(Rc::new(|e: &It| e.clone()), Rc::new(|a: It, b: It| It::new((*a.0).max(*b.0))));
            held("with the result of fold_up", before.0 + 1, before.0 + 1, st)?;
            drop(x);
        }
        1 => {
            let x = t.clone().fold_lr(It::new(0), Rc::new(|a: It, b: &It| It::new((*a.0).max(*b.0))));
            held("with the result of fold_lr", before.0 + 1, before.0 + 1, st)?;
            drop(x);
        }
        2 => {
            let m: RazTree<It, Mt> = t.clone().map(Rc::new(|e: &It| It::new(*e.0 + 1)));
            held("with a mapped copy", before.0 + n, before.0 + n, st)?;
            drop(m);
        }
        3 => {
            let s = t.clone().fold_lr(AStack::<It, ()>::new(), Rc::new(|mut s: AStack<It, ()>, e: &It| {
                s.push(e.clone());
                s
            }));
            held("with the elements on a stack", before.0 + n, before.0 + n, st)?;
            drop(s);
        }
        4 => {
            let x = t.clone().fold_up_nl(Rc::new(|e: &It| e.clone()), Rc::new(|a: It, _: It| a), Rc::new(|_: It, _, _, b: It| b));
            drop(x);
        }
        5 => {
            let x = t.clone().fold_lr_archive(It::new(0), Rc::new(|_: It, e: &It| e.clone()), Rc::new(|a: It, _| a), Rc::new(|a: It, _| a));
            held("with the result of fold_lr_archive", before.0 + 1, before.0 + 1, st)?;
            drop(x);
        }
        _ => {
            let z = t.clone().focus(At((d / 7) as usize % (n as usize + 1)));
            let t2 = z.ok_or("focus failed")?.unfocus();
            if live() > before.0 + n {
                return Err(format!("{} elements focused and unfocused leave {}, before {}", n, live(), before.0));
            }
            drop(t2);
        }
    }
    held("after a computation and dropping its result", before.0, before.0, st)?;
    if metas() != before.1 {
        return Err(format!("a computation leaves {} metadata values, before {}", metas(), before.1));
    }
    Ok(())
}
fn whole(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut ts: Vec<(RazTree<It, Mt>, i64, u32)> = vec![];
    let mut k = 0u32;
    let mut biggest = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        match op.0 {
            0..=3 => {
                let n = d % 40 + 1;
                ts.push((RazTree::from_vec((0..n).map(|j| It::new(k + j)).collect()).unwrap(), n as i64, 0));
                k += n;
            }
            4..=8 => {
                if ts.len() < 2 {
                    continue;
                }
                let (b, bn, bl) = ts.pop().unwrap();
                let (a, an, al) = ts.pop().unwrap();
                let lev = if d % 3 == 0 { d % 9 + 1 } else { al.max(bl) + 1 };
                let t = RazTree::join(a, lev, name(), b).ok_or("join failed")?;
                ts.push((t, an + bn, al.max(bl).max(lev)));
                biggest = biggest.max(an + bn);
            }
            9 | 10 => {
                // from an archive stack
                let mut s: AStack<It, u32> = AStack::new();
                let mut n = 0;
                for j in 0..d % 5 + 1 {
                    for _ in 0..(d >> j) % 4 + 1 {
                        k += 1;
                        n += 1;
                        s.push(It::new(k));
                    }
                    s.archive(name(), 1 + (d >> (j + 3) | 1 << 20).trailing_zeros());
                }
                if d % 2 == 0 {
                    s.push(It::new(k));
                    n += 1;
                }
                let t: RazTree<It, Mt> = if op.0 == 9 { AtTail(s).memo_into() } else { RazTree::memo_from(&AtHead(s)) };
                ts.push((t, n, 64));
            }
            11 | 12 => {
                if ts.is_empty() {
                    continue;
                }
                let at = d as usize % ts.len();
                let (t, n, _) = &ts[at];
                compute(t, d / 16, *n, st).map_err(|e| format!("at operation {} ({:?}): {}", i, op, e))?;
            }
            13 => {
                if let Some((t, n, _)) = ts.pop() {
                    let mut z = t.focus_left();
                    for j in 0..n {
                        if z.pop_right().is_none() {
                            return Err(format!("at operation {}: {} of {} elements popped", i, j, n));
                        }
                    }
                    drop(z.unfocus());
                }
            }
            _ => {
                if d % 4 == 0 {
                    ts.pop();
                }
            }
        }
        let n: i64 = ts.iter().map(|x| x.1).sum();
        held(&format!("at operation {} ({:?}): {} unfocused sequences of {} elements in all", i, op, ts.len(), n), n, n, st)?;
    }
    st.nontrivial = biggest > 20;
    st.note = format!("unfocused sequences of up to {} elements", biggest);
    Ok(())
}
fn astack(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut s: AStack<It, It> = AStack::new();
    let mut runs: Vec<i64> = vec![0];
    let mut kept: Vec<(AStack<It, It>, i64)> = vec![];
    let mut k = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        match op.0 {
            0..=4 => {
                for _ in 0..d % 7 + 1 {
                    k += 1;
                    s.push(It::new(k));
                    *runs.last_mut().unwrap() += 1;
                }
            }
            5..=7 => {
                if s.archive(name(), It::new(k)) {
                    runs.push(0);
                }
            }
            8..=11 => {
                for _ in 0..d % 9 + 1 {
                    if *runs.last().unwrap() == 0 && runs.len() > 1 {
                        runs.pop();
                    }
                    let some = *runs.last().unwrap() > 0;
                    let got = if op.0 == 8 { s.pop_meta().map(|x| x.0) } else { s.pop() };
                    if got.is_some() != some {
                        return Err(format!("at operation {} ({:?}): popped {:?}, runs {:?}", i, op, got, runs));
                    }
                    if some {
                        *runs.last_mut().unwrap() -= 1;
                    }
                }
            }
            12 => {
                let g = s.next_archive();
                if let Some((v, _)) = &g {
                    if v.len() as i64 != *runs.last().unwrap() {
                        return Err(format!("at operation {}: next archive of {} elements, runs {:?}", i, v.len(), runs));
                    }
                    runs.pop();
                    if runs.is_empty() {
                        runs.push(0);
                    }
                }
            }
            13 => {
                let _ = s.peek();
            }
            14 => {
                kept.push((s.clone(), runs.iter().sum::<i64>() + runs.len() as i64 - 1));
            }
            _ => {
                kept.pop();
            }
        }
        // the metadata counts as well
        let n: i64 = runs.iter().sum::<i64>() + runs.len() as i64 - 1;
        let others: i64 = kept.iter().map(|x| x.1).sum();
        held(&format!("at operation {} ({:?}): archive stack of runs {:?} with a metadata value each", i, op, runs), n, n + others, st)?;
    }
    st.nontrivial = k > 10;
    st.note = format!("archive stack, {} elements pushed", k);
    Ok(())
}
fn list(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut s: Stack<It> = Stack::new();
    let mut n = 0i64;
    let mut kept: Vec<(Stack<It>, i64)> = vec![];
    let mut k = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        match op.0 {
            0..=7 => {
                for _ in 0..d % 5 + 1 {
                    k += 1;
                    s = s.push(name(), It::new(k));
                    n += 1;
                }
            }
            8..=11 => {
                for _ in 0..d % 6 + 1 {
                    if let Some(t) = s.pull() {
                        s = t;
                        n -= 1;
                    }
                }
            }
            12 => {
                let _ = (s.peek(), s.name(), s.iter().count());
            }
            13 | 14 => kept.push((s.clone(), n)),
            _ => {
                kept.pop();
            }
        }
        let others: i64 = kept.iter().map(|x| x.1).sum();
        held(&format!("at operation {} ({:?}): list of {} elements", i, op, n), n, n + others, st)?;
    }
    st.nontrivial = k > 10;
    st.note = format!("list, {} elements pushed", k);
    Ok(())
}
impl DeriveTreeUpdate for It {}
fn tree(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut cu: Cursor<It> = Cursor::new();
    let mut kept: Vec<(Tree<It>, i64)> = vec![];
    let mut most = 0;
    let count = |t: Option<Tree<It>>| t.map_or(0, |t| t.fold_lr(0i64, Rc::new(|a: i64, _: It| a + 1)));
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        match op.0 {
            0..=3 => {
                // a new node where the cursor is, at one end of the branch there
                let left = d % 2 == 0;
                while if left { cu.down_left() } else { cu.down_right() } {}
                let lev = 1 + (d | 1 << 16).trailing_zeros();
                let side = if left { cu.down_left_force(Force::Yes) } else { cu.down_right_force(Force::Yes) };
                let _ = side;
                let (a, t, b) = cu.split();
                if t.is_some() {
                    return Err(format!("at operation {} ({:?}): a tree at an end", i, op));
                }
                cu = Cursor::join(a, lev, name(), It::new(d), b);
            }
            4..=8 => {
                let _ = if d % 2 == 0 { cu.down_left() } else { cu.down_right() };
            }
            9 | 10 => {
                cu.up();
            }
            11 => {
                cu.up_discard();
            }
            12 => {
                // taken out and put back
                if let Some(t) = cu.at_tree() {
                    let (lev, data) = (t.level(), t.peek());
                    drop(t);
                    let (a, mid, b) = cu.split();
                    drop(mid);
                    cu = Cursor::join(a, lev, name(), data, b);
                }
            }
            13 => {
                let (a, t, it) = cu.clone().into_iters();
                drop(a);
                drop(t);
                st.max("nodes iterated", it.take(d as usize % 9).count() as u64);
            }
            _ => {
                // only the whole tree is kept
                while cu.up() != UpResult::Fail {}
                let t = cu.at_tree();
                cu = Cursor::new();
                let n = count(t.clone());
                most = most.max(n);
                if d % 5 == 0 {
                    kept.clear();
                }
                let others: i64 = kept.iter().map(|x| x.1).sum();
                held(&format!("at operation {} ({:?}): tree of {} nodes built by a cursor, {} in kept versions", i, op, n, others), n, n + others, st)?;
                if let Some(t) = t {
                    let before = live();
                    match d % 4 {
                        0 => drop(t.clone().map(Rc::new(|e: It, _: u32, _: ON, _: Option<&Tree<It>>, _: Option<&Tree<It>>| It::new(*e.0 + 1)))),
                        1 => drop(t.clone().fold_lr(It::new(0), Rc::new(|_: It, e: It| e))),
                        2 => drop(t.clone().fold_up(Rc::new(|l: Option<It>, e: It, r: Option<It>| l.or(r).unwrap_or(e)))),
                        _ => drop(Cursor::from(t.clone())),
                    }
                    held(&format!("at operation {} ({:?}): after a computation over {} nodes", i, op, n), before, before, st)?;
                    if d % 3 == 0 {
                        kept.push((t.clone(), n));
                    }
                    cu = Cursor::from(t);
                }
            }
        }
    }
    st.nontrivial = most > 4;
    st.note = format!("tree of up to {} nodes", most);
    Ok(())
}
fn map(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[1]);
    let mut m: Skiplist<u32, It> = Skiplist::emp(*rng.pick(&[1usize, 4, 16, 64]), name_of_usize(0));
    let keys = *rng.pick(&[2u32, 20, 300]);
    let mut kept: Vec<Skiplist<u32, It>> = vec![];
    let mut n = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        match op.0 {
            0..=7 => {
                n += 1;
                m.put(d % keys, It::new(n));
            }
            8 | 9 => {
                let _ = m.rem(d % keys);
            }
            10..=12 => {
                let before = live();
                drop(m.get(d % keys));
                held(&format!("at operation {} ({:?}): after getting a key", i, op), before, before, st)?;
            }
            13 => {
                kept.push(m.clone());
                m.archive(name_of_usize(i + 1));
            }
            _ => {
                kept.pop();
            }
        }
    }
    st.nontrivial = n > 10;
    st.note = format!("map, {} values put", n);
    Ok(())
}
