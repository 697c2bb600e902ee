//! What single operations on archive stacks, lists, level trees, joined sequences and maps touch:
//! copies, comparisons and hashings of elements, counted in the user's own types.
use crate::common::*;
use crate::model::*;
use crate::rsim::huge;
use iodyn::archive_stack::AStack;
use iodyn::level_tree::Tree;
use iodyn::raz::RazTree;
use iodyn::raz_meta::{FirstLast, Navigation, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

thread_local! {
    static COPIES: Cell<u64> = Cell::new(0);
    static TESTS: Cell<u64> = Cell::new(0);
    static HASHES: Cell<u64> = Cell::new(0);
    static METAS: Cell<u64> = Cell::new(0);
    static LOOKS: Cell<u64> = Cell::new(0);
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>, n: u64) {
    c.with(|c| c.set(c.get() + n))
}
#[derive(Clone, Copy, Debug, Default)]
struct Work {
    copies: u64,
    tests: u64,
    hashes: u64,
    metas: u64,
    looks: u64,
}
fn take() -> Work {
    Work {
        copies: COPIES.with(|c| c.replace(0)),
        tests: TESTS.with(|c| c.replace(0)),
        hashes: HASHES.with(|c| c.replace(0)),
        metas: METAS.with(|c| c.replace(0)),
        looks: LOOKS.with(|c| c.replace(0)),
    }
}
/// element, value, and key; keys hash by class only
#[derive(Debug)]
struct It(u32, u32);
impl Clone for It {
    fn clone(&self) -> Self {
        bump(&COPIES, 1);
        It(self.0, self.1)
    }
}
impl PartialEq for It {
    fn eq(&self, o: &Self) -> bool {
        bump(&TESTS, 1);
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for It {}
impl Hash for It {
    fn hash<H: Hasher>(&self, h: &mut H) {
        bump(&HASHES, 1);
        self.1.hash(h)
    }
}
#[derive(Debug, PartialEq, Eq, Hash)]
struct Mt(usize);
/// copies of metadata tell how many tree nodes were looked at
impl Clone for Mt {
    fn clone(&self) -> Self {
        bump(&LOOKS, 1);
        Mt(self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ix(bool);
impl FirstLast for Ix {
    fn first() -> Self {
        Ix(true)
    }
    fn last() -> Self {
        Ix(false)
    }
}
impl RazMeta<It> for Mt {
    type Index = Ix;
    fn from_none(_: u32, _: ON) -> Self {
        bump(&METAS, 1);
        Mt(0)
    }
    fn from_vec(v: &Vec<It>, _: u32, _: ON) -> Self {
        bump(&METAS, 1);
        Mt(v.len())
    }
    fn from_meta(l: &Self, r: &Self, _: u32, _: ON) -> Self {
        bump(&METAS, 1);
        Mt(l.0 + r.0)
    }
    fn navigate(_: &Self, _: &Self, i: &Ix) -> Navigation<Ix> {
        if i.0 {
            Navigation::Left(Ix(true))
        } else {
            Navigation::Right(Ix(false))
        }
    }
    fn split_vec<'a>(v: &'a Vec<It>, i: &Ix) -> (&'a [It], &'a [It]) {
        v.split_at(if i.0 { 0 } else { v.len() })
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct DOp(u8, u32);
pub struct LocalProp;
/// what may be spent where `local` elements are at hand
fn within(what: &str, i: usize, op: &DOp, w: Work, local: u64, total: u64, st: &mut Stats) -> Result<(), String> {
    st.add("operations measured", 1);
    st.max(&format!("{}: copies / (elements at hand + 1)", what), w.copies / (local + 1));
    st.max(&format!("{}: comparisons / (elements at hand + 1)", what), w.tests / (local + 1));
    st.max(&format!("{}: hashings / (elements at hand + 1)", what), w.hashes / (local + 1));
    st.max("elements in the structure", total);
    if w.copies > 12 * (local + 1) || w.tests > 12 * (local + 1) || w.hashes > 12 * (local + 1) {
        return Err(format!(
            "at operation {} ({:?}): {} copied {}, compared {} and hashed {} elements; {} are at hand, the structure has {}",
            i, op, what, w.copies, w.tests, w.hashes, local, total
        ));
    }
    Ok(())
}
impl Prop for LocalProp {
    type Op = DOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 5_000,
            Tier::Thorough => 60_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<DOp> {
        let large = huge(rng);
        let n = if large { rng.range(2000, 4000) } else { rng.range(20, 300) };
        let ops = (0..n).map(|_| DOp(rng.below(12) as u8, rng.u64() as u32)).collect();
        Case { dcg: idx % 2 == 1, cfg: vec![rng.below(5) as u64, rng.u64(), rng.below(3) as u64], ops }
    }
    fn run(&self, c: &Case<DOp>, st: &mut Stats) -> Result<(), String> {
        st.add(["archive stacks", "lists", "level trees", "joined sequences", "maps"][c.cfg[0] as usize], 1);
        take();
        match c.cfg[0] {
            0 => astack(c, st),
            1 => list(c, st),
            2 => tree(c, st),
            3 => joins(c, st),
            _ => map(c, st),
        }
    }
}
fn namer(c: &Case<DOp>) -> impl FnMut() -> ON {
    let (mut k, mode) = (0usize, c.cfg[2]);
    move || {
        k += 1;
        if mode == 0 || (mode == 1 && k % 3 != 0) {
            Some(user_name(k))
        } else {
            None
        }
    }
}

fn astack(c: &Case<DOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut runs: Vec<u64> = vec![0]; // lengths, the active one last
    let mut s: AStack<It, u32> = AStack::new();
    let mut k = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let active = *runs.last().unwrap();
        let total: u64 = runs.iter().sum();
        let below = if runs.len() > 1 { runs[runs.len() - 2] } else { 0 };
        let d = op.1 as u64;
        let (what, local) = match op.0 {
            0..=3 => {
                let n = if d % 9 == 0 { 40 } else { d % 4 + 1 };
                for _ in 0..n {
                    k += 1;
                    s.push(It(k, k));
                }
                *runs.last_mut().unwrap() += n;
                // growing a run moves its elements
                ("pushing", n)
            }
            4 | 5 => {
                let done = if d % 3 == 0 { s.archive_with_capacity(name(), k, 8) } else { s.archive(name(), k) };
                if done != (active > 0) {
                    return Err(format!("at operation {}: archiving {} elements answers {}", i, active, done));
                }
                if done {
                    runs.push(0);
                }
                ("archiving", active)
            }
            6 | 7 => {
                let got = if op.0 == 6 { s.pop() } else { s.pop_meta().map(|x| x.0) };
                if got.is_some() != (total > 0) {
                    return Err(format!("at operation {}: popped {:?} from {} elements", i, got, total));
                }
                let local = if active == 0 { below } else { 0 };
                if active == 0 && runs.len() > 1 {
                    runs.pop();
                }
                if got.is_some() {
                    *runs.last_mut().unwrap() -= 1;
                }
                ("popping", local)
            }
            8 => {
                let g = s.peek();
                if g.is_some() != (total > 0) {
                    return Err(format!("at operation {}: peeked {:?} in {} elements", i, g, total));
                }
                ("peeking", if active == 0 { below } else { 0 })
            }
            9 => {
                let z = s.clone();
                if i % 5 == 0 {
                    drop(std::mem::replace(&mut s, z));
                }
                ("copying the stack", active)
            }
            10 => {
                let _ = (s.is_empty(), s.active_len(), s.name(), s.active_data().len());
                ("asking about the stack", 0)
            }
            _ => {
                if d % 4 > 0 {
                    continue;
                }
                let g = s.next_archive();
                let w = if total == 0 && runs.len() == 1 { None } else { Some(active) };
                if g.as_ref().map(|g| g.0.len() as u64) != w {
                    return Err(format!("at operation {}: next archive has {:?} elements, expected {:?}", i, g.map(|g| g.0.len()), w));
                }
                runs.pop();
                if runs.is_empty() {
                    runs.push(0);
                }
                ("opening the next archive", below)
            }
        };
        within(what, i, op, take(), local, total, st)?;
    }
    st.nontrivial = runs.len() > 2;
    st.note = format!("archive stack, runs {:?}", runs.iter().rev().take(9).collect::<Vec<_>>());
    Ok(())
}

fn list(c: &Case<DOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut vs: Vec<(Stack<It>, u64)> = vec![(Stack::new(), 0)];
    let mut k = 0;
    let mut longest = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let (s, n) = vs[vs.len() - 1].clone();
        take();
        let d = op.1;
        let mut local = 0;
        let what = match op.0 {
            0..=5 => {
                k += 1;
                let z = match &s.0 {
                    // through the nonempty-list type
                    Some(h) if d % 2 == 1 => Stack(Some(h.push(name(), It(k, k)))),
                    _ => s.push(name(), It(k, k)),
                };
                vs.push((z, n + 1));
                "pushing on a list"
            }
            6 => {
                if let Some(t) = s.0.as_ref().filter(|_| d % 2 == 1).map(|h| Stack(h.pull())).or_else(|| s.pull()) {
                    vs.push((t, n - 1));
                } else if n > 0 {
                    return Err(format!("at operation {}: nothing to pull from {} elements", i, n));
                }
                "pulling from a list"
            }
            7 | 8 => {
                if s.peek().is_some() != (n > 0) {
                    return Err(format!("at operation {}: peeking at {} elements", i, n));
                }
                let _ = (s.name(), s.is_empty(), s.0.as_ref().map(|h| (h.name(), h.peek().0)));
                "peeking at a list"
            }
            9 => {
                let z = s.clone();
                drop(z);
                "copying a list"
            }
            10 => {
                // only as far as the iteration goes
                let m = (d % 7) as usize;
                local = match &s.0 {
                    Some(h) if d % 2 == 1 => h.iter().take(m).count() as u64,
                    _ => s.iter().take(m).count() as u64,
                };
                if local != n.min(m as u64) {
                    return Err(format!("at operation {}: {} elements of {} iterated", i, local, n));
                }
                "iterating part of a list"
            }
            _ => {
                vs.truncate(vs.len().saturating_sub(d as usize % 3).max(1));
                continue;
            }
        };
        within(what, i, op, take(), local, n, st)?;
        longest = longest.max(n);
    }
    st.nontrivial = longest > 4;
    st.note = format!("list of up to {} elements", longest);
    Ok(())
}

fn tree(c: &Case<DOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    let mut ts: Vec<(Tree<It>, u64)> = vec![];
    let mut k = 0;
    let mut biggest = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1 as usize;
        take();
        let (what, n) = match op.0 {
            0..=2 => {
                k += 1;
                ts.push((Tree::new(d as u32 % 3, name(), It(k, k), None, None).unwrap(), 1));
                ("making a leaf", 1)
            }
            3..=6 => {
                k += 1;
                let l = if d % 5 > 0 { ts.pop() } else { None };
                let r = if d % 7 > 0 { ts.pop() } else { None };
                let n = 1 + l.as_ref().map_or(0, |x| x.1) + r.as_ref().map_or(0, |x| x.1);
                let t = Tree::new(d as u32 % 1000 + 3, name(), It(k, k), l.map(|x| x.0), r.map(|x| x.0)).unwrap();
                ts.push((t, n));
                ("making a node", n)
            }
            _ => {
                if ts.is_empty() {
                    continue;
                }
                let (t, n) = ts[d % ts.len()].clone();
                take();
                let what = match op.0 {
                    7 | 8 => {
                        let _ = t.peek();
                        "peeking at a node"
                    }
                    9 => {
                        let _ = (t.l_tree().is_some(), t.r_tree().is_some());
                        "going to a branch"
                    }
                    10 => {
                        let _ = (t.level(), t.name());
                        "asking level and name"
                    }
                    _ => {
                        let _ = t.clone();
                        "copying a tree"
                    }
                };
                (what, n)
            }
        };
        biggest = biggest.max(n);
        within(what, i, op, take(), 0, n, st)?;
    }
    st.nontrivial = biggest > 4;
    st.note = format!("tree of up to {} nodes", biggest);
    Ok(())
}

fn joins(c: &Case<DOp>, st: &mut Stats) -> Result<(), String> {
    let mut name = namer(c);
    // leaves of length `len`; operands are joined in a balanced order, levels ascending
    let mut ts: Vec<(RazTree<It, Mt>, u64, u32)> = vec![];
    let mut k = 0;
    let mut biggest = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let d = op.1;
        take();
        let (what, local, n) = match op.0 {
            0..=4 => {
                let len = d % 50 + 1;
                let v = (0..len).map(|j| It(k + j, k + j)).collect();
                k += len;
                ts.push((RazTree::from_vec(v).unwrap(), len as u64, 0));
                ("making a sequence of a vector", len as u64, len as u64)
            }
            5..=8 => {
                if ts.len() < 2 {
                    continue;
                }
                let (r, rn, rl) = ts.pop().unwrap();
                let (l, ln, ll) = ts.pop().unwrap();
                let lev = ll.max(rl) + 1;
                let t = RazTree::join(l, lev, name(), r).ok_or("join failed")?;
                if t.meta().0 as u64 != ln + rn {
                    return Err(format!("at operation {}: {} elements joined with {}: metadata {:?}", i, ln, rn, t.meta()));
                }
                ts.push((t, ln + rn, lev));
                // a leaf is at hand on each side
                ("joining", 100, ln + rn)
            }
            _ => {
                if ts.is_empty() {
                    continue;
                }
                let (t, n, _) = &ts[d as usize % ts.len()];
                let z = t.clone();
                let _ = (z.meta().0, z.is_empty());
                ("copying a sequence", 0, *n)
            }
        };
        let w = take();
        st.max(&format!("{}: metadata calls", what), w.metas);
        st.max(&format!("{}: metadata copies", what), w.looks);
        if w.metas > 16 || w.looks > 40 {
            return Err(format!("at operation {} ({:?}): {} computed metadata {} times and copied {}; the sequence has {} elements", i, op, what, w.metas, w.looks, n));
        }
        within(what, i, op, w, local, n, st)?;
        biggest = biggest.max(n);
    }
    st.nontrivial = biggest > 100;
    st.note = format!("joined up to {} elements", biggest);
    Ok(())
}

fn map(c: &Case<DOp>, st: &mut Stats) -> Result<(), String> {
    // keys of one class share the whole hash; others practically never share 40 bits and more
    let mut rng = Rng::new(c.cfg[1]);
    let path = *rng.pick(&[40usize, 52, 64]);
    let classes = *rng.pick(&[1u32, 3, 40, 1000]);
    let keys = classes * *rng.pick(&[1u32, 2, 6]);
    let mut m: Skiplist<It, It> = Skiplist::emp(path, name_of_usize(0));
    let mut model: HashMap<u32, u32> = HashMap::new();
    let mut seen: HashMap<u32, Vec<u32>> = HashMap::new();
    let mut k = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let id = op.1 % keys;
        let key = It(id, id % classes);
        k += 1;
        let slot = seen.get(&(id % classes)).map_or(0, |v| v.len()) as u64;
        take();
        let (what, got, want) = match op.0 {
            0..=4 => {
                m.put(key, It(k, 0));
                model.insert(id, k);
                ("putting", None, None)
            }
            5 | 6 => ("replacing", m.ext(key, Some(It(k, 0))), model.insert(id, k)),
            7 => ("removing", m.rem(key), model.remove(&id)),
            8..=10 => ("getting", m.get(key), model.get(&id).cloned()),
            _ => {
                m.archive(name_of_usize(i + 1));
                ("archiving a map", None, None)
            }
        };
        let w = take();
        if got.as_ref().map(|g| g.0) != want {
            return Err(format!("at operation {} ({:?}): {} gives {:?}, expected {:?}", i, op, what, got, want));
        }
        if op.0 <= 7 {
            let v = seen.entry(id % classes).or_default();
            if !v.contains(&id) {
                v.push(id);
            }
        }
        within(what, i, op, w, slot, seen.values().map(|v| v.len()).sum::<usize>() as u64, st)?;
    }
    st.nontrivial = model.len() > 1 || c.ops.len() > 40;
    st.note = format!("map of {} keys in {} slots, path length {}", model.len(), seen.len(), path);
    Ok(())
}
