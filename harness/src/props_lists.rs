//! Stacks, archive stacks, finite maps.
use crate::common::*;
use crate::model::*;
use crate::rsim::huge;
use adapton::engine::*;
use adapton::macros::*;
use iodyn::archive_stack::AStack;
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::{Head, Stack};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------ AStack

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum AOp {
    Push(u32),
    Run(u32, u32),
    Pop(u32),
    PopMeta(u32),
    Peek,
    Archive(bool, u32),
    ArchiveCap(bool, u32, u16),
    Next,
    Extend(u8),
    Keep,
    Switch(u32),
    Look(u32),
    Drain,
    Conv,
}
pub struct AStackProp;

#[derive(Clone)]
struct AModel<M> {
    cur: Vec<String>,
    arch: Vec<(ON, M, Vec<String>)>,
}

trait Meta: Clone + Debug + Eq + Hash + 'static {
    fn mk(u: u32) -> Self;
}
impl Meta for u32 {
    fn mk(u: u32) -> Self {
        u
    }
}
impl Meta for () {
    fn mk(_: u32) -> Self {}
}
impl Meta for (String, Option<u32>) {
    fn mk(u: u32) -> Self {
        (format!("m{}", u), if u % 2 == 0 { Some(u) } else { None })
    }
}
impl Prop for AStackProp {
    type Op = AOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 600_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<AOp> {
        let n = rng.range(4, 120);
        let pops = *rng.pick(&[2u32, 6, 10]);
        let nm = rng.below(3);
        let mut v = vec![];
        let large = huge(rng);
        let n = if large { 14 } else { n };
        if large && rng.chance(1, 2) {
            // thousands of archives
            for _ in 0..rng.range(400, 4000) {
                v.push(AOp::Run(rng.range(1, 4) as u32, rng.below(1000) as u32));
                v.push(AOp::Archive(nm == 0 || (nm == 1 && rng.chance(1, 2)), rng.below(50) as u32));
            }
        } else if large {
            for _ in 0..rng.range(1, 3) {
                v.push(AOp::Run(*rng.pick(&[4097u32, 8193, 16_400, 33_000, 65_537, 70_001]), rng.below(1000) as u32));
                v.push(AOp::Archive(nm == 0 || (nm == 1 && rng.chance(1, 2)), rng.below(50) as u32));
                v.push(AOp::Pop(*rng.pick(&[1u32, 30, 3000])));
            }
        }
        for _ in 0..n {
            let named = nm == 0 || (nm == 1 && rng.chance(1, 2));
            v.push(match rng.weighted(&[12, 4, pops, pops, 4, 6, 3, 3, 1, 2, 2, 2, 1, 1]) {
                0 => AOp::Push(rng.below(1000) as u32),
                1 => AOp::Run(rng.range(2, 12) as u32, rng.below(1000) as u32),
                2 => AOp::Pop(if rng.chance(1, 5) { rng.range(2, 20) as u32 } else { 1 }),
                3 => AOp::PopMeta(if rng.chance(1, 5) { rng.range(2, 20) as u32 } else { 1 }),
                4 => AOp::Peek,
                5 => AOp::Archive(named, rng.below(50) as u32),
                6 => AOp::ArchiveCap(named, rng.below(50) as u32, *rng.pick(&[0u16, 1, 4, 64, 200, 300, 500, 512, 1024, 4096])),
                7 => AOp::Next,
                8 => AOp::Extend(rng.below(8) as u8),
                9 => AOp::Keep,
                10 => AOp::Switch(rng.u64() as u32),
                11 => AOp::Look(rng.u64() as u32),
                12 => AOp::Drain,
                _ => AOp::Conv,
            });
        }
        Case { dcg: idx % 2 == 1, cfg: vec![rng.below(3) as u64, *rng.pick(&[0u64, 0, 7, 100, 500, 2000])], ops: v }
    }
    fn run(&self, c: &Case<AOp>, st: &mut Stats) -> Result<(), String> {
        match c.cfg[0] {
            0 => astack::<u32>(c, st),
            1 => astack::<()>(c, st),
            _ => astack::<(String, Option<u32>)>(c, st),
        }
    }
}
fn val(u: u32) -> String {
    format!("v{}", u)
}
fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {}, expected {}", what, trunc(&format!("{:?}", got), 500), trunc(&format!("{:?}", want), 500)))
    }
}
fn apop<M: Meta>(m: &mut AModel<M>) -> Option<(String, Option<M>)> {
    let mut meta = None;
    if m.cur.is_empty() {
        let (_, me, v) = m.arch.pop()?;
        meta = Some(me);
        m.cur = v;
    }
    m.cur.pop().map(|e| (e, meta))
}
fn alook<M: Meta>(s: &AStack<String, M>, m: &AModel<M>, st: &mut Stats) -> Result<(), String> {
    same("is_empty", s.is_empty(), m.cur.is_empty() && m.arch.is_empty())?;
    same("active_len", s.active_len(), m.cur.len())?;
    same("active_data", s.active_data().clone(), m.cur.clone())?;
    same("name", s.name(), m.arch.last().and_then(|a| a.0.clone()))?;
    let pk = m.cur.last().cloned().or_else(|| m.arch.last().and_then(|a| a.2.last().cloned()));
    same("peek", s.peek(), pk)?;
    st.add("states compared", 1);
    Ok(())
}
fn afull<M: Meta>(s: &AStack<String, M>, m: &AModel<M>, st: &mut Stats) -> Result<(), String> {
    alook(s, m, st)?;
    let got: Vec<String> = s.clone().into_iter().collect();
    let mut want = vec![];
    let mut z = m.clone();
    while let Some((e, _)) = apop(&mut z) {
        want.push(e);
    }
    same("contents by iteration", got, want)?;
    let mut y = s.clone();
    let mut z = m.clone();
    loop {
        let w = apop(&mut z);
        let g = y.pop_meta();
        same("pop_meta", g.clone(), w)?;
        if g.is_none() {
            break;
        }
    }
    Ok(())
}
fn astack<M: Meta>(c: &Case<AOp>, st: &mut Stats) -> Result<(), String> {
    let mut s: AStack<String, M> = if c.cfg[1] == 0 { AStack::new() } else { AStack::with_capacity(c.cfg[1] as usize) };
    let mut m: AModel<M> = AModel { cur: vec![], arch: vec![] };
    let mut kept: Vec<(AStack<String, M>, AModel<M>)> = vec![];
    let mut k = 0;
    let mut maxa = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let mut name = |b: bool| {
            k += 1;
            if b {
                Some(user_name(k))
            } else {
                None
            }
        };
        let mut go = || -> Result<(), String> {
            match op {
                AOp::Push(e) => {
                    s.push(val(*e));
                    m.cur.push(val(*e));
                }
                AOp::Run(n, e) => {
                    for j in 0..*n {
                        s.push(val(e + j));
                        m.cur.push(val(e + j));
                    }
                }
                AOp::Pop(n) => {
                    for _ in 0..*n {
                        let w = apop(&mut m);
                        same("pop", s.pop(), w.map(|x| x.0))?;
                    }
                }
                AOp::PopMeta(n) => {
                    for _ in 0..*n {
                        let w = apop(&mut m);
                        same("pop_meta", s.pop_meta(), w)?;
                    }
                }
                AOp::Peek => alook(&s, &m, st)?,
                AOp::Archive(nm, u) | AOp::ArchiveCap(nm, u, _) => {
                    let n = name(*nm);
                    let meta = M::mk(*u);
                    let r = match op {
                        AOp::ArchiveCap(_, _, cap) => s.archive_with_capacity(n.clone(), meta.clone(), *cap as usize),
                        _ => s.archive(n.clone(), meta.clone()),
                    };
                    same("archive's result", r, !m.cur.is_empty())?;
                    if r {
                        let v = std::mem::replace(&mut m.cur, vec![]);
                        m.arch.push((n, meta, v));
                    }
                }
                AOp::Next => {
                    let want = if m.cur.is_empty() && m.arch.is_empty() {
                        None
                    } else {
                        match m.arch.pop() {
                            None => Some((std::mem::replace(&mut m.cur, vec![]), None)),
                            Some((_, me, v)) => Some((std::mem::replace(&mut m.cur, v), Some(me))),
                        }
                    };
                    same("next_archive", s.next_archive(), want)?;
                }
                AOp::Extend(n) => {
                    let x: Vec<String> = (0..*n as u32).map(val).collect();
                    s.extend(&x);
                    m.cur.extend(x);
                }
                AOp::Keep => {
                    if kept.len() < 8 {
                        kept.push((s.clone(), m.clone()))
                    }
                }
                AOp::Switch(j) => {
                    if !kept.is_empty() {
                        let (a, b) = kept[*j as usize % kept.len()].clone();
                        s = a;
                        m = b;
                    }
                }
                AOp::Look(j) => {
                    if !kept.is_empty() {
                        let (a, b) = &kept[*j as usize % kept.len()];
                        afull(a, b, st).map_err(|e| format!("a kept clone: {}", e))?;
                        st.add("kept clones re-examined", 1);
                    }
                }
                AOp::Drain => afull(&s, &m, st)?,
                AOp::Conv => {
                    // identity conversion; equality of clones; conversion from a vec
                    let a: AStack<String, M> = AStack::memo_from(&s);
                    let b: AStack<String, M> = s.memo_into();
                    afull(&a, &m, st).map_err(|e| format!("identity conversion: {}", e))?;
                    afull(&b, &m, st).map_err(|e| format!("identity conversion: {}", e))?;
                    let v: AStack<String, ()> = AStack::from(m.cur.clone());
                    afull(&v, &AModel { cur: m.cur.clone(), arch: vec![] }, st).map_err(|e| format!("from a vec: {}", e))?;
                }
            }
            alook(&s, &m, st)
        };
        go().map_err(|e| format!("at operation {} ({:?}): {}", i, op, e))?;
        maxa = maxa.max(m.arch.len());
        st.add("operations", 1);
    }
    afull(&s, &m, st)?;
    for (a, b) in &kept {
        afull(a, b, st).map_err(|e| format!("a kept clone at the end: {}", e))?;
    }
    st.max("archives", maxa as u64);
    if maxa >= 2 {
        st.nontrivial = true;
        st.note = format!("up to {} archives, {} kept clones", maxa, kept.len());
    }
    Ok(())
}

// ------------------------------------------------------------------ cons list

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum LOp {
    Push(u32, u32, bool),
    Pull(u32),
    Check(u32),
    New(u32, bool),
    Many(u32, u32, bool),
}
pub struct StackProp;
impl Prop for StackProp {
    type Op = LOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 70_000,
            Tier::Thorough => 600_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<LOp> {
        let large = huge(rng);
        let n = if large { 12 } else { rng.range(3, 60) };
        let b = rng.chance(1, 3);
        let v = (0..n)
            .map(|i| match rng.below(8) {
                _ if large && i == 1 => LOp::Many(*rng.pick(&[2100u32, 4097, 9000, 20_000]), rng.below(100) as u32, rng.chance(1, 2)),
                0..=3 => LOp::Push(if b { rng.u64() as u32 } else { 0 }, rng.below(100) as u32, rng.chance(1, 2)),
                4..=5 => LOp::Pull(rng.u64() as u32),
                6 => LOp::Check(rng.u64() as u32),
                _ => LOp::New(rng.below(100) as u32, rng.chance(1, 2)),
            })
            .collect();
        Case { dcg: idx % 2 == 1, cfg: vec![], ops: v }
    }
    fn run(&self, c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
        // a population of versions sharing tails
        let mut pop: Vec<(Stack<String>, Vec<(String, ON)>)> = vec![(Stack::new(), vec![])];
        let mut k = 0;
        let mut name = |b: bool| {
            k += 1;
            if b {
                Some(user_name(k))
            } else {
                None
            }
        };
        for (i, op) in c.ops.iter().enumerate() {
            let at = |m: String| format!("at operation {} ({:?}): {}", i, op, m);
            match op {
                LOp::Push(j, e, b) => {
                    let (s, m) = pop[pop.len() - 1 - (*j as usize % pop.len())].clone();
                    let n = name(*b);
                    let s2 = match (i % 2, &s.0) {
                        // through the nonempty-list type
                        (1, Some(h)) => Stack(Some(h.push(n.clone(), val(*e)))),
                        _ => s.push(n.clone(), val(*e)),
                    };
                    let mut m2 = m;
                    m2.push((val(*e), n));
                    pop.push((s2, m2));
                }
                LOp::Pull(j) => {
                    let (s, m) = pop[pop.len() - 1 - (*j as usize % pop.len())].clone();
                    let p = s.pull();
                    if m.is_empty() {
                        same("pull of an empty list", p, None).map_err(at)?;
                    } else {
                        let p = p.ok_or_else(|| at("pull of a nonempty list gave nothing".into()))?;
                        let h = s.0.as_ref().unwrap();
                        same("head pull", h.pull().map(|h| h.peek()), p.peek()).map_err(at)?;
                        pop.push((p, m[..m.len() - 1].to_vec()));
                    }
                }
                LOp::Many(n, e, b) => {
                    let (mut s, mut m) = pop.last().unwrap().clone();
                    for j in 0..*n {
                        let n = name(*b && j % 3 != 1);
                        s = s.push(n.clone(), val(e + j));
                        m.push((val(e + j), n));
                    }
                    pop.push((s, m));
                }
                LOp::New(e, b) => {
                    let n = name(*b);
                    pop.push((Stack(Some(Head::new(n.clone(), val(*e)))), vec![(val(*e), n)]));
                }
                LOp::Check(j) => {
                    let (s, m) = &pop[*j as usize % pop.len()];
                    check_list(s, m, st).map_err(at)?;
                }
            }
            let (s, m) = pop.last().unwrap();
            check_list(s, m, st).map_err(at)?;
            if pop.len() > 30 {
                pop.remove(3);
            }
        }
        for (s, m) in &pop {
            check_list(s, m, st).map_err(|e| format!("an earlier version at the end: {}", e))?;
        }
        st.max("list length", pop.iter().map(|p| p.1.len()).max().unwrap() as u64);
        st.nontrivial = pop.iter().map(|p| p.1.len()).max().unwrap() >= 4;
        st.note = format!("{} versions", pop.len());
        Ok(())
    }
}
fn check_list(s: &Stack<String>, m: &[(String, ON)], st: &mut Stats) -> Result<(), String> {
    st.add("lists compared", 1);
    same("is_empty", s.is_empty(), m.is_empty())?;
    same("peek", s.peek(), m.last().map(|x| x.0.clone()))?;
    same("name", s.name(), m.last().and_then(|x| x.1.clone()))?;
    let want: Vec<(String, ON)> = m.iter().rev().cloned().collect();
    let mut got = vec![];
    let mut it = s.iter();
    loop {
        let n = it.name();
        match it.next() {
            Some(e) => got.push((e, n)),
            None => {
                same("iterator name at the end", n, None)?;
                break;
            }
        }
    }
    same("iteration", got, want.clone())?;
    if let Some(h) = &s.0 {
        same("head peek", h.peek(), want[0].0.clone())?;
        same("head name", h.name(), want[0].1.clone())?;
        same("head iteration", h.iter().collect::<Vec<_>>(), want.iter().map(|x| x.0.clone()).collect())?;
    }
    Ok(())
}

// ------------------------------------------------------------------ skiplist

/// key whose hash collides as configured
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Key(u32, u32);
impl Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "k{}", self.0)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % self.1).hash(h)
    }
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum SOp {
    Put(u32, u32),
    Rem(u32),
    ExtSome(u32, u32),
    ExtNone(u32),
    Get(u32),
    Archive,
    Keep,
    Branch(u32),
    Sweep,
}
pub struct SkipProp;
impl Prop for SkipProp {
    type Op = SOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 16_000,
            Tier::Thorough => 300_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<SOp> {
        let n = if rng.chance(1, 20) { rng.range(200, 600) } else { rng.range(3, 90) };
        let large = huge(rng);
        let keys = if large { 100_000 } else { *rng.pick(&[2usize, 6, 20, 100, 100_000]) };
        // long stretches without archiving
        let quiet = rng.chance(1, 6);
        let n = if quiet { rng.range(60, 420) } else { n };
        let n = if large { rng.range(1000, 2500) } else { n };
        let rare = if quiet { 0 } else { 1 };
        let v = (0..n)
            .map(|_| {
                let k = rng.below(keys) as u32;
                match rng.weighted(&[10, 4, 3, 1, 6, 2 * rare, rare, rare, 1]) {
                    0 => SOp::Put(k, rng.below(1000) as u32),
                    1 => SOp::Rem(k),
                    2 => SOp::ExtSome(k, rng.below(1000) as u32),
                    3 => SOp::ExtNone(k),
                    4 => SOp::Get(rng.below(keys + 2) as u32),
                    5 => SOp::Archive,
                    6 => SOp::Keep,
                    7 => SOp::Branch(rng.u64() as u32),
                    _ => SOp::Sweep,
                }
            })
            .collect();
        let plen = if large { *rng.pick(&[5u64, 8, 16, 30, 63]) } else { *rng.pick(&[1u64, 2, 3, 5, 8, 16, 30, 63]) };
        let coll = *rng.pick(&[1u64, 2, 7, u32::max_value() as u64, u32::max_value() as u64, u32::max_value() as u64]);
        let memo = rng.chance(1, 3);
        if memo {
            // chunks of operations, and edits of them (`Branch`)
            let n = rng.range(2, 40);
            let keys = *rng.pick(&[2usize, 6, 20, 60]);
            let mut ops = vec![];
            for _ in 0..n {
                let k = rng.below(keys) as u32;
                ops.push(match rng.weighted(&[10, 3, 2, 5]) {
                    0 => SOp::Put(k, rng.below(6) as u32),
                    1 => SOp::Rem(k),
                    2 => SOp::Get(k),
                    _ => SOp::Archive,
                });
            }
            for _ in 0..rng.range(1, 6) {
                ops.push(SOp::Branch(rng.below(1 << 30) as u32));
            }
            return Case { dcg: !rng.chance(1, 8), cfg: vec![plen, coll, 1], ops };
        }
        Case { dcg: idx % 2 == 1, cfg: vec![plen, coll, 0], ops: v }
    }
    fn run(&self, c: &Case<SOp>, st: &mut Stats) -> Result<(), String> {
        if c.cfg.get(2) == Some(&1) {
            return skip_memo(c, st);
        }
        let coll = c.cfg[1] as u32;
        let key = |k: u32| Key(k, coll);
        let mut fresh = 0;
        let mut nn = || {
            fresh += 1;
            name_pair(nm("sk"), name_of_usize(fresh))
        };
        let mut s: Skiplist<Key, String> = Skiplist::emp(c.cfg[0] as usize, nn());
        let mut m: BTreeMap<u32, String> = BTreeMap::new();
        let mut kept: Vec<(Skiplist<Key, String>, BTreeMap<u32, String>)> = vec![];
        let mut touched: std::collections::BTreeSet<u32> = Default::default();
        let sweep = |s: &Skiplist<Key, String>, m: &BTreeMap<u32, String>, touched: &std::collections::BTreeSet<u32>, st: &mut Stats| -> Result<(), String> {
            for k in touched {
                same(&format!("get({})", k), s.get(key(*k)), m.get(k).cloned())?;
                st.add("lookups compared", 1);
            }
            Ok(())
        };
        let mut overw = 0;
        for (i, op) in c.ops.iter().enumerate() {
            let at = |m: String| format!("at operation {} ({:?}): {}", i, op, m);
            match op {
                SOp::Put(k, v) => {
                    s.put(key(*k), val(*v));
                    if m.insert(*k, val(*v)).is_some() {
                        overw += 1;
                    }
                    touched.insert(*k);
                }
                SOp::Rem(k) => {
                    same("rem's prior value", s.rem(key(*k)), m.remove(k)).map_err(at)?;
                    touched.insert(*k);
                }
                SOp::ExtSome(k, v) => {
                    same("ext's prior value", s.ext(key(*k), Some(val(*v))), m.insert(*k, val(*v))).map_err(at)?;
                    touched.insert(*k);
                }
                SOp::ExtNone(k) => {
                    same("ext's prior value", s.ext(key(*k), None), m.remove(k)).map_err(at)?;
                    touched.insert(*k);
                }
                SOp::Get(k) => {
                    same("get", s.get(key(*k)), m.get(k).cloned()).map_err(at)?;
                    touched.insert(*k);
                }
                SOp::Archive => s.archive(nn()),
                SOp::Keep => {
                    if kept.len() < 5 {
                        kept.push((s.clone(), m.clone()));
                        // the two versions must not create the same names
                        s.archive(nn());
                    }
                }
                SOp::Branch(j) => {
                    if !kept.is_empty() {
                        let j = *j as usize % kept.len();
                        let (a, b) = kept[j].clone();
                        s = a;
                        m = b;
                        s.archive(nn());
                        st.add("branches from a kept version", 1);
                    }
                }
                SOp::Sweep => sweep(&s, &m, &touched, st).map_err(at)?,
            }
            st.add("operations", 1);
        }
        sweep(&s, &m, &touched, st).map_err(|e| format!("at the end: {}", e))?;
        for (a, b) in &kept {
            sweep(a, b, &touched, st).map_err(|e| format!("kept version at the end: {}", e))?;
        }
        st.max("keys", m.len() as u64);
        st.seen("distinct (path length, collision) settings", &(c.cfg[0], coll));
        st.nontrivial = m.len() >= 2 && overw >= 1;
        st.note = format!("{} keys, {} overwrites, path length {}", m.len(), overw, c.cfg[0]);
        Ok(())
    }
}

/// One memoised step per chunk of operations: the state after a chunk is the
/// argument of the next, and a chunk archives under its own name, as eval's
/// archive folds over a skiplist do.
type Chunks = Rc<Vec<(Name, Art<Vec<SOp>>)>>;
thread_local!(static STEPS: std::cell::Cell<u64> = std::cell::Cell::new(0));
fn skip_steps(s: Skiplist<Key, String>, cs: Chunks, i: usize, coll: u32) -> (Skiplist<Key, String>, Vec<Option<String>>) {
    if i == cs.len() {
        return (s, vec![]);
    }
    STEPS.with(|n| n.set(n.get() + 1));
    let mut s = s;
    let mut seen = vec![];
    s.archive(cs[i].0.clone());
    for op in force(&cs[i].1) {
        match op {
            SOp::Put(k, v) => s.put(Key(k, coll), val(v)),
            SOp::Rem(k) => seen.push(s.rem(Key(k, coll))),
            SOp::Get(k) => seen.push(s.get(Key(k, coll))),
            _ => {}
        }
    }
    let nm = cs[i].0.clone();
    let (s, mut rest) = memo!(nm =>> skip_steps, s:s, cs:cs, i:i + 1, coll:coll);
    seen.append(&mut rest);
    (s, seen)
}
fn skip_memo(c: &Case<SOp>, st: &mut Stats) -> Result<(), String> {
    let coll = c.cfg[1] as u32;
    let mut chunks: Vec<Vec<SOp>> = vec![vec![]];
    let mut edits = vec![];
    for op in &c.ops {
        match op {
            SOp::Archive => chunks.push(vec![]),
            SOp::Branch(r) => edits.push(*r),
            op => chunks.last_mut().unwrap().push(op.clone()),
        }
    }
    let cname = |i: usize| name_pair(nm("sk-chunk"), name_of_usize(i));
    let place = |chunks: &Vec<Vec<SOp>>| -> Chunks {
        Rc::new(chunks.iter().enumerate().map(|(i, v)| (cname(i), cell(name_pair(nm("sk-cell"), name_of_usize(i)), v.clone()))).collect())
    };
    let (mut reused, mut steps_total) = (0, 0);
    for round in 0..edits.len() + 1 {
        if round > 0 {
            let r = edits[round - 1] as usize;
            let i = (r >> 4) % chunks.len();
            let v = &mut chunks[i];
            let k = ((r >> 12) % 24) as u32;
            match r % 4 {
                0 if !v.is_empty() => {
                    let j = (r >> 12) % v.len();
                    v.remove(j);
                }
                1 => v.push(SOp::Put(k, (r >> 18) as u32 % 6)),
                2 => v.insert(0, SOp::Put(k, (r >> 18) as u32 % 6)),
                _ => v.push(SOp::Rem(k)),
            }
        }
        let cs = place(&chunks);
        STEPS.with(|n| n.set(0));
        let plen = c.cfg[0] as usize;
        let (s, seen) = ns(nm("skns"), || {
            let s: Skiplist<Key, String> = Skiplist::emp(plen, nm("sk-emp"));
            memo!(nm("sk-root") =>> skip_steps, s:s, cs:cs, i:0, coll:coll)
        });
        let steps = STEPS.with(|n| n.get());
        let mut m: BTreeMap<u32, String> = BTreeMap::new();
        let mut want = vec![];
        for op in chunks.iter().flat_map(|v| v.iter()) {
            match op {
                SOp::Put(k, v) => {
                    m.insert(*k, val(*v));
                }
                SOp::Rem(k) => want.push(m.remove(k)),
                SOp::Get(k) => want.push(m.get(k).cloned()),
                _ => {}
            }
        }
        let at = |e: String| format!("memoised steps, run {}: {}", round, e);
        same("prior values and lookups", seen, want).map_err(at)?;
        for k in 0..62 {
            same(&format!("get({})", k), s.get(Key(k, coll)), m.get(&k).cloned()).map_err(at)?;
            st.add("lookups compared", 1);
        }
        steps_total += steps;
        if round > 0 && (steps as usize) < chunks.len() {
            reused += 1;
        }
        st.add("memoised runs compared", 1);
    }
    st.add("re-runs that reused a step", reused);
    st.nontrivial = edits.len() > 0 && steps_total > 1;
    st.note = format!("{} chunks, {} edits, {} steps run", chunks.len(), edits.len(), steps_total);
    Ok(())
}
