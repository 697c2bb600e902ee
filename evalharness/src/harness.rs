//! The eval crate's test-data harnesses (creation and editing) and the computations over them.
use crate::common::*;
use crate::model::*;
use adapton::engine::*;
use eval::accum_lists::{List, RcList, RcVecList, VecList};
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::eval_vec::EvalVec;
use eval::interface::{IFaceArchive, IFaceNew, IFaceSeq};
use eval::primitives::*;
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, Names, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::{IRaz, IRazTree};
use rand::{Rng as RRng, SeedableRng, StdRng};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use time::Duration;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum HOp {
    Insert(u16),
    Append(u16),
    One,
    Extend(u16),
}
pub struct HarnessProp {
    pub comps: bool,
}

const MAX: u32 = 1;
const FOLD: u32 = 2;
const TFOLD: u32 = 4;
const MAP: u32 = 8;
const META: u32 = 16;
const ARCH: u32 = 32;
const TNL: u32 = 64;
const TG: u32 = 128;
const REV: u32 = 256;
const FILTER: u32 = 512;
const STR: u32 = 1024;
const UNIQ: u32 = 2048;
const LISTS: u32 = 4096;
const ADDER: u32 = 8192;
const NCOMP: u32 = 14;

impl Prop for HarnessProp {
    type Op = HOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 6000,
            Tier::Thorough => 150_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<HOp> {
        let kind = rng.weighted(&[6, 3, if self.comps { 1 } else { 2 }]) as u64;
        let create = rng.weighted(&[8, 2, 1, 1, 1]) as u64;
        let dg = if rng.chance(1, 8) { rng.range(10, 60) } else { rng.range(1, 6) };
        let ng = rng.range(1, 4);
        let size = if rng.chance(1, 12) { rng.range(200, if self.comps { 600 } else { 2500 }) } else { rng.range(0, 120) };
        let mut mask = 0u32;
        if self.comps {
            for _ in 0..rng.range(2, 6) {
                mask |= 1 << rng.below(NCOMP as usize);
            }
        }
        let mut v = vec![];
        if rng.chance(1, 50) {
            // long runs and long sequences: wide gauges, edits of hundreds to thousands
            let dg = if self.comps { rng.range(250, 2200) } else { *rng.pick(&[20, 33, 100, 257, 1000, 1025, 4100]) };
            let size = if rng.chance(1, 2) { 0 } else { rng.range(1, 4000) };
            for _ in 0..rng.range(1, 5) {
                let low = if rng.chance(1, 2) { 1 } else { 300 };
                let b = rng.range(low, if self.comps { 3000 } else { 6000 }) as u16;
                v.push(match rng.weighted(&[4, 6, 3, if kind == 2 { 4 } else { 0 }]) {
                    0 => HOp::Insert(b),
                    1 => HOp::Append(b),
                    2 => HOp::One,
                    _ => HOp::Extend(b),
                });
            }
            return Case {
                dcg: !rng.chance(1, 4),
                cfg: vec![kind, if size == 0 { 1 } else { 0 }, size as u64, dg as u64, ng as u64, rng.below(1 << 30) as u64, rng.below(1 << 30) as u64, mask as u64],
                ops: v,
            };
        }
        for _ in 0..rng.range(1, if self.comps { 9 } else { 14 }) {
            let b = if rng.chance(1, 6) { rng.range(0, 90) } else { rng.range(1, 8) } as u16;
            v.push(match rng.weighted(&[10, 6, 3, if kind == 2 { 5 } else { 0 }]) {
                0 => HOp::Insert(b),
                1 => HOp::Append(b),
                2 => HOp::One,
                _ => HOp::Extend(b),
            });
        }
        Case {
            dcg: self.comps && !rng.chance(1, 4) || !self.comps && idx % 2 == 1,
            cfg: vec![kind, create, size as u64, dg as u64, ng as u64, rng.below(1 << 30) as u64, rng.below(1 << 30) as u64, mask as u64],
            ops: v,
        }
    }
    fn run(&self, c: &Case<HOp>, st: &mut Stats) -> Result<(), String> {
        let go = |st: &mut Stats| match c.cfg[0] {
            0 => sim::<EvalIRaz<u32, StdRng>>(c, st),
            1 => sim::<EvalRazNameIndex<u32, StdRng>>(c, st),
            _ => sim::<EvalVec<u32, StdRng>>(c, st),
        };
        let log = go(st)?;
        if !self.comps && c.cfg[0] != 1 && c.cfg[5] % 3 == 0 {
            // same seeds, fresh engine: everything must come out the same
            set_engine(c.dcg);
            let log2 = go(&mut Stats::default())?;
            if log != log2 {
                return Err("the same parameters and seeds give different sequences in two runs".into());
            }
            st.add("runs repeated with equal seeds", 1);
        }
        Ok(())
    }
}

type Tr = Rc<Vec<Tok>>;
fn app(mut a: Tr, t: Tok) -> Tr {
    Rc::make_mut(&mut a).push(t);
    a
}
fn cat(a: Tr, b: Tr) -> Tr {
    let mut v = (*a).clone();
    v.extend_from_slice(&b);
    Rc::new(v)
}
fn rng0() -> StdRng {
    StdRng::from_seed(&[99])
}

pub trait Obs: Sized + Clone {
    const NAME: &'static str;
    /// archive points are kept
    const TOKS: bool;
    const BY_NAME: bool;
    fn toks(&self) -> Vec<Tok>;
    fn init(size: usize, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self;
    fn empty(dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self;
    fn from(how: u64, src: &Source, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self;
    fn edit(self, op: &HOp, rng: &mut StdRng) -> Self;
    fn comps(&self, t: &[Tok], mask: u32, st: &mut Stats, cx: &Cx) -> Result<(), String>;
}
/// what a harness may be created from
pub struct Source(Vec<Tok>);
impl Source {
    fn raz<M: RazMeta<u32> + 'static>(&self) -> Raz<u32, M> {
        let mut r = Raz::new();
        for t in &self.0 {
            match t {
                Tok::E(e) => {
                    r.push_left(*e);
                }
                Tok::B(l, n) => {
                    r.archive_left(*l, n.clone());
                }
            }
        }
        r
    }
    fn stack(&self) -> AStack<u32, u32> {
        let mut s: AStack<u32, u32> = AStack::new();
        for t in &self.0 {
            match t {
                Tok::E(e) => {
                    s.push(*e);
                }
                Tok::B(l, n) => {
                    AStack::archive(&mut s, n.clone(), *l);
                }
            }
        }
        s
    }
}
macro_rules! raz_obs {
    ($m:ty) => {
        fn toks(&self) -> Vec<Tok> {
            let (_, v): (_, Tr) = ns(nm("h-obs"), || {
                self.comp_fold_meta(
                    Rc::new(vec![]),
                    Rc::new(|a: Tr, e: &u32| app(a, Tok::E(*e))),
                    Rc::new(|a: Tr, (l, n): (u32, ON)| app(a, Tok::B(l, n))),
                    &mut rng0(),
                )
            });
            (*v).clone()
        }
        fn init(size: usize, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
            let (_, d): (Duration, Self) = IncrementalInit { size: size, datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng);
            d
        }
        fn empty(dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
            let (_, d): (Duration, Self) = IncrementalEmpty { datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng);
            d
        }
        fn from(how: u64, src: &Source, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
            let (_, d): (Duration, Self) = match how {
                2 => IncrementalFrom { data: src.raz::<$m>(), datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng),
                3 => IncrementalFrom { data: src.raz::<$m>().unfocus(), datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng),
                _ => {
                  // the stack in its own namespace: it and the tree use the same names
                  let stack = ns(nm("from-stack-src"), || src.stack());
                  ns(nm("from-stack"), || {
                    IncrementalFrom { data: AtTail(stack), datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng)
                  })
                }
            };
            d
        }
        fn edit(self, op: &HOp, rng: &mut StdRng) -> Self {
            match op {
                HOp::Insert(b) => BatchInsert(*b as usize).edit(self, rng).1,
                HOp::Append(b) => BatchAppend(*b as usize).edit(self, rng).1,
                HOp::One => SingleAppend.edit(self, rng).1,
                HOp::Extend(_) => self,
            }
        }
    };
}

impl Obs for EvalIRaz<u32, StdRng> {
    const NAME: &'static str = "EvalIRaz";
    const TOKS: bool = true;
    const BY_NAME: bool = false;
    raz_obs!(Count);
    fn comps(&self, t: &[Tok], mask: u32, st: &mut Stats, cx: &Cx) -> Result<(), String> {
        common_comps::<Self, IRazTree<u64>>(self, t, mask, st)?;
        iraz_comps(self, t, mask, st, cx)
    }
}
impl Obs for EvalRazNameIndex<u32, StdRng> {
    const NAME: &'static str = "EvalRazNameIndex";
    const TOKS: bool = true;
    const BY_NAME: bool = true;
    raz_obs!(Names);
    fn comps(&self, t: &[Tok], mask: u32, st: &mut Stats, _: &Cx) -> Result<(), String> {
        common_comps::<Self, RazTree<u64, Names>>(self, t, mask, st)
    }
}
impl Obs for EvalVec<u32, StdRng> {
    const NAME: &'static str = "EvalVec";
    const TOKS: bool = false;
    const BY_NAME: bool = false;
    fn toks(&self) -> Vec<Tok> {
        let mut nat = Native::new(|v: &Vec<u32>| v.clone());
        let _: Duration = nat.compute(self, &mut rng0());
        self.comp_native(Rc::new(|v: &Vec<u32>| v.iter().map(|e| Tok::E(*e)).collect::<Vec<_>>()), &mut rng0()).1
    }
    fn init(size: usize, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
        let (_, d): (Duration, Self) = IncrementalInit { size: size, datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng);
        d
    }
    fn empty(dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
        let (_, d): (Duration, Self) = IncrementalEmpty { datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng);
        d
    }
    fn from(_: u64, src: &Source, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
        let (_, d): (Duration, Self) =
            IncrementalFrom { data: elems(&src.0), datagauge: dg, namegauge: ng, coord: coord.clone() }.create(rng);
        d
    }
    fn edit(self, op: &HOp, rng: &mut StdRng) -> Self {
        match op {
            HOp::Insert(b) => BatchInsert(*b as usize).edit(self, rng).1,
            HOp::Append(b) => BatchAppend(*b as usize).edit(self, rng).1,
            HOp::One => SingleAppend.edit(self, rng).1,
            HOp::Extend(b) => BatchExtend(*b as usize).edit(self, rng).1,
        }
    }
    fn comps(&self, t: &[Tok], mask: u32, st: &mut Stats, _: &Cx) -> Result<(), String> {
        vec_comps(self, &elems(t), mask, st)
    }
}

// ------------------------------------------------------------------ contents

type Bounds = BTreeMap<usize, (u32, ON)>;
fn gaps(t: &[Tok]) -> (Vec<u32>, Bounds) {
    let mut es = vec![];
    let mut b = BTreeMap::new();
    for x in t {
        match x {
            Tok::E(e) => es.push(*e),
            Tok::B(l, n) => {
                b.insert(es.len(), (*l, n.clone()));
            }
        }
    }
    (es, b)
}
struct Gauge {
    dg: usize,
    ng: usize,
    counter: usize,
}
impl Gauge {
    /// after the j-th further element: Some(named) when an archive point is placed
    fn at(&self, j: usize) -> Option<bool> {
        let k = self.counter + j;
        if k % (self.dg * self.ng) == 0 {
            Some(true)
        } else if k % self.dg == 0 {
            Some(false)
        } else {
            None
        }
    }
}
fn fresh_point(got: Option<&(u32, ON)>, named: bool, used: &mut HashSet<Name>, at: usize) -> Result<(), String> {
    match got {
        None => Err(format!("no archive point after element {}, where the gauge asks for one", at)),
        Some((l, n)) => {
            if *l < 1 || *l > 64 {
                return Err(format!("the archive point after element {} has level {}", at, l));
            }
            if n.is_some() != named {
                return Err(format!("the archive point after element {} is {}", at, if named { "not named, though due" } else { "named, though not due" }));
            }
            if let Some(n) = n {
                if !used.insert(n.clone()) {
                    return Err(format!("the archive point after element {} reuses the name {:?}", at, n));
                }
            }
            Ok(())
        }
    }
}
/// `new` is `old` with `data` put in at element position `p`
fn inserted(old: &[Tok], new: &[Tok], p: usize, data: &[u32], g: &Gauge, toks: bool) -> Result<(), String> {
    let (oe, ob) = gaps(old);
    let (ne, nb) = gaps(new);
    let mut want = oe[..p].to_vec();
    want.extend_from_slice(data);
    want.extend_from_slice(&oe[p..]);
    if ne != want {
        let k = ne.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{} elements, expected {} ({} put in at {}); element {} is {:?}, expected {:?}",
            ne.len(),
            want.len(),
            data.len(),
            p,
            k,
            ne.get(k),
            want.get(k)
        ));
    }
    if !toks {
        return Ok(());
    }
    let b = data.len();
    if b == 0 {
        return if new == old { Ok(()) } else { Err("an edit of no elements changes the archive points".into()) };
    }
    let mut used: HashSet<Name> = ob.values().filter_map(|x| x.1.clone()).collect();
    let mut rest = nb.clone();
    // old archive points elsewhere
    for (gp, v) in ob.iter().filter(|(gp, _)| **gp != p) {
        let at = if *gp < p { *gp } else { gp + b };
        match rest.remove(&at) {
            Some(ref w) if w == v => {}
            w => return Err(format!("the archive point {:?} of position {} (now {}) became {:?}", v, gp, at, w)),
        }
    }
    // inside the batch
    for j in 1..b {
        let w = rest.remove(&(p + j));
        match g.at(j) {
            None if w.is_some() => return Err(format!("an archive point {:?} inside the batch at {} where none is due", w, p + j)),
            None => {}
            Some(named) => fresh_point(w.as_ref(), named, &mut used, p + j)?,
        }
    }
    let before = rest.remove(&p);
    let after = rest.remove(&(p + b));
    let end = p + b == ne.len();
    match (ob.get(&p), g.at(b)) {
        _ if end => {
            if after.is_some() || before.is_some() {
                return Err(format!("archive points {:?}, {:?} around a batch at the end", before, after));
            }
        }
        (None, due) => {
            if before.is_some() {
                return Err(format!("an archive point {:?} appeared before the batch", before));
            }
            match due {
                None if after.is_some() => return Err(format!("an archive point {:?} appeared after the batch", after)),
                None => {}
                Some(named) => fresh_point(after.as_ref(), named, &mut used, p + b)?,
            }
        }
        (Some(o), due) => {
            if before.as_ref() == Some(o) {
                // the cursor was right of it
                match due {
                    None if after.is_some() => return Err(format!("an archive point {:?} appeared after the batch", after)),
                    None => {}
                    Some(named) => fresh_point(after.as_ref(), named, &mut used, p + b)?,
                }
            } else if before.is_some() {
                return Err(format!("the archive point {:?} at the edit became {:?}", o, before));
            } else if after.as_ref() != Some(o) {
                match due {
                    None => return Err(format!("the archive point {:?} at the edit became {:?}", o, after)),
                    Some(named) => fresh_point(after.as_ref(), named, &mut used, p + b)?,
                }
            }
        }
    }
    if let Some((gp, v)) = rest.iter().next() {
        return Err(format!("an archive point {:?} appeared at {}", v, gp));
    }
    Ok(())
}

fn sim<H: Obs>(c: &Case<HOp>, st: &mut Stats) -> Result<Vec<Vec<Tok>>, String> {
    let (create, size, dg, ng) = (c.cfg[1], c.cfg[2] as usize, c.cfg[3] as usize, c.cfg[4] as usize);
    let mask = c.cfg[7] as u32;
    let coord = StdRng::from_seed(&[c.cfg[5] as usize]);
    let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
    let mut c2 = coord.clone();
    let mut g = Gauge { dg: dg, ng: ng, counter: 0 };
    let mut log: Vec<Vec<Tok>> = vec![];
    let cx = Cx::new(c.cfg[5], dg, ng, coord.clone());
    let mut h: H;
    match create {
        0 => {
            h = H::init(size, dg, ng, &coord, &mut rng);
            let data: Vec<u32> = c2.gen_iter().take(size).collect();
            let t = h.toks();
            inserted(&[], &t, 0, &data, &g, H::TOKS).map_err(|e| format!("{} created with size {} gauges {},{}: {}", H::NAME, size, dg, ng, e))?;
            log.push(t);
        }
        1 => {
            h = H::empty(dg, ng, &coord, &mut rng);
            let t = h.toks();
            if !t.is_empty() {
                return Err(format!("{} created empty holds [{}]", H::NAME, show(&t)));
            }
            log.push(t);
        }
        _ => {
            let mut r = Rng::new(c.cfg[5]);
            let mut s = vec![];
            for i in 0..(size % 150) {
                s.push(Tok::E(r.below(1000) as u32));
                if i + 1 < size % 150 && r.chance(1, 4) {
                    s.push(Tok::B(r.geo_level(), if r.chance(2, 3) { Some(user_name(1_000_000 + i)) } else { None }));
                }
            }
            let src = Source(s);
            h = H::from(create, &src, dg, ng, &coord, &mut rng);
            let t = h.toks();
            let want: Vec<Tok> = if !H::TOKS {
                elems(&src.0).into_iter().map(Tok::E).collect()
            } else {
                src.0
                    .iter()
                    .map(|x| match x {
                        Tok::B(l, n) if create < 4 => Tok::B(*l, tree_name(n)),
                        x => x.clone(),
                    })
                    .collect()
            };
            if t != want {
                return Err(format!("{} created from data (way {}) holds [{}], expected [{}]", H::NAME, create, show(&t), show(&want)));
            }
            log.push(t);
        }
    }
    st.add(&format!("{} created", H::NAME), 1);
    if mask != 0 {
        h.comps(log.last().unwrap(), mask, st, &cx).map_err(|e| format!("{} after creation: {}", H::NAME, e))?;
    }
    let mut edits = 0;
    let mut most = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let old = log.last().unwrap().clone();
        let n = elems(&old).len();
        let named: Vec<usize> = gaps(&old).1.iter().filter(|(_, v)| v.1.is_some()).map(|(g, _)| *g).collect();
        // (place, data, generator afterwards)
        let mut cand: Vec<(Vec<usize>, Vec<u32>, StdRng)> = vec![];
        let b = match op {
            HOp::Insert(b) => {
                let b = *b as usize;
                if n == 0 || (H::BY_NAME && named.is_empty()) {
                    continue;
                }
                for first in [true, false] {
                    let mut k = c2.clone();
                    let mut loc = if first { k.gen::<usize>() } else { 0 };
                    let data: Vec<u32> = k.gen_iter().take(b).collect();
                    if !first {
                        loc = k.gen::<usize>();
                    }
                    let at = if H::BY_NAME { named.clone() } else { vec![loc % n] };
                    if !H::TOKS {
                        // one by one at the same place
                        let mut d = data.clone();
                        d.reverse();
                        cand.push((at.clone(), d, k.clone()));
                    }
                    cand.push((at, data, k));
                }
                b
            }
            HOp::Append(_) | HOp::One | HOp::Extend(_) => {
                let b = match op {
                    HOp::Append(b) | HOp::Extend(b) => *b as usize,
                    _ => 1,
                };
                if let (HOp::Extend(_), true) = (op, H::TOKS) {
                    continue;
                }
                let mut k = c2.clone();
                let data: Vec<u32> = k.gen_iter().take(b).collect();
                cand.push((vec![n], data, k));
                b
            }
        };
        h = h.edit(op, &mut rng);
        let t = h.toks();
        let mut err = String::new();
        let mut ok = false;
        'find: for (at, data, k) in cand {
            for p in at {
                match inserted(&old, &t, p, &data, &g, H::TOKS) {
                    Ok(()) => {
                        c2 = k;
                        ok = true;
                        break 'find;
                    }
                    Err(e) if err.is_empty() => err = e,
                    Err(_) => {}
                }
            }
        }
        if !ok {
            return Err(format!("{} gauges {},{}: edit {} {:?} of [{}] gives [{}]: {}", H::NAME, dg, ng, i, op, show(&old), show(&t), err));
        }
        g.counter += b;
        edits += 1;
        st.add(&format!("{} edits compared", H::NAME), 1);
        most = most.max(bounds(&t).len());
        log.push(t);
        if mask != 0 {
            h.comps(log.last().unwrap(), mask, st, &cx).map_err(|e| format!("{} after edit {} {:?}: {}", H::NAME, i, op, e))?;
        }
    }
    if H::NAME != "EvalRazNameIndex" {
        // (that one picks names in the order of a hash map)
        st.seen("sequences after all edits", log.last().unwrap());
    }
    st.max("archive points in one sequence", most as u64);
    st.max("elements in one sequence", log.iter().map(|t| elems(t).len()).max().unwrap_or(0) as u64);
    st.nontrivial = edits >= 2 && (most >= 2 || !H::TOKS);
    Ok(log)
}

// ------------------------------------------------------------------ computations

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {}, expected {}", what, trunc(&format!("{:?}", got), 700), trunc(&format!("{:?}", want), 700)))
    }
}
fn h1(a: u64, e: u64) -> u64 {
    a.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(e + 1)
}
fn mapf(e: &u32) -> u64 {
    (*e as u64) * 3 + 1
}

type FnI<O> = fn(&u32) -> O;
type FnB<O> = fn(O, O) -> O;
type FnF<O> = fn(O, &u32) -> O;
type FnM<O> = fn(O, (u32, ON)) -> O;

/// a mapped tree, read back
pub trait MapTree {
    fn read(&self, label: &str) -> Vec<(u64, Option<(u32, ON)>)>;
    fn meta_ok(&self, t: &[Tok]) -> Result<(), String>;
}
fn read_tree<M: RazMeta<u64> + 'static>(t: &RazTree<u64, M>, label: &str) -> Vec<(u64, Option<(u32, ON)>)> {
    let r: Rc<Vec<(u64, Option<(u32, ON)>)>> = ns(nm(label), || {
        t.clone().fold_lr_meta(
            Rc::new(vec![]),
            Rc::new(|mut a: Rc<Vec<_>>, e: &u64| {
                Rc::make_mut(&mut a).push((*e, None));
                a
            }),
            Rc::new(|mut a: Rc<Vec<_>>, b: (u32, ON)| {
                Rc::make_mut(&mut a).push((0, Some(b)));
                a
            }),
        )
    });
    (*r).clone()
}
impl MapTree for IRazTree<u64> {
    fn read(&self, label: &str) -> Vec<(u64, Option<(u32, ON)>)> {
        read_tree(self, label)
    }
    fn meta_ok(&self, t: &[Tok]) -> Result<(), String> {
        same("count of the mapped tree", self.meta().0, elems(t).len())
    }
}
impl MapTree for RazTree<u64, Names> {
    fn read(&self, label: &str) -> Vec<(u64, Option<(u32, ON)>)> {
        read_tree(self, label)
    }
    fn meta_ok(&self, t: &[Tok]) -> Result<(), String> {
        let want: HashSet<Name> = bounds(t).into_iter().filter_map(|x| x.1).collect();
        same("names of the mapped tree", self.meta().0.keys().cloned().collect::<HashSet<_>>(), want)
    }
}

fn f_fold(a: u64, e: &u32) -> u64 {
    h1(a, *e as u64)
}
fn f_one(e: &u32) -> Tr {
    Rc::new(vec![Tok::E(*e)])
}
fn f_step(a: Tr, e: &u32) -> Tr {
    app(a, Tok::E(*e))
}
fn f_meta(a: Tr, (l, n): (u32, ON)) -> Tr {
    app(a, Tok::B(l, n))
}
// archive folds are recorded with markers: E(u32::MAX) then B(0, name) for the finish
fn f_fin(a: Tr, n: ON) -> Tr {
    app(a, Tok::B(0, n))
}
fn f_lev(a: Tr, l: u32) -> Tr {
    app(a, Tok::B(l, None))
}

fn common_comps<H, MT>(h: &H, t: &[Tok], mask: u32, st: &mut Stats) -> Result<(), String>
where
    H: CompMax<Target = Option<u32>>
        + CompFold<u32, u64, FnF<u64>, Target = u64>
        + CompTreeFold<u32, Tr, FnI<Tr>, FnB<Tr>, Target = Option<Tr>>
        + CompMap<u32, u64, FnI<u64>, Target = MT>
        + CompFoldMeta<u32, Tr, (u32, ON), FnF<Tr>, FnM<Tr>, Target = Tr>
        + CompFoldArchive<u32, Tr, u32, FnF<Tr>, fn(Tr, ON) -> Tr, fn(Tr, u32) -> Tr, Target = Tr>,
    MT: MapTree,
{
    let es = elems(t);
    let r = &mut rng0();
    if mask & MAX != 0 {
        let (_, m): (Duration, Option<u32>) = ns(nm("k-max"), || FindMax.compute(h, r));
        same("maximum", m, es.iter().cloned().max())?;
        let _: Duration = ns(nm("k-max"), || FindMax.compute(h, r));
        st.add("maximum results", 1);
    }
    if mask & FOLD != 0 {
        let want = es.iter().fold(5u64, |a, e| h1(a, *e as u64));
        let (_, m): (Duration, u64) = ns(nm("k-fold"), || Folder::new(5u64, f_fold as FnF<u64>).compute(h, r));
        same("fold", m, want)?;
        let (v, m): (Vec<Duration>, String) =
            ns(nm("k-fold"), || FFolder::new(5u64, f_fold as FnF<u64>, |x: u64| format!("<{}>", x)).compute(h, r));
        same("fold with finish", m, format!("<{}>", want))?;
        same("number of times reported", v.len(), 1)?;
        st.add("fold results", 2);
    }
    if mask & TFOLD != 0 {
        let (_, m) = ns(nm("k-tfold"), || h.comp_tfold(Rc::new(f_one as FnI<Tr>), Rc::new(cat as FnB<Tr>), r));
        same("tree fold", m.map(|m| elems(&m)), if es.is_empty() { None } else { Some(es.clone()) })?;
        st.add("tree fold results", 1);
    }
    if mask & MAP != 0 {
        let (_, m) = ns(nm("k-map"), || h.comp_map(Rc::new(mapf as FnI<u64>), r));
        let want: Vec<(u64, Option<(u32, ON)>)> = t
            .iter()
            .map(|x| match x {
                Tok::E(e) => (mapf(e), None),
                Tok::B(l, n) => (0, Some((*l, n.clone()))),
            })
            .collect();
        same("mapped sequence", m.read("k-map-obs"), want)?;
        m.meta_ok(t)?;
        st.add("map results", 1);
    }
    if mask & META != 0 {
        let mut f = MFolder::new(nm("k-meta"), Rc::new(vec![]), f_step as FnF<Tr>, f_meta as FnM<Tr>, |a: Tr| (*a).clone());
        let (v, m): (Vec<Duration>, Vec<Tok>) = f.compute(h, r);
        same("fold with archive points", m, t.to_vec())?;
        same("number of times reported", v.len(), 1)?;
        st.add("metadata fold results", 1);
    }
    if mask & ARCH != 0 {
        let mut f = HFolder::new(
            nm("k-arch"),
            Rc::new(vec![]),
            f_step as FnF<Tr>,
            f_fin as fn(Tr, ON) -> Tr,
            f_lev as fn(Tr, u32) -> Tr,
            |a: Tr| (*a).clone(),
        );
        let (_, m): (Vec<Duration>, Vec<Tok>) = f.compute(h, r);
        let mut want = vec![];
        if !t.is_empty() {
            let mut carried = Some(nm("start"));
            for x in t {
                match x {
                    Tok::E(e) => want.push(Tok::E(*e)),
                    Tok::B(l, n) => {
                        want.push(Tok::B(0, carried));
                        want.push(Tok::B(*l, None));
                        carried = n.clone();
                    }
                }
            }
            want.push(Tok::B(0, carried));
        }
        same("archive fold", m, want)?;
        st.add("archive fold results", 1);
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Token {
    Num(u32),
    Plus,
}
/// digits, plus signs and separators from any number
fn lang(e: u32) -> char {
    match e % 14 {
        k if k < 10 => (b'0' + k as u8) as char,
        10 | 11 => '+',
        _ => ',',
    }
}
fn tok_step<A: IFaceSeq<Token>>((ts, part): (A, Option<u32>), e: &u32) -> (A, Option<u32>) {
    let c = lang(*e);
    if let Some(num) = c.to_digit(10) {
        let bigger = part.map_or(num, |p| p * 10 + num);
        let (ts, bigger) = if bigger > 99999 { (ts.seq_push(Token::Num(bigger)), num) } else { (ts, bigger) };
        (ts, Some(bigger))
    } else {
        let ts = if let Some(num) = part { ts.seq_push(Token::Num(num)) } else { ts };
        (if c == '+' { ts.seq_push(Token::Plus) } else { ts }, None)
    }
}
fn tok_meta<A: IFaceArchive<(u32, ON)>>((ts, part): (A, Option<u32>), m: (u32, ON)) -> (A, Option<u32>) {
    (ts.archive(m), part)
}
fn tok_final<A: IFaceSeq<Token>>((ts, part): (A, Option<u32>)) -> A {
    if let Some(num) = part {
        ts.seq_push(Token::Num(num))
    } else {
        ts
    }
}
fn parse_step<A: IFaceSeq<u32>>(n: A, t: &Token) -> A {
    match *t {
        Token::Num(a) => n.seq_push(a),
        Token::Plus => {
            let (b, n) = n.seq_pop();
            match b {
                None => n,
                Some(b) => {
                    let (a, n) = n.seq_pop();
                    n.seq_push(a.map_or(b, |a| a.wrapping_add(b)))
                }
            }
        }
    }
}
fn parse_meta<A: IFaceArchive<(u32, ON)>>(n: A, m: (u32, ON)) -> A {
    n.archive(m)
}
fn ref_adder(es: &[u32]) -> Vec<u32> {
    let (ts, part) = es.iter().fold((vec![], None), tok_step::<Vec<Token>>);
    let ts = tok_final::<Vec<Token>>((ts, part));
    ts.iter().fold(vec![], parse_step::<Vec<u32>>)
}
fn popped<S: IFaceSeq<u32>>(mut s: S) -> Vec<u32> {
    let mut v = vec![];
    loop {
        let (e, r) = s.seq_pop();
        match e {
            None => break,
            Some(e) => v.push(e),
        }
        s = r;
    }
    v.reverse();
    v
}
fn to_list<S: IFaceSeq<u32> + IFaceArchive<(u32, ON)> + IFaceNew + Clone + Eq + std::hash::Hash + std::fmt::Debug + 'static>(
    h: &EvalIRaz<u32, StdRng>,
    what: &str,
    es: &[u32],
    st: &mut Stats,
) -> Result<(), String> {
    let mut f = MFolder::new(nm(what), S::new(), |a: S, e: &u32| a.seq_push(*e), |a: S, m: (u32, ON)| a.archive(m), |a: S| a);
    let (_, s): (Vec<Duration>, S) = f.compute(h, &mut rng0());
    same(what, popped(s), es.to_vec())?;
    st.add("conversions to accumulators", 1);
    Ok(())
}

/// values a computation is set up with once and re-used in every round
pub struct Cx {
    pick: u64,
    dg: usize,
    ng: usize,
    coord: StdRng,
}
impl Cx {
    fn new(pick: u64, dg: usize, ng: usize, coord: StdRng) -> Cx {
        Cx { pick: pick, dg: dg, ng: ng, coord: coord }
    }
}

fn iraz_comps(h: &EvalIRaz<u32, StdRng>, t: &[Tok], mask: u32, st: &mut Stats, cx: &Cx) -> Result<(), String> {
    let es = elems(t);
    let r = &mut rng0();
    if mask & TNL != 0 {
        let (_, m): (_, Option<Tr>) = ns(nm("k-tnl"), || {
            h.comp_tfoldnl(
                Rc::new(f_one as FnI<Tr>),
                Rc::new(cat as FnB<Tr>),
                Rc::new(|a: Tr, l: u32, n: ON, b: Tr| cat(app(a, Tok::B(l, n)), b)),
                r,
            )
        });
        same("tree fold with archive points", m.map(|m| (*m).clone()), if t.is_empty() { None } else { Some(t.to_vec()) })?;
        st.add("tree fold (levels) results", 1);
    }
    if mask & TG != 0 {
        let (_, m): (_, Option<Shape>) = ns(nm("k-tg"), || {
            h.comp_tfoldg(
                Rc::new(|v: &Vec<u32>| Shape::Leaf(v.clone())),
                Rc::new(|a: Shape, l: u32, n: ON, b: Shape| Shape::Bin(Rc::new(a), l, n, Rc::new(b))),
                r,
            )
        });
        same("tree shape", m, canonical(t))?;
        st.add("tree fold (gauged) results", 1);
    }
    if mask & (REV | FILTER) != 0 {
        for (rev, what, bit) in [(true, "reverse", REV), (false, "filter", FILTER)] {
            if mask & bit == 0 {
                continue;
            }
            let jn = nm(&format!("k-{}-join", what));
            let (_, m): (_, Option<IRazTree<u32>>) = ns(nm(&format!("k-{}", what)), || {
                h.comp_tfoldg(
                    Rc::new(move |v: &Vec<u32>| {
                        let mut v = v.clone();
                        if rev {
                            v.reverse();
                        } else {
                            v.retain(|e| e % 3 != 0);
                        }
                        IRazTree::from_vec(v).unwrap_or(IRazTree::empty())
                    }),
                    Rc::new(move |a: IRazTree<u32>, l: u32, n: ON, b: IRazTree<u32>| match (a.is_empty(), b.is_empty()) {
                        (true, _) => b,
                        (_, true) => a,
                        _ => ns(jn.clone(), || if rev { IRazTree::join(b, l, n, a).unwrap() } else { IRazTree::join(a, l, n, b).unwrap() }),
                    }),
                    r,
                )
            });
            let want: Vec<u32> = if rev { es.iter().rev().cloned().collect() } else { es.iter().filter(|e| **e % 3 != 0).cloned().collect() };
            let m = m.unwrap_or(IRazTree::empty());
            same(what, elems(&obs_toks_at(&format!("k-{}-obs", what), &m)), want.clone())?;
            same("count of the resulting tree", m.meta().0, want.len())?;
            st.add("reverse/filter results", 1);
        }
    }
    if mask & STR != 0 {
        let mut mp = Mapper::new(nm("k-str"), |e: &u32| format!("{},", e));
        let _: Duration = mp.compute(h, r);
        let (_, m): (_, IRazTree<String>) = ns(nm("k-str"), || h.comp_map(Rc::new(|e: &u32| format!("{},", e)), r));
        let s: Option<String> = ns(nm("k-str-cat"), || m.clone().fold_up(Rc::new(|s: &String| s.clone()), Rc::new(|a: String, b: String| a + &b)));
        let want: String = es.iter().map(|e| format!("{},", e)).collect();
        same("string of the sequence", s.unwrap_or_default(), want)?;
        st.add("to-string results", 1);
    }
    if mask & UNIQ != 0 {
        let path = 4 + (cx.pick % 6) as usize;
        let mut f = HFolder::new(
            nm("k-uniq"),
            ns(nm("k-uniq0"), || {
                let mut t: Skiplist<u32, ()> = Skiplist::emp(path, name_unit());
                t.archive(name_unit());
                t
            }),
            |mut a: Skiplist<u32, ()>, e: &u32| {
                a.put(*e % 61, ());
                a
            },
            |mut a: Skiplist<u32, ()>, n: ON| match n {
                None => a,
                Some(n) => {
                    a.archive(n);
                    a
                }
            },
            |a: Skiplist<u32, ()>, _: u32| a,
            |a: Skiplist<u32, ()>| a,
        );
        let (_, s): (Vec<Duration>, Skiplist<u32, ()>) = f.compute(h, r);
        let have: HashSet<u32> = es.iter().map(|e| e % 61).collect();
        for k in 0..64 {
            same(&format!("membership of {} in the set of elements", k), s.get(k).is_some(), have.contains(&k))?;
        }
        st.add("unique-element sets compared", 1);
    }
    if mask & LISTS != 0 {
        match cx.pick % 6 {
            0 => to_list::<List<u32>>(h, "List", &es, st)?,
            1 => to_list::<RcList<u32>>(h, "RcList", &es, st)?,
            2 => to_list::<VecList<u32>>(h, "VecList", &es, st)?,
            3 => to_list::<RcVecList<u32>>(h, "RcVecList", &es, st)?,
            4 => to_list::<AStack<u32, u32>>(h, "AStack", &es, st)?,
            _ => to_list::<Vec<u32>>(h, "Vec", &es, st)?,
        }
    }
    if mask & ADDER != 0 {
        let name_to_tree = nm("k-to-tree");
        let (dg, ng, coord) = (cx.dg, cx.ng, cx.coord.clone());
        let mut comp = Compute2::<_, _, _, EvalIRaz<Token, StdRng>, _>::new(
            MFolder::new(
                nm("k-tokenize"),
                (AStack::<Token, u32>::new(), None),
                tok_step,
                tok_meta,
                move |a: (AStack<Token, u32>, Option<u32>)| {
                    let ts = tok_final(a);
                    ns(name_to_tree.clone(), || {
                        let (_, d): (Duration, EvalIRaz<Token, StdRng>) =
                            IncrementalFrom { data: AtTail(ts), datagauge: dg, namegauge: ng, coord: coord.clone() }.create(&mut rng0());
                        d
                    })
                },
            ),
            MFolder::new(nm("k-parse"), AStack::<u32, u32>::new(), parse_step, parse_meta, |a: AStack<u32, u32>| a),
        );
        let (v, s): (Vec<Duration>, AStack<u32, u32>) = comp.compute(h, r);
        same("times of a composed computation", v.len(), 2)?;
        same("parsed sums", popped(s), ref_adder(&es))?;
        st.add("tokenize-parse results", 1);
    }
    Ok(())
}

fn vec_comps(h: &EvalVec<u32, StdRng>, es: &[u32], mask: u32, st: &mut Stats) -> Result<(), String> {
    let r = &mut rng0();
    let (_, m): (Duration, Option<u32>) = FindMax.compute(h, r);
    same("maximum", m, es.iter().cloned().max())?;
    let want = es.iter().fold(5u64, |a, e| h1(a, *e as u64));
    let (_, m): (Duration, u64) = Folder::new(5u64, f_fold as FnF<u64>).compute(h, r);
    same("fold", m, want)?;
    let (_, m): (Vec<Duration>, u64) = FFolder::new(5u64, f_fold as FnF<u64>, |x: u64| x ^ 1).compute(h, r);
    same("fold with finish", m, want ^ 1)?;
    let (_, m) = h.comp_map(Rc::new(mapf), r);
    same("map", m, es.iter().map(mapf).collect())?;
    let (_, m) = h.comp_rev(r);
    same("reverse", m, es.iter().rev().cloned().collect())?;
    let mut f = MFolder::<_, _, (), _, _, _, _, _>::new(nm("v-meta"), vec![], |mut a: Vec<u32>, e: &u32| { a.push(*e); a }, |a, _| a, |a: Vec<u32>| a);
    let (_, m): (Vec<Duration>, Vec<u32>) = f.compute(h, r);
    same("metadata fold", m, es.to_vec())?;
    if mask & ADDER != 0 {
        let coord = rng0();
        let mut comp = Compute2::<_, _, _, EvalVec<Token, StdRng>, _>::new(
            MFolder::<_, _, (u32, ON), _, _, _, _, _>::new(nm("k-tokenize"), (Vec::new(), None), tok_step, tok_meta, move |a: (Vec<Token>, Option<u32>)| {
                let (_, d): (Duration, EvalVec<Token, StdRng>) =
                    IncrementalFrom { data: tok_final(a), datagauge: 1, namegauge: 1, coord: coord.clone() }.create(&mut rng0());
                d
            }),
            MFolder::<_, _, (u32, ON), _, _, _, _, _>::new(nm("k-parse"), Vec::new(), parse_step, parse_meta, |a: Vec<u32>| a),
        );
        let (_, s): (Vec<Duration>, Vec<u32>) = comp.compute(h, r);
        same("parsed sums", s, ref_adder(es))?;
    }
    st.add("results over the plain vector harness", 7);
    Ok(())
}
