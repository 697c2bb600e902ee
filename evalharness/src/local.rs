//! How much of a computation over an edited test-data harness runs again.
use crate::common::*;
use crate::model::nm;
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::primitives::*;
use rand::{Rand, Rng as RRng, SeedableRng, StdRng};
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;
use time::Duration;

thread_local! {
    static WORK: Cell<u64> = Cell::new(0);
}
fn work() {
    WORK.with(|w| w.set(w.get() + 1))
}
fn worked() -> u64 {
    WORK.with(|w| w.replace(0))
}
/// an element that counts its comparisons
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ce(u32);
impl Rand for Ce {
    fn rand<R: RRng>(r: &mut R) -> Self {
        Ce(r.gen())
    }
}
impl PartialOrd for Ce {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ce {
    fn cmp(&self, o: &Self) -> Ordering {
        work();
        self.0.cmp(&o.0)
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum LOp {
    Insert(u16),
    Append(u16),
    Nothing,
}
pub struct LocalProp;
const KINDS: [&str; 7] = ["tree fold", "tree fold with names", "tree fold of subsequences", "map", "fold", "fold with archive points", "maximum"];

impl Prop for LocalProp {
    type Op = LOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 2800,
            Tier::Thorough => 300_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, t: Tier) -> Case<LOp> {
        let dg = *rng.pick(&[1usize, 3, 8, 20]);
        let runs = if t == Tier::Thorough && rng.chance(1, 20) { 400 } else { *rng.pick(&[2usize, 20, 60, 120]) };
        let kind = idx % KINDS.len() as u64;
        let which = if kind == 1 || kind == 2 { 0 } else { (idx / 7) % 2 };
        let ops = (0..rng.range(2, 8))
            .map(|_| match rng.below(7) {
                0 => LOp::Nothing,
                1 | 2 => LOp::Append(if rng.chance(1, 5) { rng.range(1, 60) } else { rng.range(1, 4) } as u16),
                _ => LOp::Insert(if rng.chance(1, 5) { rng.range(1, 60) } else { rng.range(1, 4) } as u16),
            })
            .collect();
        Case {
            dcg: true,
            cfg: vec![kind, which, (dg * runs + rng.below(dg)) as u64, dg as u64, rng.below(1 << 30) as u64, rng.below(1 << 30) as u64],
            ops,
        }
    }
    fn run(&self, c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
        if c.cfg[1] == 0 {
            sim::<EvalIRaz<Ce, StdRng>>(c, st)
        } else {
            sim::<EvalRazNameIndex<Ce, StdRng>>(c, st)
        }
    }
}

pub trait H: Sized + Clone {
    /// runs computation `kind`; what it counts is user-function applications (comparisons for the maximum)
    fn run(&self, kind: usize) -> u64;
    fn runs(&self) -> Vec<u64>;
    fn init(size: usize, dg: usize, coord: &StdRng, rng: &mut StdRng) -> Self;
    fn edit(self, op: &LOp, rng: &mut StdRng) -> Self;
}
macro_rules! harness {
    ($t:ty, $gauged:expr) => {
        impl H for $t {
            fn run(&self, kind: usize) -> u64 {
                let r = &mut StdRng::from_seed(&[99]);
                worked();
                let init = |e: &Ce| {
                    work();
                    e.0
                };
                ns(nm("comp"), || match kind {
                    0 => {
                        let _: Duration = TreeFold::new(init, |a: u32, b: u32| a.wrapping_mul(31).wrapping_add(b)).compute(self, r);
                    }
                    // (not offered over the name-index sequence)
                    1 | 2 => $gauged(self, kind, r),
                    3 => {
                        let _: Duration = Mapper::new(nm("map"), init).compute(self, r);
                    }
                    4 => {
                        // the accumulator never changes
                        let _: Duration = Folder::new(0u32, |a: u32, _: &Ce| {
                            work();
                            a
                        })
                        .compute(self, r);
                    }
                    5 => {
                        let _: Duration = MFolder::new(
                            nm("meta"),
                            0u32,
                            |a: u32, _: &Ce| {
                                work();
                                a
                            },
                            |a: u32, _| a,
                            |a: u32| a,
                        )
                        .compute(self, r);
                    }
                    _ => {
                        let _: Duration = FindMax.compute(self, r);
                    }
                });
                worked()
            }
            fn runs(&self) -> Vec<u64> {
                ns(nm("look"), || {
                    self.comp_fold_meta(
                        Rc::new(vec![0u64]),
                        Rc::new(|mut a: Rc<Vec<u64>>, _: &Ce| {
                            *Rc::make_mut(&mut a).last_mut().unwrap() += 1;
                            a
                        }),
                        Rc::new(|mut a: Rc<Vec<u64>>, _| {
                            Rc::make_mut(&mut a).push(0);
                            a
                        }),
                        &mut StdRng::from_seed(&[99]),
                    )
                })
                .1
                .to_vec()
            }
            fn init(size: usize, dg: usize, coord: &StdRng, rng: &mut StdRng) -> Self {
                let (_, d): (Duration, Self) = IncrementalInit { size: size, datagauge: dg, namegauge: 1, coord: coord.clone() }.create(rng);
                d
            }
            fn edit(self, op: &LOp, rng: &mut StdRng) -> Self {
                match op {
                    LOp::Insert(b) => BatchInsert(*b as usize).edit(self, rng).1,
                    LOp::Append(b) => BatchAppend(*b as usize).edit(self, rng).1,
                    LOp::Nothing => self,
                }
            }
        }
    };
}
fn gauged(d: &EvalIRaz<Ce, StdRng>, kind: usize, r: &mut StdRng) {
    let _: Duration = match kind {
        1 => TreeFoldNL::new(
            |e: &Ce| {
                work();
                e.0
            },
            |a: u32, b: u32| a.wrapping_add(b),
            |a: u32, _, _, b: u32| a.wrapping_mul(31).wrapping_add(b),
        )
        .compute(d, r),
        _ => TreeFoldG::new(
            |v: &Vec<Ce>| {
                WORK.with(|w| w.set(w.get() + v.len() as u64));
                v.len() as u32
            },
            |a: u32, _, _, b: u32| a.wrapping_mul(31).wrapping_add(b),
        )
        .compute(d, r),
    };
}
harness!(EvalIRaz<Ce, StdRng>, gauged);
harness!(EvalRazNameIndex<Ce, StdRng>, |_: &EvalRazNameIndex<Ce, StdRng>, _, _: &mut StdRng| unreachable!());

fn sim<T: H>(c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let (kind, size, dg) = (c.cfg[0] as usize, c.cfg[2] as usize, c.cfg[3] as usize);
    let coord = StdRng::from_seed(&[c.cfg[4] as usize]);
    let mut rng = StdRng::from_seed(&[c.cfg[5] as usize]);
    let mut d = T::init(size, dg, &coord, &mut rng);
    let items = |runs: &[u64]| runs.iter().sum::<u64>();
    let mut runs = d.runs();
    let first = d.run(kind);
    let n = items(&runs);
    if kind != 6 && first != n || kind == 6 && first + 1 < n {
        return Err(format!("{}: the first run counts {} applications for {} elements", KINDS[kind], first, n));
    }
    let again = d.run(kind);
    // combining at the topmost node is not behind a memoised call
    if again > 2 {
        return Err(format!("{}: running again with nothing changed counts {} applications for {} elements", KINDS[kind], again, n));
    }
    for (i, op) in c.ops.iter().enumerate() {
        d = d.edit(op, &mut rng);
        let now = d.runs();
        let batch = items(&now) - items(&runs);
        let calls = d.run(kind);
        let big = *now.iter().max().unwrap();
        let fresh = now.len().saturating_sub(runs.len()) as u64;
        let allow = if batch == 0 { 2 } else { batch + (fresh + 3) * big + if kind == 6 { 8 * (64 - (now.len() as u64).leading_zeros() as u64) + 70 } else { 0 } };
        st.add("edits measured", 1);
        st.add("elements run again", calls);
        st.add("elements in edited sequences", items(&now));
        st.max(&format!("{}: subsequences run again beyond the batch", KINDS[kind]), calls.saturating_sub(batch) / big);
        if calls > allow {
            return Err(format!(
                "{}: after {:?} (edit {}) {} applications where {} suffice; {} elements in {} subsequences of up to {}",
                KINDS[kind], op, i, calls, allow, items(&now), now.len(), big
            ));
        }
        runs = now;
    }
    st.seen("final sequences", &(c.cfg[1], runs.clone()));
    st.nontrivial = size > 20 && c.ops.len() > 1;
    st.note = format!("{} over {} elements in {} subsequences", KINDS[kind], items(&runs), runs.len());
    Ok(())
}
