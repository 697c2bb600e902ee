//! The sample element types: range and spread of drawn values, arithmetic, order, hashing.
use crate::common::*;
use eval::types::*;
use rand::{Rng as RRng, SeedableRng, StdRng, XorShiftRng};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

pub struct TypesProp;
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum TOp {
    /// draws from a source giving these words over and over
    Words(Vec<u64>),
    /// that many draws from a seeded source
    Draw(u32, u64),
    /// numbers to compute with
    Nums(Vec<u32>),
}
struct Words(Vec<u64>, usize);
impl RRng for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0[(self.1 - 1) % self.0.len()]
    }
}
fn both<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?}, expected {:?}", what, got, want))
    }
}
/// cell counts against an even spread; eight standard deviations never happen by chance
fn even(what: &str, cells: &[u64], st: &mut Stats) -> Result<(), String> {
    let n: u64 = cells.iter().sum();
    let p = 1.0 / cells.len() as f64;
    let (mean, sd) = (n as f64 * p, (n as f64 * p * (1.0 - p)).sqrt());
    for (i, c) in cells.iter().enumerate() {
        let z = (*c as f64 - mean) / sd;
        st.max("greatest deviation of a cell in tenths of a standard deviation", (z.abs() * 10.0) as u64);
        if z.abs() > 8.0 {
            return Err(format!("{}: cell {} of {} drawn {} times of {}", what, i, cells.len(), c, n));
        }
    }
    st.add("spreads compared", 1);
    Ok(())
}
fn spread(what: &str, vals: &[usize], max: usize, st: &mut Stats) -> Result<(), String> {
    if let Some(v) = vals.iter().find(|v| **v >= max) {
        return Err(format!("{}: {} drawn", what, v));
    }
    // twenty equal ranges, twenty residues, and the ranges of neighbouring draws
    let (mut a, mut b, mut c) = (vec![0; 20], vec![0; 20], vec![0; 25]);
    for v in vals {
        a[v / (max / 20)] += 1;
        b[v % 20] += 1;
    }
    for w in vals.chunks(2) {
        if w.len() == 2 {
            c[w[0] / (max / 5) * 5 + w[1] / (max / 5)] += 1;
        }
    }
    even(&format!("{} by range", what), &a, st)?;
    even(&format!("{} by residue", what), &b, st)?;
    even(&format!("{} in pairs", what), &c, st)
}
fn laws<T: Clone + Debug + Eq + Ord + Hash>(what: &str, mk: impl Fn(usize) -> T, val: impl Fn(&T) -> usize, ns: &[u32]) -> Result<(), String> {
    for a in ns {
        for b in ns {
            let (x, y) = (mk(*a as usize), mk(*b as usize));
            both(&format!("{} made of {}", what, a), val(&x), *a as usize)?;
            both(&format!("{} {} == {}", what, a, b), x == y, a == b)?;
            both(&format!("{} {} != {}", what, a, b), x != y, a != b)?;
            both(&format!("{} {} against {}", what, a, b), (x.cmp(&y), x.partial_cmp(&y)), (a.cmp(b), a.partial_cmp(b)))?;
            if a == b && hash64(&x) != hash64(&y) {
                return Err(format!("{}: hashes of {} and {}", what, a, b));
            }
            both(&format!("copy of {} {}", what, a), x.clone(), x)?;
        }
    }
    let h: HashSet<T> = ns.iter().map(|n| mk(*n as usize)).collect();
    let o: BTreeSet<T> = ns.iter().map(|n| mk(*n as usize)).collect();
    let w: BTreeSet<u32> = ns.iter().cloned().collect();
    both(&format!("{} in a hash set", what), h.len(), w.len())?;
    both(&format!("{} in an ordered set", what), o.iter().map(|x| val(x) as u32).collect::<Vec<_>>(), w.into_iter().collect())
}
impl Prop for TypesProp {
    type Op = TOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000,
            Tier::Thorough => 20_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<TOp> {
        let word = |rng: &mut Rng| match rng.below(5) {
            0 => 0,
            1 => u64::max_value() - rng.below(3) as u64,
            2 => rng.below(20_000) as u64,
            3 => (rng.below(20_000) as u64) << 32,
            _ => rng.u64(),
        };
        let op = match idx % 8 {
            0..=3 => TOp::Words((0..rng.range(1, 40)).map(|_| word(rng)).collect()),
            4 | 5 => TOp::Draw(if rng.chance(1, 40) { 1_000_000 } else { 40_000 }, rng.u64()),
            _ => TOp::Nums((0..rng.range(2, 25)).map(|_| if rng.chance(1, 3) { rng.u64() as u32 } else { rng.below(12) as u32 }).collect()),
        };
        Case { dcg: false, cfg: vec![], ops: vec![op] }
    }
    fn run(&self, c: &Case<TOp>, st: &mut Stats) -> Result<(), String> {
        match c.ops.first() {
            None => {}
            Some(TOp::Words(w)) => {
                let mut r = Words(w.clone(), 0);
                for _ in 0..2 * w.len() {
                    let (a, b) = (r.gen::<GenSmall>().0, r.gen::<Gen10k>().0);
                    if a >= 100 || b >= 10_000 {
                        return Err(format!("drawn from {:?}: {} for GenSmall, {} for Gen10k", w, a, b));
                    }
                }
                // elements of sets are any numbers: the word drawn, whatever it is
                let mut r = Words(w.clone(), 0);
                let got: HashSet<GenSetElm> = (0..w.len()).map(|_| r.gen()).collect();
                let mut r = Words(w.clone(), 0);
                let want: HashSet<usize> = (0..w.len()).map(|_| r.gen()).collect();
                both("distinct set elements drawn", got.len(), want.len())?;
                st.add("draws from given words", 5 * w.len() as u64);
                st.nontrivial = w.len() > 1;
            }
            Some(TOp::Draw(n, seed)) => {
                let n = *n as usize;
                let s = [*seed as usize, (*seed >> 40) as usize];
                let mut r = StdRng::from_seed(&s);
                spread("GenSmall", &(0..n).map(|_| r.gen::<GenSmall>().0).collect::<Vec<_>>(), 100, st)?;
                spread("Gen10k", &(0..n).map(|_| r.gen::<Gen10k>().0).collect::<Vec<_>>(), 10_000, st)?;
                let x = *seed as u32 | 1;
                let mut r = XorShiftRng::from_seed([x, x ^ 99, x ^ 0x5555_0000, (*seed >> 32) as u32]);
                spread("GenSmall", &(0..n).map(|_| r.gen::<GenSmall>().0).collect::<Vec<_>>(), 100, st)?;
                let v: Vec<usize> = (0..n).map(|_| (r.gen::<GenSetElm>().0).0).collect();
                let mut bits = vec![0u64; 64];
                for x in &v {
                    for (b, k) in bits.iter_mut().enumerate() {
                        *k += (*x >> b & 1) as u64;
                    }
                }
                for (b, k) in bits.iter().enumerate() {
                    even(&format!("bit {} of GenSetElm", b), &[*k, n as u64 - k], st)?;
                }
                st.add("random draws", 4 * n as u64);
                st.nontrivial = true;
            }
            Some(TOp::Nums(ns)) => {
                laws("GenSmall", |n| GenSmall::from(n), |x| x.0, ns)?;
                laws("Gen10k", |n| Gen10k(n), |x| x.0, ns)?;
                laws("Elm", |n| Elm(n), |x| x.0, ns)?;
                laws("GenSetElm", |n| GenSetElm::from(n), |x| (x.0).0, ns)?;
                for a in ns {
                    for b in ns {
                        let (a, b) = (*a as usize, *b as usize);
                        both("sum of GenSmall", (GenSmall(a) + GenSmall(b)).0, a + b)?;
                        both("sum of Gen10k", (Gen10k(a) + Gen10k(b)).0, a + b)?;
                    }
                }
                st.add("pairs computed with", (ns.len() * ns.len()) as u64);
                st.nontrivial = ns.len() > 2;
            }
        }
        Ok(())
    }
}
