//! Every accumulator behind IFaceSeq/IFaceArchive/IFaceNew is the same LIFO.
use crate::common::*;
use crate::model::user_name;
use eval::accum_lists::{List, RcList, RcVecList, VecList};
use eval::interface::{IFaceArchive, IFaceNew, IFaceSeq};
use iodyn::archive_stack::AStack;
use iodyn::IRaz;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum LOp {
    Push(u32),
    Run(u16, u32),
    Pop(u16),
    Archive(bool, u32),
    Keep,
    Switch(u32),
    Look(u32),
    Drain,
}
pub struct ListProp;
impl Prop for ListProp {
    type Op = LOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<LOp> {
        let n = rng.range(3, 90);
        let pops = *rng.pick(&[2u32, 6, 12]);
        let arch = *rng.pick(&[1u32, 5, 10]);
        let nm = rng.below(3);
        let long = rng.chance(1, 12);
        let mut v = vec![];
        for _ in 0..n {
            v.push(match rng.weighted(&[12, 4, pops, arch, 2, 2, 1, 1]) {
                0 => LOp::Push(rng.below(1000) as u32),
                1 => LOp::Run(if long { rng.range(20, 400) } else { rng.range(2, 9) } as u16, rng.below(1000) as u32),
                2 => LOp::Pop(if rng.chance(1, 4) { rng.range(2, 30) as u16 } else { 1 }),
                3 => LOp::Archive(nm == 0 || (nm == 1 && rng.chance(1, 2)), 1 + rng.below(6) as u32),
                4 => LOp::Keep,
                5 => LOp::Switch(rng.u64() as u32),
                6 => LOp::Look(rng.u64() as u32),
                _ => LOp::Drain,
            });
        }
        Case { dcg: idx % 2 == 1, cfg: vec![rng.below(8) as u64], ops: v }
    }
    fn run(&self, c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
        match c.cfg[0] {
            0 => run::<IRaz<u32>>("IRaz", c, st),
            1 => run::<AStack<u32, u32>>("AStack<u32>", c, st),
            2 => run::<AStack<u32, ()>>("AStack<()>", c, st),
            3 => run::<Vec<u32>>("Vec", c, st),
            4 => run::<List<u32>>("List", c, st),
            5 => run::<RcList<u32>>("RcList", c, st),
            6 => run::<VecList<u32>>("VecList", c, st),
            _ => run::<RcVecList<u32>>("RcVecList", c, st),
        }
    }
}

fn drain<S: IFaceSeq<u32>>(mut s: S, want: &[u32]) -> Result<(), String> {
    for (i, w) in want.iter().rev().enumerate() {
        let (g, r) = s.seq_pop();
        if g != Some(*w) {
            return Err(format!("popping everything: item {} is {:?}, expected {} of {:?}", i, g, w, trunc(&format!("{:?}", want), 400)));
        }
        s = r;
    }
    for _ in 0..2 {
        let (g, r) = s.seq_pop();
        if g.is_some() {
            return Err(format!("an emptied sequence still gives {:?}", g));
        }
        s = r;
    }
    // still usable
    let (g, s) = s.seq_push(7).seq_pop();
    if g != Some(7) || s.seq_pop().0.is_some() {
        return Err("a sequence popped past its end does not take a new element".into());
    }
    Ok(())
}
fn run<S: IFaceSeq<u32> + IFaceArchive<(u32, Option<Name>)> + IFaceNew + Clone>(name: &str, c: &Case<LOp>, st: &mut Stats) -> Result<(), String> {
    let mut s = S::new();
    let mut m: Vec<u32> = vec![];
    let mut kept: Vec<(S, Vec<u32>)> = vec![];
    let mut k = 0;
    let (mut arch, mut across) = (0u32, 0u32);
    let mut marks: Vec<usize> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        let fail = |e: String| format!("{}: step {} {:?}: {}", name, i, op, e);
        match op {
            LOp::Push(e) => {
                s = s.seq_push(*e);
                m.push(*e);
            }
            LOp::Run(n, e) => {
                for j in 0..*n as u32 {
                    s = s.seq_push(e + j);
                    m.push(e + j);
                }
            }
            LOp::Pop(n) => {
                for _ in 0..*n {
                    let (g, r) = s.seq_pop();
                    s = r;
                    let w = m.pop();
                    if g != w {
                        return Err(fail(format!("seq_pop gives {:?}, expected {:?}", g, w)));
                    }
                    while marks.last().map_or(false, |x| *x > m.len()) {
                        marks.pop();
                        across += 1;
                    }
                    st.add("pops compared", 1);
                    if w.is_none() {
                        break;
                    }
                }
            }
            LOp::Archive(named, lev) => {
                k += 1;
                s = s.archive((*lev, if *named { Some(user_name(k)) } else { None }));
                arch += 1;
                if marks.last() != Some(&m.len()) {
                    marks.push(m.len());
                }
            }
            LOp::Keep => {
                if kept.len() < 8 {
                    kept.push((s.clone(), m.clone()))
                }
            }
            LOp::Switch(x) => {
                if !kept.is_empty() {
                    let j = *x as usize % kept.len();
                    s = kept[j].0.clone();
                    m = kept[j].1.clone();
                    marks.clear();
                    st.add("versions resumed", 1);
                }
            }
            LOp::Look(x) => {
                if !kept.is_empty() {
                    let j = *x as usize % kept.len();
                    drain(kept[j].0.clone(), &kept[j].1).map_err(|e| fail(format!("kept version {}: {}", j, e)))?;
                }
            }
            LOp::Drain => drain(s.clone(), &m).map_err(fail)?,
        }
        st.max("longest sequence", m.len() as u64);
    }
    drain(s, &m).map_err(|e| format!("{}: at the end: {}", name, e))?;
    for (j, (s, m)) in kept.into_iter().enumerate() {
        drain(s, &m).map_err(|e| format!("{}: kept version {} at the end: {}", name, j, e))?;
        st.add("kept versions re-read", 1);
    }
    st.add("archives placed", arch as u64);
    st.add("archives popped across", across as u64);
    st.add(&format!("histories of {}", name), 1);
    st.nontrivial = arch >= 2 && c.ops.len() >= 6;
    Ok(())
}
