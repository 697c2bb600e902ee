//! Incremental reuse: how much of a computation re-runs after an edit.
use crate::common::*;
use crate::comps::*;
use crate::model::*;
use crate::rsim::*;
use iodyn::raz::RazTree;
use iodyn::raz_meta::Count;
use std::rc::Rc;

pub struct Reuse;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Edit {
    /// replace the element left of the cursor
    Repl(u32),
    InsL(u32),
    InsR(u32),
    DelL,
    DelR,
    /// split the subsequence at the cursor with a new archive point
    Split(u32),
    /// only move the cursor
    Nothing,
}
/// (where, what)
pub type Step = (u32, Edit);

const KINDS: [&str; 9] = ["fold_up", "fold_up_nl", "fold_up_gauged", "fold_lr", "fold_lr_meta", "fold_lr_archive", "map", "map+fold_up", "fold_lr whose accumulator does not change"];

fn run_kind(k: usize, tree: &RazTree<u32, Count>) -> u64 {
    take_calls();
    match k {
        0 => drop(do_fold_up(tree)),
        1 => drop(do_fold_up_nl(tree)),
        2 => drop(do_fold_up_gauged(tree)),
        3 => drop(do_fold_lr(tree, 5)),
        4 => drop(do_fold_lr_meta(tree, Rc::new(vec![]))),
        5 => drop(do_fold_lr_archive(tree, Rc::new(vec![]))),
        8 => {
            ns(nm("r-lrmax"), || {
                tree.clone().fold_lr(
                    0u32,
                    Rc::new(|a: u32, e: &u32| {
                        CALLS.with(|c| c.set(c.get() + 1));
                        a.max(*e)
                    }),
                )
            });
        }
        _ => {
            let m: RazTree<u32, Count> = ns(nm("r-map"), || {
                tree.clone().map(Rc::new(|e: &u32| {
                    CALLS.with(|c| c.set(c.get() + 1));
                    fmap(*e)
                }))
            });
            if k == 7 {
                ns(nm("r-mapfold"), || {
                    m.fold_up(
                        Rc::new(|e: &u32| {
                            CALLS.with(|c| c.set(c.get() + 1));
                            *e as u64
                        }),
                        Rc::new(|a: u64, b: u64| a + b),
                    )
                });
            }
        }
    }
    let (e, c) = take_calls();
    if k == 2 {
        c
    } else {
        e
    }
}

impl Prop for Reuse {
    type Op = Step;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 2400,
            Tier::Thorough => 40_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<Step> {
        let nch = if tier == Tier::Thorough && rng.chance(1, 20) { rng.range(200, 1000) } else { *rng.pick(&[24usize, 48, 96, 160]) };
        let per = *rng.pick(&[2usize, 5, 9]);
        let kind = idx as usize % KINDS.len();
        let n = rng.range(2, 8);
        let ops = (0..n)
            .map(|_| {
                let e = match rng.below(8) {
                    0 => Edit::Nothing,
                    1 => Edit::InsL(rng.below(1000) as u32),
                    2 => Edit::InsR(rng.below(1000) as u32),
                    3 => Edit::DelL,
                    4 => Edit::DelR,
                    5 => Edit::Split(rng.geo_level()),
                    _ => Edit::Repl(rng.below(100_000) as u32),
                };
                (rng.u64() as u32, e)
            })
            .collect();
        Case { dcg: true, cfg: vec![nch as u64, per as u64, kind as u64, rng.u64(), *rng.pick(&[0u64, 0, 0, 1, 2, 3, 4])], ops }
    }
    fn run(&self, c: &Case<Step>, st: &mut Stats) -> Result<(), String> {
        // how levels are distributed: balanced, shifted high, all equal, few values
        let lm = c.cfg[4];
        let level = move |rng: &mut Rng| match lm {
            1 => 30 + rng.geo_level().min(34),
            2 => 3,
            3 => 32 + rng.below(2) as u32,
            4 => 64 - rng.geo_level().min(63),
            _ => rng.geo_level(),
        };
        let (nch, per, kind) = (c.cfg[0] as usize, c.cfg[1] as usize, c.cfg[2] as usize);
        let mut rng = Rng::new(c.cfg[3]);
        let mut s: Sim<Count> = Sim::new();
        if kind == 8 {
            s.push(true, u32::max_value())?;
        }
        for _ in 0..nch {
            for _ in 0..per {
                let e = rng.below(100_000) as u32;
                s.push(true, e)?;
            }
            let l = level(&mut rng);
            s.archive(true, l, true);
        }
        s.push(true, 7)?;
        let (mut tree, mut t) = s.unfocus(CK_TOKS, st)?;
        let first = run_kind(kind, &tree);
        let lr = (3..=5).contains(&kind);
        let unit = |t: &[Tok]| if kind == 2 { chunks(t).len() } else { elems(t).len() * if kind == 7 { 2 } else { 1 } };
        if first != unit(&t) as u64 {
            return Err(format!("{}: the first run applied the user function {} times to {} items", KINDS[kind], first, unit(&t)));
        }
        let again = run_kind(kind, &tree);
        st.max("user-function applications on an unchanged re-run", again);
        if again > 0 {
            return Err(format!("{}: re-running with no change re-applied the user function {} times ({} items)", KINDS[kind], again, unit(&t)));
        }
        for (at, e) in &c.ops {
            let n = elems(&t).len();
            let pos = *at as usize % (n + 1);
            let tp = tok_pos(&t, pos);
            s.focus(tree, &t, Sel::At(pos as u32), 0, st)?;
            let mut split = false;
            match e {
                Edit::Nothing => {}
                Edit::InsL(v) => s.push(true, *v)?,
                Edit::InsR(v) => s.push(false, *v)?,
                Edit::DelL => {
                    s.pop(true)?;
                }
                Edit::DelR => {
                    s.pop(false)?;
                }
                Edit::Split(l) => {
                    s.archive(true, *l, true);
                    split = true;
                }
                Edit::Repl(v) => {
                    s.pop(true)?;
                    s.push(true, *v)?;
                }
            }
            let (tr, t2) = s.unfocus(CK_TOKS, st)?;
            tree = tr;
            let changed = t2 != t;
            let shape = canonical(&t2).unwrap();
            let calls = run_kind(kind, &tree);
            st.add("edits measured", 1);
            let h = shape.height() as u64;
            let big = shape.max_leaf() as u64;
            let per_unit = if kind == 2 { 1 } else { big };
            let mult = if kind == 7 { 2 } else { 1 };
            // left-to-right folds legitimately re-run everything after the edit
            // (unless the accumulator arriving there is what it was)
            let top = |t: &[Tok]| t.first() == Some(&Tok::E(u32::max_value()));
            let lr = lr || (kind == 8 && !(top(&t) && top(&t2)));
            if kind == 8 && !lr {
                st.add("edits with an unchanged accumulator", 1);
            }
            let tail = if lr && changed { elems(&t2[tp.min(t2.len())..]).len() as u64 } else { 0 };
            let structural = bounds(&t2).len() != bounds(&t).len();
            let k = if !changed { 0 } else { calls.saturating_sub(tail) / per_unit / mult };
            st.max(&format!("{} extra chunks {}", KINDS[kind], if structural { "structural" } else { "plain" }), k);
            st.max("height", h);
            if !changed {
                st.max(&format!("{} unchanged", KINDS[kind]), calls);
            }
            if changed { st.add("total units re-run", calls); st.add("total units", unit(&t2) as u64);}
            let _ = split;
            // everything away from the edit must be reused; the chunks at the edit (and their new neighbours) may re-run
            let allow = if !changed { 0 } else { tail + 5 * per_unit * mult };
            if calls > allow {
                return Err(format!(
                    "{}: after {:?} at position {} of {} the user function was re-applied {} times; the edit touches {} items per subsequence ({} subsequences, {} items right of the edit)",
                    KINDS[kind], e, pos, n, calls, big, chunks(&t2).len(), elems(&t2[tp.min(t2.len())..]).len()
                ));
            }
            // the work is not skipped either: new content must reach the function
            if changed && calls == 0 && matches!(e, Edit::InsL(_) | Edit::InsR(_)) {
                return Err(format!("{}: nothing was re-run although the sequence changed", KINDS[kind]));
            }
            t = t2;
        }
        st.nontrivial = c.ops.len() >= 2;
        st.note = format!("{} over {} chunks", KINDS[kind], nch);
        Ok(())
    }
}
