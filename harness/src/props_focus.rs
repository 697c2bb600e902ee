//! Focusing: every position and every archive name of trees built in every way the library offers.
use crate::common::*;
use crate::model::*;
use crate::rsim::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Count, Names};
use std::rc::Rc;

pub struct FocusProp {
    /// name index only, or positions
    pub names: bool,
}

impl Prop for FocusProp {
    type Op = ROp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 12_000,
            Tier::Thorough => 160_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _tier: Tier) -> Case<ROp> {
        let g = GenCfg {
            len: if rng.chance(1, 12) { rng.range(60, 160) } else { rng.range(2, 40) },
            names: if self.names { *rng.pick(&[Names_::All, Names_::All, Names_::Mixed, Names_::None]) } else { *rng.pick(&[Names_::All, Names_::None, Names_::Mixed]) },
            lev: rng.below(8),
            dom: *rng.pick(&[4u32, 1000]),
            refocus: *rng.pick(&[1u32, 4, 8]),
            pops: *rng.pick(&[2u32, 6]),
            arch: *rng.pick(&[2u32, 6]),
            runs: *rng.pick(&[4u32, 10]),
            bad: false,
            fat: rng.chance(1, 16),
            mini: false,
        };
        let ops = if huge(rng) { huge_ops(rng, g.names, if self.names { 400 } else { 600 }) } else { gen_ops(rng, &g) };
        let meta = if self.names { 2 } else { *rng.pick(&[0u64, 0, 0, 3, 4, 1]) };
        let meta = if self.names { meta } else { huge_meta(rng, &ops, meta) };
        // how the final tree is obtained: editing, map, join of two, stack (tail/head), from_vec
        let how = *rng.pick(&[0u64, 0, 0, 1, 2, 2, 3, 4, 5]);
        Case { dcg: idx % 2 == 1, cfg: vec![meta, how, rng.u64()], ops }
    }
    fn run(&self, c: &Case<ROp>, st: &mut Stats) -> Result<(), String> {
        match c.cfg[0] {
            0 => focus_run::<Count>(c, self.names, st),
            1 => focus_run::<()>(c, self.names, st),
            2 => focus_run::<Names>(c, self.names, st),
            3 => focus_run::<Full>(c, self.names, st),
            _ => focus_run::<Digest>(c, self.names, st),
        }
    }
}

/// the tree under test and what it should read
fn make<M: MonMeta + 'static>(c: &Case<ROp>, st: &mut Stats) -> Result<Option<(RazTree<u32, M>, Vec<Tok>)>, String> {
    let mut s: Sim<M> = Sim::new();
    for (i, op) in c.ops.iter().enumerate() {
        s.apply(op, 0, st).map_err(|m| format!("after operation {} ({:?}): {}", i, op, m))?;
    }
    Ok(match c.cfg[1] {
        0 => Some(s.unfocus(CK_TOKS, st)?),
        1 => {
            let (tr, t) = s.unfocus(CK_TOKS, st)?;
            let m: RazTree<u32, M> = ns(nm("mk-map"), || tr.map(Rc::new(|e: &u32| e.wrapping_add(3))));
            Some((m, crate::comps::map_toks(&t, |e| e.wrapping_add(3))))
        }
        2 => {
            let (l, lt) = s.unfocus(CK_TOKS, st)?;
            let mut z: Sim<M> = Sim::new();
            z.next_name = s.next_name + 1;
            for op in c.ops.iter().rev() {
                if !matches!(op, ROp::Refocus(_) | ROp::BadFocus(..)) {
                    z.apply(op, 0, st)?;
                }
            }
            let (r, rt) = z.unfocus(CK_TOKS, st)?;
            if lt.is_empty() || rt.is_empty() {
                return Ok(None);
            }
            let lev = bounds(&lt).iter().chain(bounds(&rt).iter()).map(|b| b.0).max().unwrap_or(0).saturating_add(1).min(u32::max_value() - 1);
            let name = Some(nm("joined here"));
            let mut t = lt;
            t.push(Tok::B(lev, name.clone()));
            t.extend(rt);
            RazTree::join(l, lev, name, r).map(|j| (j, t))
        }
        3 | 4 => {
            // the same elements and archive points put on a stack
            let (_, t) = s.unfocus(CK_TOKS, st)?;
            let mut a: AStack<u32, u32> = AStack::new();
            let mut k = 0;
            let mut w = vec![];
            for x in &t {
                match x {
                    Tok::E(e) => {
                        a.push(*e);
                        w.push(x.clone());
                    }
                    Tok::B(l, n) => {
                        k += 1;
                        let n = n.as_ref().map(|_| name_pair(nm("stacked"), name_of_usize(k)));
                        a.archive(n.clone(), *l);
                        w.push(Tok::B(*l, n));
                    }
                }
            }
            if c.cfg[1] == 3 {
                Some((ns(nm("mk-tail"), || RazTree::memo_from(&AtTail(a.clone()))), w))
            } else {
                w.reverse();
                Some((ns(nm("mk-head"), || RazTree::memo_from(&AtHead(a.clone()))), w))
            }
        }
        _ => {
            let (_, t) = s.unfocus(CK_TOKS, st)?;
            let v = elems(&t);
            RazTree::from_vec(v.clone()).map(|tr| (tr, v.into_iter().map(Tok::E).collect()))
        }
    })
}

fn focus_run<M: MonMeta + 'static>(c: &Case<ROp>, names: bool, st: &mut Stats) -> Result<(), String> {
    let (tree, t) = match make::<M>(c, st)? {
        None => return Ok(()),
        Some(x) => x,
    };
    st.add(["trees built by editing", "trees built by map", "trees built by join", "trees built from a stack", "trees built from a reversed stack", "trees built from a vec"][c.cfg[1] as usize], 1);
    let n = elems(&t).len();
    let nb_all = bounds(&t).len();
    let nb = bounds(&t).iter().filter(|b| b.1.is_some()).count();
    let mut rng = Rng::new(c.cfg[2]);
    let mut sels = vec![Sel::Left, Sel::Right, Sel::FocusLeft];
    let range = if names { nb } else { n + 1 };
    if range <= 40 {
        sels.extend((0..range).map(|k| Sel::At(k as u32)));
        if M::NAME == "recording" {
            // the same positions counted from the end
            sels.extend((0..range).map(|k| Sel::At((range + k) as u32)));
        }
    } else {
        sels.extend((0..if t.len() > 3000 { 2 } else { 40 }).map(|_| Sel::At(rng.below(2 * range) as u32)));
        sels.push(Sel::At(range as u32 - 1));
    }
    for k in [0u32, 1, 77] {
        if M::sel_ok(&t, Sel::Bad(k)) {
            sels.push(Sel::Bad(k));
        }
    }
    if M::NAME == "count" && nb_all == 0 && n > 0 {
        // nothing to navigate in a single subsequence: positions beyond it panic, or are not found
        for k in [0u32, 1, 5, 77] {
            let tree = tree.clone();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| M::focus_sel(tree, &t, Sel::Bad(k)).0.is_some()));
            st.add("positions beyond a single subsequence", 1);
            if let Ok(true) = x {
                return Err(format!("focus succeeded beyond the end of [{}]", show(&t)));
            }
        }
    }
    for (j, sel) in sels.iter().enumerate() {
        let lab = name_pair(nm("try"), name_of_usize(j));
        let tree = tree.clone();
        ns(lab, || -> Result<(), String> {
            let (raz, want) = M::focus_sel(tree, &t, *sel);
            let p = match want {
                Want::Fail | Want::FailOrPanic => {
                    st.add("indexes naming nothing", 1);
                    return match raz {
                        None => Ok(()),
                        Some(_) => Err(format!("focus succeeded on an index naming nothing, in [{}]", show(&t))),
                    };
                }
                Want::At(p) => p,
            };
            let mut raz = raz.ok_or_else(|| format!("focus failed on [{}]", show(&t)))?;
            let p = placed(&raz, &t, p, *sel);
            st.add("positions focused", 1);
            let l: Vec<u32> = elems(&t[..p]);
            let r: Vec<u32> = elems(&t[p..]);
            let ctx = || format!("cursor placed wrongly in [{}]: expected {} elements to its left", show(&t), l.len());
            if raz.peek_left() != l.last().cloned() || raz.peek_right() != r.first().cloned() {
                return Err(format!("{}; sees {:?} and {:?}, expected {:?} and {:?}", ctx(), raz.peek_left(), raz.peek_right(), l.last(), r.first()));
            }
            // what is archived next to the cursor shows where among the archive points it stands
            match j % 3 {
                0 => {
                    // back again: nothing was lost
                    let back = raz.unfocus();
                    let got = obs_toks(&back);
                    let mut ok = joined(&t[..p], &t[p..]);
                    ok.push(t.clone());
                    if !ok.contains(&got) {
                        return Err(format!("focus then unfocus turns [{}] into [{}]", show(&t), show(&got)));
                    }
                    M::check_meta(back.meta(), &got, obs_shape(&back).as_ref())?;
                    st.add("focus/unfocus round trips", 1);
                }
                1 => {
                    // an insertion on each side lands exactly there
                    raz.push_left(1_000_001);
                    raz.push_right(1_000_002);
                    let got = obs_toks(&raz.unfocus());
                    let mut w = t[..p].to_vec();
                    w.push(Tok::E(1_000_001));
                    w.push(Tok::E(1_000_002));
                    w.extend_from_slice(&t[p..]);
                    if got != w {
                        return Err(format!("insertion at the cursor gives [{}], expected [{}]", show(&got), show(&w)));
                    }
                    st.add("insertions at the cursor located", 1);
                }
                _ => {
                    let mut gl = vec![];
                    while let Some(e) = raz.pop_left() {
                        gl.push(e);
                    }
                    gl.reverse();
                    let mut gr = vec![];
                    while let Some(e) = raz.pop_right() {
                        gr.push(e);
                    }
                    if gl != l || gr != r {
                        return Err(format!("{}; has {:?} and {:?}", ctx(), gl, gr));
                    }
                    st.add("both sides read out", 1);
                }
            }
            Ok(())
        })
        .map_err(|e| format!("index {:?} ({} metadata, {}): {}", sel, M::NAME, ["edited", "mapped", "joined", "from stack", "from reversed stack", "from vec"][c.cfg[1] as usize], e))?;
    }
    st.seen("distinct sequences focused in", &t);
    st.max("archive points", bounds(&t).len() as u64);
    if (names && nb >= 2) || (!names && bounds(&t).len() >= 2) {
        st.nontrivial = true;
        st.note = format!("{} indexes tried in [{}]", sels.len(), show(&t));
    }
    Ok(())
}
