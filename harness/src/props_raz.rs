use crate::common::*;
use crate::model::*;
use crate::rsim::*;
use iodyn::raz_meta::{Count, Names};

/// RAZ histories with a given set of checks and metadata kinds
pub struct RazHist {
    pub ck: u32,
    pub metas: &'static [u8],
    pub quick: u64,
    pub thorough: u64,
}
impl Prop for RazHist {
    type Op = ROp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<ROp> {
        let dcg = idx % 2 == 1;
        let (mut cfg, ops) = gen_hist(rng, tier, dcg, 3000);
        let m = *rng.pick(self.metas) as u64;
        cfg.insert(0, huge_meta(rng, &ops, m));
        if self.ck & CK_SHAPE != 0 {
            cfg.push(rng.u64());
        }
        Case { dcg, cfg, ops }
    }
    fn run(&self, c: &Case<ROp>, st: &mut Stats) -> Result<(), String> {
        st.add(if c.dcg { "histories under the incremental engine" } else { "histories under the naive engine" }, 1);
        let r = match c.cfg[0] {
            0 => run_hist::<Count>(&c.ops, self.ck, st, false),
            1 => run_hist::<()>(&c.ops, self.ck, st, false),
            2 => run_hist::<Names>(&c.ops, self.ck, st, false),
            3 => run_hist::<Full>(&c.ops, self.ck, st, false),
            _ => run_hist::<Digest>(&c.ops, self.ck, st, false),
        };
        r?;
        if self.ck & CK_SHAPE != 0 {
            if let Some(seed) = c.cfg.get(4) {
                crate::props_tree::level_checker(*seed, st)?;
            }
        }
        Ok(())
    }
}

/// histories with whole-sequence computations run at every unfocus
pub struct Comps {
    pub which: u32,
    /// run after every edit round (incremental), or at the end only
    pub every: bool,
    pub dcg_only: bool,
    pub quick: u64,
    pub thorough: u64,
}
fn run_comps<M: MonMeta + 'static>(c: &Case<ROp>, which: u32, every: bool, st: &mut Stats) -> Result<(), String> {
    use crate::comps::*;
    let mut s: Sim<M> = Sim::new();
    let mut rounds = 0;
    let mut changed = 0;
    let mut prev: Vec<Tok> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        let at = |m: String| format!("after operation {} ({:?}): {}", i, op, m);
        match op {
            ROp::Refocus(sel) | ROp::BadFocus(_, sel) if every => {
                let (tree, t) = s.unfocus(CK_TOKS, st).map_err(at)?;
                check_comps(&tree, &t, which, rounds % 3 == 0, st).map_err(at)?;
                rounds += 1;
                if t != prev {
                    changed += 1;
                }
                prev = t.clone();
                s.focus(tree, &t, *sel, 0, st).map_err(at)?;
            }
            op => s.apply(op, 0, st).map_err(at)?,
        }
    }
    let (tree, t) = s.unfocus(CK_TOKS, st)?;
    if t != prev {
        changed += 1;
    }
    check_comps(&tree, &t, which, true, st)?;
    // again: nothing changed
    check_comps(&tree, &t, which, true, st).map_err(|m| format!("on re-running unchanged: {}", m))?;
    st.max("chunks in a tree", bounds(&t).len() as u64 + 1);
    st.add("re-runs after a change", changed);
    st.seen("distinct sequences computed over", &t);
    if bounds(&t).len() >= 2 && (!every || changed >= 2) {
        st.nontrivial = true;
        st.note = format!("{} changed re-runs; final [{}]", changed, show(&t));
    }
    Ok(())
}
impl Prop for Comps {
    type Op = ROp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<ROp> {
        let dcg = self.dcg_only || idx % 3 != 0;
        let (mut cfg, mut ops) = gen_hist(rng, tier, dcg, 1500);
        if self.every && rng.chance(1, 2) {
            // build once, then small edits at scattered places, some undone again
            let mode = rng.below(8);
            let fat = rng.chance(1, 16);
            let mut k = 0;
            let all = rng.chance(3, 4);
            let mut v = vec![];
            for _ in 0..rng.range(4, 40) {
                v.push(ROp::RunL(run_len(rng, fat), rng.below(1000) as u32, gen_level(rng, mode, &mut k), all || rng.chance(1, 2)));
            }
            for _ in 0..rng.range(2, 14) {
                let at = rng.u64() as u32;
                v.push(ROp::Refocus(if rng.chance(1, 8) { *rng.pick(&[Sel::Left, Sel::Right, Sel::FocusLeft]) } else { Sel::At(at) }));
                match rng.below(7) {
                    0 => {
                        let e = rng.below(1000) as u32;
                        v.push(ROp::PushL(e));
                        if rng.chance(1, 2) {
                            v.push(ROp::Refocus(Sel::At(rng.u64() as u32)));
                            v.push(ROp::PeekL);
                        }
                    }
                    1 => v.push(ROp::PushR(rng.below(1000) as u32)),
                    2 => v.push(ROp::PopL(1)),
                    3 => v.push(ROp::PopR(1)),
                    4 => {
                        v.push(ROp::PushL(rng.below(1000) as u32));
                        v.push(ROp::ArchL(gen_level(rng, mode, &mut k), all));
                        v.push(ROp::PushL(rng.below(1000) as u32));
                    }
                    5 => {
                        v.push(ROp::PopL(rng.range(1, 8) as u32));
                        v.push(ROp::PushL(rng.below(1000) as u32));
                    }
                    _ => v.push(ROp::ArchR(gen_level(rng, mode, &mut k), all)),
                }
            }
            ops = v;
        } else if !self.every {
            ops.retain(|o| !matches!(o, ROp::BadFocus(..)));
        }
        let m = rng.below(5) as u64;
        cfg.insert(0, huge_meta(rng, &ops, m));
        Case { dcg, cfg, ops }
    }
    fn run(&self, c: &Case<ROp>, st: &mut Stats) -> Result<(), String> {
        st.add(if c.dcg { "histories under the incremental engine" } else { "histories under the naive engine" }, 1);
        match c.cfg[0] {
            0 => run_comps::<Count>(c, self.which, self.every, st),
            1 => run_comps::<()>(c, self.which, self.every, st),
            2 => run_comps::<Names>(c, self.which, self.every, st),
            3 => run_comps::<Full>(c, self.which, self.every, st),
            _ => run_comps::<Digest>(c, self.which, self.every, st),
        }
    }
}
