//! Drives the real RAZ through a generated editing history next to a list-with-cursor model.
use crate::common::*;
use crate::model::*;
use iodyn::raz::{Raz, RazTree};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ROp {
    PushL(u32),
    PushR(u32),
    PopL(u32),
    PopR(u32),
    PeekL,
    PeekR,
    ArchL(u32, bool),
    ArchR(u32, bool),
    /// push k elements from v (step 1) and archive
    RunL(u32, u32, u32, bool),
    RunR(u32, u32, u32, bool),
    /// unfocus, observe, focus elsewhere
    Refocus(Sel),
    /// unfocus, observe, try an index that names nothing, focus as told
    BadFocus(u32, Sel),
}

pub const CK_SHAPE: u32 = 1; // canonical tree from levels
pub const CK_META: u32 = 2; // metadata of the whole tree (exact)
pub const CK_NAV: u32 = 4; // navigation callbacks saw the true branch metadata
pub const CK_TOKS: u32 = 8; // element/archive sequence
pub const CK_ONLY_ELEMS: u32 = 16; // ignore archive points when comparing
pub const CK_WELL: u32 = 32; // no empty chunks

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Names_ {
    All,
    None,
    Mixed,
}

/// one history in this many is over a large sequence
pub fn huge(rng: &mut Rng) -> bool {
    use std::sync::OnceLock;
    static N: OnceLock<usize> = OnceLock::new();
    let n = *N.get_or_init(|| std::env::var("MON_HUGE").ok().and_then(|v| v.parse().ok()).unwrap_or(500));
    rng.chance(1, n)
}

pub struct GenCfg {
    pub len: usize,
    pub names: Names_,
    pub lev: usize,
    pub dom: u32,
    pub refocus: u32,
    pub pops: u32,
    pub arch: u32,
    pub runs: u32,
    pub bad: bool,
    /// some subsequences of tens to thousands of elements
    pub fat: bool,
    /// one or two elements per subsequence
    pub mini: bool,
}
pub fn run_len(rng: &mut Rng, fat: bool) -> u32 {
    if fat && rng.chance(1, 6) {
        *rng.pick(&[31u32, 64, 65, 100, 256, 300, 513, 1025, 1500]) - rng.below(2) as u32
    } else {
        rng.range(1, 5) as u32
    }
}
pub fn gen_level(rng: &mut Rng, mode: usize, k: &mut u32) -> u32 {
    match mode {
        0 => rng.geo_level(),
        1 => rng.range(1, 3) as u32,
        2 => 1,
        3 => {
            *k += 1;
            *k
        }
        4 => {
            *k += 1;
            5000 - (*k).min(4900)
        }
        5 => rng.range(1, 64) as u32,
        7 => 64 - rng.geo_level().min(40),
        _ => *rng.pick(&[1u32, 2, 64, 1000, u32::max_value() - 1, 7]),
    }
}
pub fn gen_ops(rng: &mut Rng, g: &GenCfg) -> Vec<ROp> {
    let mut v = vec![];
    let mut k = 0u32;
    let named = |rng: &mut Rng| match g.names {
        Names_::All => true,
        Names_::None => false,
        Names_::Mixed => rng.chance(1, 2),
    };
    let val = |rng: &mut Rng| rng.below(g.dom as usize) as u32;
    let rl = |rng: &mut Rng| if g.mini { rng.range(1, 5) as u32 / 4 + 1 } else { run_len(rng, g.fat) };
    let sel = |rng: &mut Rng| match rng.below(10) {
        0 => Sel::Left,
        1 => Sel::Right,
        2 => Sel::FocusLeft,
        _ => Sel::At(rng.u64() as u32),
    };
    while v.len() < g.len {
        let op = match rng.weighted(&[12, 12, g.pops, g.pops, 3, 3, g.arch, g.arch, g.runs, g.runs, g.refocus, if g.bad { 2 } else { 0 }]) {
            0 => ROp::PushL(val(rng)),
            1 => ROp::PushR(val(rng)),
            2 => ROp::PopL(if g.fat && rng.chance(1, 6) { run_len(rng, true) } else if rng.chance(1, 6) { rng.range(1, 9) as u32 } else { 1 }),
            3 => ROp::PopR(if g.fat && rng.chance(1, 6) { run_len(rng, true) } else if rng.chance(1, 6) { rng.range(1, 9) as u32 } else { 1 }),
            4 => ROp::PeekL,
            5 => ROp::PeekR,
            6 => ROp::ArchL(gen_level(rng, g.lev, &mut k), named(rng)),
            7 => ROp::ArchR(gen_level(rng, g.lev, &mut k), named(rng)),
            8 => ROp::RunL(rl(rng), val(rng), gen_level(rng, g.lev, &mut k), named(rng)),
            9 => ROp::RunR(rl(rng), val(rng), gen_level(rng, g.lev, &mut k), named(rng)),
            10 => ROp::Refocus(sel(rng)),
            _ => ROp::BadFocus(rng.u64() as u32, sel(rng)),
        };
        v.push(op);
    }
    v
}
/// a history over a large sequence: one subsequence of up to 70000 elements, or thousands of archive points
pub fn huge_ops(rng: &mut Rng, names: Names_, chunks: usize) -> Vec<ROp> {
    let named = |rng: &mut Rng| match names {
        Names_::All => true,
        Names_::None => false,
        Names_::Mixed => rng.chance(1, 2),
    };
    let mut v = vec![];
    let around = rng.range(0, 4);
    for _ in 0..around {
        v.push(ROp::RunL(rng.range(1, 5) as u32, rng.below(1000) as u32, rng.geo_level(), named(rng)));
    }
    let big = |rng: &mut Rng| *rng.pick(&[4097u32, 8191, 16_385, 33_000, 65_535, 65_537, 70_001]);
    if rng.chance(1, 2) {
        let (k, e, l, n) = (big(rng), rng.below(1000) as u32, rng.geo_level(), named(rng));
        v.push(if rng.chance(1, 2) { ROp::RunL(k, e, l, n) } else { ROp::RunR(k, e, l, n) });
        if rng.chance(1, 2) {
            v.push(ROp::RunR(big(rng) / 8, 3, rng.geo_level(), named(rng)));
        }
    } else {
        let n = rng.range(chunks / 4, chunks);
        let wide = rng.chance(1, 4);
        let split = rng.range(0, n);
        for i in 0..n {
            let (k, e) = (rng.range(1, 4) as u32, rng.below(100_000) as u32);
            let l = if wide { rng.range(1, 64) as u32 } else { rng.geo_level() };
            let n = named(rng);
            v.push(if i < split { ROp::RunL(k, e, l, n) } else { ROp::RunR(k, e, l, n) });
        }
    }
    let runs = v.len();
    while v.len() < runs + 12 {
        let e = rng.below(100_000) as u32;
        match rng.below(10) {
            0 => v.push(ROp::PushL(e)),
            1 => v.push(ROp::PushR(e)),
            2 => v.push(ROp::PopL(*rng.pick(&[1u32, 3, 40, 5000]))),
            3 => v.push(ROp::PopR(*rng.pick(&[1u32, 3, 40, 5000]))),
            4 => v.push(ROp::ArchL(rng.geo_level(), named(rng))),
            5 => v.push(ROp::ArchR(rng.geo_level(), named(rng))),
            6 => v.push(ROp::PeekL),
            7 => v.push(ROp::Refocus(*rng.pick(&[Sel::Left, Sel::Right, Sel::FocusLeft]))),
            _ => v.push(ROp::Refocus(Sel::At(rng.u64() as u32))),
        }
    }
    v
}
/// the metadata kinds that keep whole contents are left to the smaller histories
pub fn is_huge(ops: &[ROp]) -> bool {
    ops.iter().map(|o| if let ROp::RunL(k, ..) | ROp::RunR(k, ..) = o { *k as usize + 1 } else { 1 }).sum::<usize>() > 3500
}
pub fn huge_meta(rng: &mut Rng, ops: &[ROp], meta: u64) -> u64 {
    if is_huge(ops) && (meta == 2 || meta == 3) {
        *rng.pick(&[0u64, 4])
    } else {
        meta
    }
}
/// a varied history
pub fn gen_hist(rng: &mut Rng, tier: Tier, dcg: bool, chunks: usize) -> (Vec<u64>, Vec<ROp>) {
    if huge(rng) {
        let names = *rng.pick(&[Names_::All, Names_::None, Names_::Mixed]);
        return (vec![names as u64, 0, 0], huge_ops(rng, names, chunks));
    }
    let big = rng.chance(1, if tier == Tier::Quick { 25 } else { 10 });
    let len = if big { rng.range(120, 400) } else { rng.range(3, 90) };
    if rng.chance(1, 6) {
        // few, short subsequences over two values and few levels: repeated and mirrored parts
        let g = GenCfg {
            len: rng.range(3, 26),
            names: *rng.pick(&[Names_::All, Names_::None, Names_::Mixed]),
            lev: *rng.pick(&[0usize, 1, 1, 2, 3, 4]),
            dom: rng.range(1, 3) as u32,
            refocus: rng.range(1, 5) as u32,
            pops: rng.range(0, 5) as u32,
            arch: rng.range(1, 6) as u32,
            runs: rng.range(6, 30) as u32,
            bad: false,
            fat: false,
            mini: true,
        };
        let cfg = vec![g.names as u64, g.lev as u64, g.dom as u64];
        return (cfg, gen_ops(rng, &g));
    }
    let g = GenCfg {
        len,
        names: *rng.pick(&[Names_::All, Names_::All, Names_::None, Names_::Mixed]),
        lev: rng.below(8),
        dom: *rng.pick(&[3u32, 50, 100_000]),
        refocus: *rng.pick(&[1u32, 4, 12]),
        pops: *rng.pick(&[2u32, 6, 14]),
        arch: *rng.pick(&[2u32, 6]),
        runs: *rng.pick(&[1u32, 6, 14]),
        bad: rng.chance(1, 3),
        fat: !big && rng.chance(1, 16),
        mini: false,
    };
    let _ = dcg;
    let cfg = vec![g.names as u64, g.lev as u64, g.dom as u64];
    (cfg, gen_ops(rng, &g))
}

pub struct Sim<M: MonMeta + 'static> {
    pub raz: Option<Raz<u32, M>>,
    /// tokens left of the cursor, in sequence order
    pub l: Vec<Tok>,
    /// tokens right of the cursor, reversed (last is nearest the cursor)
    pub r: Vec<Tok>,
    pub next_name: usize,
    pub log: Option<Vec<String>>,
    pub step: usize,
}

fn active(t: &[Tok]) -> usize {
    t.iter().rev().take_while(|x| matches!(x, Tok::E(_))).count()
}

impl<M: MonMeta + 'static> Sim<M> {
    pub fn new() -> Self {
        Sim { raz: Some(Raz::new()), l: vec![], r: vec![], next_name: 1, log: None, step: 0 }
    }
    fn name(&mut self, named: bool) -> ON {
        if named {
            self.next_name += 1;
            Some(user_name(self.next_name))
        } else {
            None
        }
    }
    fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(l) = self.log.as_mut() {
            l.push(f());
        }
    }
    fn rseq(&self) -> Vec<Tok> {
        self.r.iter().rev().cloned().collect()
    }
    pub fn push(&mut self, left: bool, e: u32) -> Result<(), String> {
        let raz = self.raz.as_mut().unwrap();
        let side = if left { &mut self.l } else { &mut self.r };
        side.push(Tok::E(e));
        let got = if left { raz.push_left(e) } else { raz.push_right(e) };
        let want = active(side);
        self.note(|| format!("push {}", got));
        if got != want {
            return Err(format!(
                "push_{} returned {} non-archived elements, expected {}",
                if left { "left" } else { "right" },
                got,
                want
            ));
        }
        Ok(())
    }
    /// push k elements from v (step 1)
    pub fn push_run(&mut self, left: bool, k: u32, v: u32) -> Result<(), String> {
        let mut want = active(if left { &self.l } else { &self.r });
        for i in 0..k {
            let e = v.wrapping_add(i);
            let raz = self.raz.as_mut().unwrap();
            let got = if left { raz.push_left(e) } else { raz.push_right(e) };
            if left { self.l.push(Tok::E(e)) } else { self.r.push(Tok::E(e)) };
            want += 1;
            self.note(|| format!("push {}", got));
            if got != want {
                return Err(format!(
                    "push_{} returned {} non-archived elements, expected {}",
                    if left { "left" } else { "right" },
                    got,
                    want
                ));
            }
        }
        Ok(())
    }
    pub fn pop(&mut self, left: bool) -> Result<bool, String> {
        let raz = self.raz.as_mut().unwrap();
        let side = if left { &mut self.l } else { &mut self.r };
        if let Some(Tok::B(..)) = side.last() {
            side.pop();
        }
        let want = match side.pop() {
            Some(Tok::E(e)) => Some(e),
            None => None,
            Some(Tok::B(..)) => return Err("harness: adjacent archive points in model".into()),
        };
        let got = if left { raz.pop_left() } else { raz.pop_right() };
        self.note(|| format!("pop {:?}", got));
        if got != want {
            return Err(format!("pop_{} returned {:?}, expected {:?}", if left { "left" } else { "right" }, got, want));
        }
        Ok(got.is_some())
    }
    pub fn peek(&mut self, left: bool) -> Result<(), String> {
        let raz = self.raz.as_ref().unwrap();
        let side = if left { &self.l } else { &self.r };
        let want = side.iter().rev().find_map(|t| if let Tok::E(e) = t { Some(*e) } else { None });
        let got = if left { raz.peek_left() } else { raz.peek_right() };
        self.note(|| format!("peek {:?}", got));
        if got != want {
            return Err(format!("peek_{} returned {:?}, expected {:?}", if left { "left" } else { "right" }, got, want));
        }
        Ok(())
    }
    pub fn archive(&mut self, left: bool, lev: u32, named: bool) {
        let n = self.name(named);
        let side = if left { &mut self.l } else { &mut self.r };
        if matches!(side.last(), Some(Tok::E(_))) {
            side.push(Tok::B(lev, tree_name(&n)));
        }
        let raz = self.raz.as_mut().unwrap();
        if left {
            raz.archive_left(lev, n)
        } else {
            raz.archive_right(lev, n)
        }
    }
    /// unfocus and observe; model becomes what was observed among the permitted outcomes
    pub fn unfocus(&mut self, ck: u32, st: &mut Stats) -> Result<(RazTree<u32, M>, Vec<Tok>), String> {
        let raz = self.raz.take().unwrap();
        let allowed = joined(&self.l, &self.rseq());
        let tree = raz.unfocus();
        let t = self.observe(&tree, &allowed, ck, st)?;
        Ok((tree, t))
    }
    fn observe(&mut self, tree: &RazTree<u32, M>, allowed: &[Vec<Tok>], ck: u32, st: &mut Stats) -> Result<Vec<Tok>, String> {
        let t = obs_toks(tree);
        st.add("sequences observed", 1);
        st.add("elements observed", t.len() as u64);
        if tree.is_empty() != t.is_empty() {
            return Err(format!("is_empty() is {} but the sequence is [{}]", tree.is_empty(), show(&t)));
        }
        if ck & CK_ONLY_ELEMS != 0 {
            let want = elems(&allowed[0]);
            if elems(&t) != want {
                return Err(format!("sequence after unfocus is {:?}, expected {:?}", elems(&t), want));
            }
        } else if !allowed.contains(&t) {
            return Err(format!("sequence after unfocus is [{}], expected [{}]", show(&t), show(&allowed[0])));
        }
        if ck & CK_WELL != 0 && !well_formed(&t) {
            return Err(format!("empty subsequence in [{}]", show(&t)));
        }
        self.note(|| format!("seq {}", show(&t)));
        if ck & (CK_SHAPE | CK_META) != 0 {
            let shape = obs_shape(tree);
            if let Some(s) = &shape {
                st.max("tree height", s.height() as u64);
                st.max("chunks in a tree", s.leaves() as u64);
                st.seen("distinct tree shapes", s);
            }
            if ck & CK_SHAPE != 0 {
                let want = canonical(&t);
                if shape != want {
                    return Err(format!(
                        "tree structure is {} but the levels determine {}",
                        trunc(&format!("{:?}", shape), 900),
                        trunc(&format!("{:?}", want), 900)
                    ));
                }
                st.add("shapes compared", 1);
            }
            if ck & CK_META != 0 {
                M::check_meta(tree.meta(), &t, shape.as_ref())?;
                st.add("metadata compared", 1);
            }
            self.note(|| format!("shape {:?} meta {}", shape, if M::NAME == "names" { String::new() } else { format!("{:?}", tree.meta()) }));
        }
        Ok(t)
    }
    pub fn focus(&mut self, tree: RazTree<u32, M>, t: &[Tok], sel: Sel, ck: u32, st: &mut Stats) -> Result<(), String> {
        NAV.with(|n| n.borrow_mut().clear());
        let shape = if ck & CK_NAV != 0 { obs_shape(&tree) } else { None };
        let (raz, want) = M::focus_sel(tree, t, sel);
        match want {
            Want::At(p) => {
                let raz = match raz {
                    Some(r) => r,
                    None => return Err(format!("focus {:?} failed on [{}]", sel, show(t))),
                };
                let p = placed(&raz, t, p, sel);
                self.raz = Some(raz);
                self.l = t[..p].to_vec();
                self.r = t[p..].iter().rev().cloned().collect();
                st.add("focus moves", 1);
            }
            Want::Fail | Want::FailOrPanic => {
                if raz.is_some() {
                    return Err(format!("focus on an index naming nothing ({:?}) succeeded on [{}]", sel, show(t)));
                }
            }
        }
        if let (true, Some(s)) = (ck & CK_NAV != 0 && M::NAME == "recording", shape) {
            check_nav(&s, sel, st)?;
        }
        Ok(())
    }
    pub fn apply(&mut self, op: &ROp, ck: u32, st: &mut Stats) -> Result<(), String> {
        self.step += 1;
        match op {
            ROp::PushL(e) => self.push(true, *e)?,
            ROp::PushR(e) => self.push(false, *e)?,
            ROp::PopL(k) | ROp::PopR(k) => {
                let left = matches!(op, ROp::PopL(_));
                for _ in 0..*k {
                    st.add("pops", 1);
                    if !self.pop(left)? {
                        break;
                    }
                }
            }
            ROp::PeekL => self.peek(true)?,
            ROp::PeekR => self.peek(false)?,
            ROp::ArchL(l, n) => self.archive(true, *l, *n),
            ROp::ArchR(l, n) => self.archive(false, *l, *n),
            ROp::RunL(k, v, l, n) => {
                self.push_run(true, *k, *v)?;
                self.archive(true, *l, *n);
            }
            ROp::RunR(k, v, l, n) => {
                self.push_run(false, *k, *v)?;
                self.archive(false, *l, *n);
            }
            ROp::Refocus(sel) => {
                let (tree, t) = self.unfocus(ck, st)?;
                self.focus(tree, &t, *sel, ck, st)?;
            }
            ROp::BadFocus(b, sel) => {
                let (tree, t) = self.unfocus(ck, st)?;
                let bad = Sel::Bad(*b);
                if M::sel_ok(&t, bad) && !t.is_empty() {
                    let (z, want) = M::focus_sel(tree.clone(), &t, bad);
                    if matches!(want, Want::Fail) {
                        st.add("failing indexes tried", 1);
                        if z.is_some() {
                            return Err(format!("focus on an index naming nothing ({:?}) succeeded on [{}]", bad, show(&t)));
                        }
                    }
                }
                self.focus(tree, &t, *sel, ck, st)?;
            }
        }
        st.add("operations", 1);
        Ok(())
    }
    /// read everything out through the cursor
    pub fn drain(&mut self, st: &mut Stats) -> Result<(), String> {
        while self.pop(false)? {
            st.add("pops", 1);
        }
        while self.pop(true)? {
            st.add("pops", 1);
        }
        Ok(())
    }
}

fn check_nav(s: &Shape, sel: Sel, st: &mut Stats) -> Result<(), String> {
    let log = NAV.with(|n| n.borrow().clone());
    let mut cur = s.clone();
    if sel == Sel::FocusLeft {
        return Ok(());
    }
    for (j, (l, r, i)) in log.iter().enumerate() {
        match cur.clone() {
            Shape::Leaf(_) => return Err("navigation asked below the leaves".into()),
            Shape::Bin(sl, lev, n, sr) => {
                let (wl, wr) = (full_of(&sl, lev, &n), full_of(&sr, lev, &n));
                if *l != wl || *r != wr {
                    return Err(format!(
                        "navigation was shown branch metadata {} / {} but the branches are {} / {}",
                        trunc(&format!("{:?}", l), 400),
                        trunc(&format!("{:?}", r), 400),
                        trunc(&format!("{:?}", wl), 400),
                        trunc(&format!("{:?}", wr), 400)
                    ));
                }
                st.add("branch metadata seen by navigation", 2);
                let go_left = match i {
                    Pos::First => true,
                    Pos::Last => false,
                    Pos::At(k) => *k < sl.count(),
                    Pos::Back(k) if *k == sr.count() => {
                        st.add("positions found at an archive point", 1);
                        return if j + 1 == log.len() { Ok(()) } else { Err("navigation went on below its goal".into()) };
                    }
                    Pos::Back(k) => *k > sr.count(),
                };
                if let Pos::At(k) | Pos::Back(k) = i {
                    if *k > sl.count() + sr.count() {
                        return Ok(());
                    }
                }
                cur = if go_left { (*sl).clone() } else { (*sr).clone() };
            }
        }
    }
    if let Shape::Bin(..) = cur {
        return Err("navigation stopped above the leaves".into());
    }
    Ok(())
}

pub fn run_hist<M: MonMeta + 'static>(ops: &[ROp], ck: u32, st: &mut Stats, log: bool) -> Result<Vec<String>, String> {
    let mut s: Sim<M> = Sim::new();
    if log {
        s.log = Some(vec![]);
    }
    for (i, op) in ops.iter().enumerate() {
        s.apply(op, ck, st).map_err(|m| format!("after operation {} ({:?}): {}", i, op, m))?;
    }
    let (tree, t) = s.unfocus(ck, st).map_err(|m| format!("at the end: {}", m))?;
    if bounds(&t).len() >= 2 {
        st.nontrivial = true;
        st.note = format!("final [{}]", show(&t));
    }
    st.seen("distinct final sequences", &t);
    s.focus(tree, &t, Sel::Left, ck, st)?;
    s.drain(st).map_err(|m| format!("reading the final sequence through the cursor: {}", m))?;
    Ok(s.log.unwrap_or_default())
}

#[allow(dead_code)]
pub fn rc<T>(t: T) -> Rc<T> {
    Rc::new(t)
}
