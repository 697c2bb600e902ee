//! Persistence, engine agreement, tree join and stack conversion.
use crate::common::*;
use crate::comps::*;
use crate::model::*;
use crate::rsim::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::{Raz, RazTree};
use iodyn::level_tree::Tree;
use iodyn::raz_meta::{Count, Names};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use iodyn::tree_cursor::{Cursor, Force, TreeUpdate, UpResult};
use std::rc::Rc;

// ------------------------------------------------------------ engine agreement

/// same history under both engines; every observable must agree
pub struct Agree;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AgOp {
    /// an edit of a sequence
    S(ROp),
    /// an operation on one of the other collections (kind, choice, value)
    P(u8, u32, u32),
}
impl Prop for Agree {
    type Op = AgOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 20_000,
            Tier::Thorough => 500_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<AgOp> {
        if idx % 5 == 4 {
            let n = if huge(rng) { rng.range(300, 900) } else { rng.range(10, 90) };
            let ops = (0..n).map(|_| AgOp::P(rng.below(32) as u8, rng.u64() as u32, rng.u64() as u32)).collect();
            // how many of the names are given, which collections are preferred
            return Case { dcg: false, cfg: vec![5, rng.below(3) as u64, rng.below(7) as u64], ops };
        }
        let (mut cfg, ops) = gen_hist(rng, tier, true, 500);
        let m = rng.below(5) as u64;
        cfg.insert(0, huge_meta(rng, &ops, m));
        Case { dcg: false, cfg, ops: ops.into_iter().map(AgOp::S).collect() }
    }
    fn run(&self, c: &Case<AgOp>, st: &mut Stats) -> Result<(), String> {
        let ops: Vec<ROp> = c.ops.iter().filter_map(|o| if let AgOp::S(o) = o { Some(o.clone()) } else { None }).collect();
        let go = |st: &mut Stats| -> Vec<String> {
            match c.cfg[0] {
                0 => log_hist::<Count>(&ops, st),
                1 => log_hist::<()>(&ops, st),
                2 => log_hist::<Names>(&ops, st),
                3 => log_hist::<Full>(&ops, st),
                4 => log_hist::<Digest>(&ops, st),
                _ => log_parts(c, st),
            }
        };
        set_engine(false);
        let a = go(st);
        set_engine(true);
        let b = go(st);
        st.add("observations compared between engines", a.len() as u64);
        if a != b {
            let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            return Err(format!(
                "engines disagree at observation {}: naive {} vs incremental {}",
                k,
                trunc(&format!("{:?}", a.get(k)), 700),
                trunc(&format!("{:?}", b.get(k)), 700)
            ));
        }
        st.seen("distinct observation logs", &a);
        if a.len() > 10 {
            st.nontrivial = true;
            st.note = format!("{} observations agree, last {}", a.len(), trunc(a.last().unwrap(), 200));
        }
        Ok(())
    }
}

/// tree data that depends on what is below
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Sum(u32, u64);
impl TreeUpdate for Sum {
    fn rebuild(l: Option<&Self>, old: &Self, level: u32, n: ON, r: Option<&Self>) -> Self {
        let f = |x: Option<&Self>| x.map_or(1, |x| x.1);
        Sum(old.0, f(l).wrapping_mul(3).wrapping_add(f(r).wrapping_mul(7)).wrapping_add(old.0 as u64 + level as u64 * 13 + n.is_some() as u64))
    }
}
fn sum_tree(lev: u32, n: ON, v: u32, l: Option<Tree<Sum>>, r: Option<Tree<Sum>>) -> Tree<Sum> {
    let d = Sum::rebuild(l.as_ref().map(|t| t.peek()).as_ref(), &Sum(v, 0), lev, n.clone(), r.as_ref().map(|t| t.peek()).as_ref());
    Tree::new(lev, n, d, l, r).unwrap()
}
fn show_tree(t: &Option<Tree<Sum>>, out: &mut String) {
    match t {
        None => out.push('.'),
        Some(t) => {
            out.push_str(&format!("({} {:?} {:?} ", t.level(), t.name(), t.peek()));
            show_tree(&t.l_tree(), out);
            show_tree(&t.r_tree(), out);
            out.push(')');
        }
    }
}
fn nodes(t: &Tree<Sum>) -> usize {
    1 + t.l_tree().map_or(0, |t| nodes(&t)) + t.r_tree().map_or(0, |t| nodes(&t))
}
/// Histories on lists, archive stacks, maps, level trees and cursors. Names are used once; a tree
/// with names belongs to one place (under the incremental engine its nodes are mutable cells), while
/// lists, stacks and unnamed trees are branched at will.
fn log_parts(c: &Case<AgOp>, st: &mut Stats) -> Vec<String> {
    let (names, focus) = (c.cfg[1], c.cfg[2]);
    let mut log: Vec<String> = vec![];
    let mut k = 0usize;
    let mut fresh = || {
        k += 1;
        user_name(k)
    };
    let mut lists: Vec<Stack<u32>> = vec![Stack::new()];
    let mut stacks: Vec<AStack<u32, u32>> = vec![AStack::new()];
    let mut trees: Vec<Tree<Sum>> = vec![];
    let mut map: Skiplist<u32, u32> = Skiplist::emp(6, fresh());
    let mut maps: Vec<Skiplist<u32, u32>> = vec![];
    for op in &c.ops {
        let (kind, sel, v) = match op {
            AgOp::P(a, b, c) => (*a, *b as usize, *c),
            _ => continue,
        };
        st.add("operations on other collections", 1);
        let n = |fresh: &mut dyn FnMut() -> adapton::engine::Name| -> ON {
            if names == 0 || (names == 1 && v % 3 == 0) {
                Some(fresh())
            } else {
                None
            }
        };
        // leaves of several kinds, so that small cases exist for each
        let kind = if focus < 4 && sel % 4 != 0 { (focus * 8) as u8 + kind % 8 } else { kind };
        match kind {
            0..=4 => {
                let s = lists[lists.len() - 1 - sel % lists.len().min(6)].clone();
                let nm = n(&mut fresh);
                let s = match &s.0 {
                    Some(h) if v % 2 == 0 => Stack(Some(h.push(nm, v % 50))),
                    _ => s.push(nm, v % 50),
                };
                lists.push(s);
            }
            5 => {
                if let Some(s) = lists[sel % lists.len()].pull() {
                    log.push(format!("pulled {:?} {:?}", s.peek(), s.name()));
                    lists.push(s);
                }
            }
            6 | 7 => {
                let s = &lists[sel % lists.len()];
                log.push(format!("list {:?} {:?} {:?}", s.iter().collect::<Vec<_>>(), s.name(), s.is_empty()));
            }
            8..=15 => {
                if kind == 8 {
                    let s = stacks[sel % stacks.len()].clone();
                    stacks.push(s);
                    if stacks.len() > 6 {
                        stacks.remove(0);
                    }
                }
                let len = stacks.len();
                let s = &mut stacks[len - 1 - sel % len.min(3)];
                match kind {
                    9 | 10 => {
                        for i in 0..v % 5 {
                            s.push(i + sel as u32 % 90);
                        }
                    }
                    11 | 12 => {
                        let nm = n(&mut fresh);
                        log.push(format!("archived {}", s.archive(nm, 1 + v % 9)));
                    }
                    13 => log.push(if v % 2 == 0 { format!("pop {:?}", s.pop()) } else { format!("pop {:?}", s.pop_meta()) }),
                    14 if v % 4 == 0 => log.push(format!("next {:?}", s.next_archive())),
                    _ => log.push(format!("stack {:?} {:?} {} {}", s.peek(), s.name(), s.active_len(), s.is_empty())),
                }
                if kind == 15 {
                    let s = s.clone();
                    log.push(format!("all {:?}", s.clone().into_iter().collect::<Vec<_>>()));
                    let w = fresh();
                    // a run made before the first archive may be empty on top only
                    let t: RazTree<u32, Count> = ns(w, || if v % 2 == 0 { AtTail(s).memo_into() } else { AtHead(s).memo_into() });
                    let w = format!("parts {}", log.len());
                    log.push(format!("converted {} {:?} {:?}", show(&obs_toks_at(&w, &t)), t.meta(), obs_shape(&t)));
                }
            }
            16..=23 => {
                let key = sel as u32 % 40;
                match kind {
                    16..=18 => log.push(format!("ext {:?}", map.ext(key, if v % 4 == 0 { None } else { Some(v) }))),
                    19 => map.put(key, v),
                    20 => log.push(format!("rem {:?}", map.rem(key))),
                    21 if v % 3 == 0 => {
                        maps.push(map.clone());
                        map.archive(fresh());
                    }
                    _ => {
                        let m = if maps.is_empty() || v % 2 == 0 { &map } else { &maps[v as usize % maps.len()] };
                        log.push(format!("map {:?}", (0..40).map(|k| m.get(k)).collect::<Vec<_>>()));
                    }
                }
            }
            _ => {
                if kind < 26 || trees.is_empty() {
                    // a new node above up to two trees
                    let mut take = |on: bool| if on && !trees.is_empty() { Some(trees.swap_remove(sel % trees.len())) } else { None };
                    let (l, r) = (take(v % 3 != 0), take(v % 5 != 0));
                    let lev = 1 + l.as_ref().map_or(0, |t| t.level()).max(r.as_ref().map_or(0, |t| t.level())) + v % 3;
                    let nm = n(&mut fresh);
                    trees.push(sum_tree(lev, nm, v % 90, l, r));
                } else if kind < 29 {
                    let i = sel % trees.len();
                    let t = if names == 2 && v % 2 == 0 && nodes(&trees[i]) < 100 { trees[i].clone() } else { trees.swap_remove(i) };
                    let t2 = if kind == 28 && !trees.is_empty() { Some(trees.swap_remove(v as usize % trees.len())) } else { None };
                    let mut c = Cursor::from(t);
                    let mut z = v;
                    let mut step = || {
                        z = z.wrapping_mul(1664525).wrapping_add(1013904223);
                        z >> 16
                    };
                    for _ in 0..step() % 12 {
                        match step() % 9 {
                            0 | 1 => log.push(format!("down {}", c.down_left())),
                            2 | 3 => log.push(format!("down {}", c.down_right())),
                            4 => log.push(format!("down {}", if step() % 2 == 0 { c.down_left_force(Force::Yes) } else { c.down_right_force(Force::Yes) })),
                            5 => log.push(format!("down {}", if step() % 2 == 0 { c.down_left_force(Force::Discard) } else { c.down_right_force(Force::Discard) })),
                            6 => log.push(format!("up {}", c.up() != UpResult::Fail)),
                            7 => log.push(format!("at {:?} {:?} {:?}", c.peek(), c.peek_level(), c.peek_name())),
                            _ => {
                                let (l, t, r) = c.split();
                                log.push(format!("split at {:?}", t.map(|t| t.peek())));
                                let nm = n(&mut fresh);
                                c = Cursor::join(l, 1 + step() % 9, nm, Sum(step() % 90, 0), r);
                            }
                        }
                    }
                    if let Some(t2) = t2 {
                        let nm = n(&mut fresh);
                        c = Cursor::join(c, 1 + step() % 9, nm, Sum(step() % 90, 0), Cursor::from(t2));
                    }
                    while c.up() != UpResult::Fail {}
                    let t = c.at_tree();
                    let mut s = String::new();
                    show_tree(&t, &mut s);
                    log.push(s);
                    trees.extend(t);
                } else {
                    let t = trees[sel % trees.len()].clone();
                    let w = fresh();
                    match v % 5 {
                        0 => log.push(ns(w, || {
                            t.fold_up_meta(Rc::new(|l: Option<String>, d: Sum, lv, n: ON, r: Option<String>| format!("<{}{:?}{}{:?}{}>", l.unwrap_or_default(), d, lv, n, r.unwrap_or_default())))
                        })),
                        1 => log.push(ns(w, || {
                            t.fold_lr_meta(Some(nm("first")), String::new(), Rc::new(|a: String, d: Sum, lv, n: ON| format!("{} {:?}{}{:?}", a, d, lv, n)))
                        })),
                        2 => {
                            let m = ns(w, || t.map(Rc::new(|d: Sum, _, _, l: Option<&Tree<Sum>>, r: Option<&Tree<Sum>>| Sum(d.0 + 1, l.map_or(5, |t| t.peek().1) ^ r.map_or(9, |t| t.peek().1)))));
                            let mut s = String::new();
                            show_tree(&Some(m), &mut s);
                            log.push(s);
                        }
                        _ => {
                            let mut c = Cursor::from(t);
                            let mut z = sel;
                            while if z % 2 == 0 { c.down_left() } else { c.down_right() } {
                                z /= 2;
                            }
                            let (_, at, r) = c.into_iters();
                            log.push(format!("at {:?}", at.map(|t| t.peek())));
                            log.push(if v % 2 == 0 {
                                format!("rest {:?}", r.collect::<Vec<_>>())
                            } else {
                                ns(w, || r.fold_out(String::new(), Rc::new(|a: String, d: Sum| format!("{} {:?}", a, d))))
                            });
                        }
                    }
                }
            }
        }
    }
    for s in &lists {
        log.push(format!("list {:?} {:?}", s.iter().collect::<Vec<_>>(), s.name()));
    }
    for s in stacks {
        log.push(format!("stack {:?} {:?}", s.name(), s.into_iter().collect::<Vec<_>>()));
    }
    for m in maps.iter().chain(Some(&map)) {
        log.push(format!("map {:?}", (0..40).map(|k| m.get(k)).collect::<Vec<_>>()));
    }
    for t in trees {
        let mut s = String::new();
        show_tree(&Some(t), &mut s);
        log.push(s);
    }
    log
}
/// No reference model here: the log is just what the library returned.
/// (The model is only used to pick the names/positions to focus on; disagreement with it is other checks' business.)
fn log_hist<M: MonMeta + 'static>(ops: &[ROp], st: &mut Stats) -> Vec<String> {
    let mut log: Vec<String> = vec![];
    let mut raz: Raz<u32, M> = Raz::new();
    let mut next = 1;
    let mut name = |b: bool| {
        if b {
            next += 1;
            Some(user_name(next))
        } else {
            None
        }
    };
    let mut rounds = 0;
    for op in ops {
        st.add("operations", 1);
        match op {
            ROp::PushL(e) => log.push(format!("pushl {}", raz.push_left(*e))),
            ROp::PushR(e) => log.push(format!("pushr {}", raz.push_right(*e))),
            ROp::PopL(k) => {
                for _ in 0..*k {
                    log.push(format!("popl {:?}", raz.pop_left()));
                }
            }
            ROp::PopR(k) => {
                for _ in 0..*k {
                    log.push(format!("popr {:?}", raz.pop_right()));
                }
            }
            ROp::PeekL => log.push(format!("peekl {:?}", raz.peek_left())),
            ROp::PeekR => log.push(format!("peekr {:?}", raz.peek_right())),
            ROp::ArchL(l, n) => raz.archive_left(*l, name(*n)),
            ROp::ArchR(l, n) => raz.archive_right(*l, name(*n)),
            ROp::RunL(k, v, l, n) => {
                for i in 0..*k {
                    log.push(format!("pushl {}", raz.push_left(v.wrapping_add(i as u32))));
                }
                raz.archive_left(*l, name(*n));
            }
            ROp::RunR(k, v, l, n) => {
                for i in 0..*k {
                    log.push(format!("pushr {}", raz.push_right(v.wrapping_add(i as u32))));
                }
                raz.archive_right(*l, name(*n));
            }
            ROp::Refocus(sel) | ROp::BadFocus(_, sel) => {
                let tree = raz.unfocus();
                let t = obs_toks(&tree);
                log.push(format!("seq {} empty {}", show(&t), tree.is_empty()));
                if M::NAME != "names" {
                    log.push(format!("meta {:?}", tree.meta()));
                }
                log.push(format!("shape {:?}", obs_shape(&tree)));
                if rounds % 2 == 0 {
                    log.push(format!("up {:?}", do_fold_up(&tree)));
                    log.push(format!("nl {:?}", do_fold_up_nl(&tree)));
                    log.push(format!("g {:?}", do_fold_up_gauged(&tree)));
                    log.push(format!("lr {:?}", do_fold_lr(&tree, 3)));
                    log.push(format!("arch {:?}", do_fold_lr_archive(&tree, Default::default())));
                    let m: RazTree<u32, Count> = ns(nm("ag-map"), || tree.clone().map(std::rc::Rc::new(|e: &u32| fmap(*e))));
                    log.push(format!("map {} {:?}", show(&obs_toks_at("ag-map-obs", &m)), m.meta()));
                }
                rounds += 1;
                let (r, _) = M::focus_sel(tree, &t, *sel);
                match r {
                    Some(r) => raz = r,
                    None => {
                        log.push("focus failed".into());
                        raz = Raz::new()
                    }
                }
            }
        }
    }
    let tree = raz.unfocus();
    log.push(format!("end {}", show(&obs_toks(&tree))));
    let mut raz = tree.focus_left();
    while let Some(e) = raz.pop_right() {
        log.push(format!("r {}", e));
    }
    log
}

// ------------------------------------------------------------ persistence

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum POp {
    Edit(ROp),
    /// keep a clone of the cursor form / of the unfocused form
    Keep,
    KeepTree(Sel),
    /// go on editing a kept version
    Switch(u32),
    /// look at a kept version again
    Look(u32),
}
pub struct Persist;

enum Kept<M: MonMeta + 'static> {
    Cur(Raz<u32, M>, Vec<Tok>, Vec<Tok>),
    Tree(RazTree<u32, M>, Vec<Tok>),
}

impl Prop for Persist {
    type Op = POp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 16_000,
            Tier::Thorough => 300_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<POp> {
        // mode 0: unnamed under dcg; 1: unnamed, naive; 2: named, naive; 3: named, dcg, each edit of a kept version in its own namespace
        let mode = idx % 4;
        let (mut cfg, mut ops) = gen_hist(rng, tier, mode == 0, 1500);
        ops.truncate(150);
        if mode != 2 && mode != 3 {
            for o in ops.iter_mut() {
                match o {
                    ROp::ArchL(_, n) | ROp::ArchR(_, n) | ROp::RunL(_, _, _, n) | ROp::RunR(_, _, _, n) => *n = false,
                    _ => {}
                }
            }
        }
        let m = *rng.pick(&[0u64, 1, 3, 4]);
        cfg.insert(0, huge_meta(rng, &ops, m));
        cfg.insert(1, mode);
        let mut v = vec![];
        for o in ops {
            v.push(POp::Edit(o));
            match rng.below(14) {
                0 => v.push(POp::Keep),
                1 => v.push(POp::KeepTree(Sel::At(rng.u64() as u32))),
                2 => v.push(POp::Switch(rng.u64() as u32)),
                3 => v.push(POp::Look(rng.u64() as u32)),
                _ => {}
            }
        }
        Case { dcg: mode == 0 || mode == 3, cfg, ops: v }
    }
    fn run(&self, c: &Case<POp>, st: &mut Stats) -> Result<(), String> {
        match c.cfg[0] {
            0 => persist::<Count>(c, st),
            1 => persist::<()>(c, st),
            3 => persist::<Full>(c, st),
            _ => persist::<Digest>(c, st),
        }
    }
}
fn look<M: MonMeta + 'static>(k: &Kept<M>, i: usize, named_dcg: bool, st: &mut Stats) -> Result<(), String> {
    st.add("kept versions re-examined", 1);
    match k {
        Kept::Tree(tree, want) => {
            let t = obs_toks_at(&format!("kept{}", i), tree);
            if &t != want {
                return Err(format!("kept version {} (unfocused) now reads [{}], was [{}]", i, show(&t), show(want)));
            }
            let s = obs_shape_at(&format!("kepts{}", i), tree);
            M::check_meta(tree.meta(), &t, s.as_ref()).map_err(|e| format!("kept version {}: {}", i, e))?;
        }
        Kept::Cur(raz, l, r) => {
            if named_dcg {
                return Ok(());
            }
            let peek = |z: &Raz<u32, M>, left: bool| if left { z.peek_left() } else { z.peek_right() };
            let want = |left: bool| elems(if left { l } else { r });
            let ends = [want(true).last().cloned(), want(false).last().cloned()];
            let same = |when: &str| -> Result<(), String> {
                for (left, w) in [(true, ends[0]), (false, ends[1])] {
                    let got = peek(raz, left);
                    if got != w {
                        return Err(format!("kept version {} (with cursor) now peeks {:?} {} ({}), was {:?}", i, got, if left { "leftward" } else { "rightward" }, when, w));
                    }
                }
                Ok(())
            };
            same("when looked at")?;
            // one clone moves through everything, peeking, while the kept version stays where it is
            let mut z = raz.clone();
            for left in [true, false] {
                let want: Vec<u32> = want(left).into_iter().rev().collect();
                let mut got = vec![];
                loop {
                    let k = got.len();
                    if k < 6 || k % 16 == 0 {
                        let p = peek(&z, left);
                        if p != want.get(k).cloned() {
                            return Err(format!("clone of kept version {} peeks {:?} after {} removals, expected {:?}", i, p, k, want.get(k)));
                        }
                        if k < 6 || k % 64 == 0 {
                            same("while a clone of it is edited")?;
                            st.add("kept cursors peeked while another clone moves", 1);
                        }
                    }
                    match if left { z.pop_left() } else { z.pop_right() } {
                        Some(e) => got.push(e),
                        None => break,
                    }
                    // an edit on the way, undone
                    if got.len() % 5 == 2 {
                        if left { z.push_left(4_000_000); z.pop_left() } else { z.push_right(4_000_000); z.pop_right() };
                    }
                }
                if got != want {
                    return Err(format!("kept version {} (with cursor) now reads {:?} {}, was {:?}", i, got, if left { "leftward" } else { "rightward" }, want));
                }
            }
            same("after a clone of it was emptied")?;
            let allowed = joined(l, &r.iter().rev().cloned().collect::<Vec<_>>());
            let t = obs_toks_at(&format!("kept{}", i), &raz.clone().unfocus());
            if !allowed.contains(&t) {
                return Err(format!("kept version {} (with cursor) now unfocuses to [{}], was [{}]", i, show(&t), show(&allowed[0])));
            }
        }
    }
    Ok(())
}
fn persist<M: MonMeta + 'static>(c: &Case<POp>, st: &mut Stats) -> Result<(), String> {
    let mode = c.cfg[1];
    let nd = mode == 3;
    st.add(["unnamed, incremental engine", "unnamed, naive engine", "named, naive engine", "named, incremental engine, namespaces"][mode as usize], 1);
    let mut s: Sim<M> = Sim::new();
    let mut kept: Vec<Kept<M>> = vec![];
    // with mutable named data, the version being edited lives in a namespace of its own
    let mut space: Option<usize> = None;
    let mut spaces = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |m: String| format!("after operation {} ({:?}): {}", i, op, m);
        let cur = space;
        let inside = |sp: Option<usize>| name_pair(nm("space"), name_of_usize(sp.unwrap_or(0)));
        let mut body = |s: &mut Sim<M>, space: &mut Option<usize>, st: &mut Stats| -> Result<(), String> {
            match op {
                POp::Edit(o) => s.apply(o, CK_TOKS, st)?,
                POp::Keep => {
                    if !nd && kept.len() < 12 {
                        kept.push(Kept::Cur(s.raz.clone().unwrap(), s.l.clone(), s.r.clone()));
                    }
                }
                POp::KeepTree(sel) => {
                    let (tree, t) = match cur {
                        Some(_) => ns(inside(cur), || s.unfocus(CK_TOKS, st))?,
                        None => s.unfocus(CK_TOKS, st)?,
                    };
                    if kept.len() < 12 {
                        kept.push(Kept::Tree(tree.clone(), t.clone()));
                        if nd {
                            spaces += 1;
                        }
                    }
                    if nd {
                        // keep editing inside a fresh namespace
                        *space = Some(spaces);
                        ns(inside(Some(spaces)), || s.focus(tree, &t, *sel, 0, st))?;
                    } else {
                        s.focus(tree, &t, *sel, 0, st)?;
                    }
                }
                POp::Switch(k) => {
                    if !nd && !kept.is_empty() {
                        let j = *k as usize % kept.len();
                        match &kept[j] {
                            Kept::Cur(z, l, r) => {
                                s.raz = Some(z.clone());
                                s.l = l.clone();
                                s.r = r.clone();
                            }
                            Kept::Tree(tr, t) => {
                                let (tr, t) = (tr.clone(), t.clone());
                                s.focus(tr, &t, Sel::At(*k), 0, st)?
                            }
                        }
                        st.add("branches edited from a kept version", 1);
                    }
                }
                POp::Look(k) => {
                    if !kept.is_empty() {
                        let j = *k as usize % kept.len();
                        look(&kept[j], j, nd, st)?
                    }
                }
            }
            Ok(())
        };
        let r = match (nd, cur) {
            (true, Some(_)) if !matches!(op, POp::KeepTree(_)) => ns(inside(cur), || body(&mut s, &mut space, st)),
            _ => body(&mut s, &mut space, st),
        };
        r.map_err(at)?;
    }
    for (j, k) in kept.iter().enumerate() {
        look(k, j, nd, st)?;
    }
    st.add("versions kept", kept.len() as u64);
    if kept.len() >= 2 {
        st.nontrivial = true;
        st.note = format!("{} versions kept and unchanged, mode {}", kept.len(), mode);
    }
    Ok(())
}

// ------------------------------------------------------------ joining trees

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum JOp {
    /// edits to the tree under construction
    Edit(ROp),
    /// finish the current tree, put it aside, start a new one
    Next,
    /// join the two most recently put aside (level, named, proper): `proper` raises the level so that it is at least every level in the operands
    Join(u32, bool, bool),
    /// go on editing the most recent tree
    Take(Sel),
    /// make a tree from a vec
    FromVec(u8),
}
pub struct JoinProp;
impl Prop for JoinProp {
    type Op = JOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 16_000,
            Tier::Thorough => 300_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _tier: Tier) -> Case<JOp> {
        let g = GenCfg {
            len: rng.range(10, 80),
            names: *rng.pick(&[Names_::All, Names_::None, Names_::Mixed]),
            lev: rng.below(8),
            dom: 1000,
            refocus: 2,
            pops: 3,
            arch: 4,
            runs: 8,
            bad: false,
            fat: rng.chance(1, 16),
            mini: false,
        };
        let mode = rng.below(3);
        let mut v = vec![];
        let ops = if huge(rng) { huge_ops(rng, g.names, 600) } else { gen_ops(rng, &g) };
        let m = *rng.pick(&[0u64, 1, 2, 3, 4]);
        let cfg = vec![huge_meta(rng, &ops, m)];
        for o in ops {
            v.push(JOp::Edit(o));
            let mut k = 50;
            match rng.below(12) {
                0 | 1 => v.push(JOp::Next),
                2 | 3 => v.push(JOp::Join(gen_level(rng, g.lev, &mut k), rng.chance(2, 3), mode == 0 || (mode == 1 && rng.chance(1, 2)))),
                4 => v.push(JOp::Take(Sel::At(rng.u64() as u32))),
                5 => v.push(JOp::FromVec(rng.below(5) as u8)),
                _ => {}
            }
        }
        Case { dcg: idx % 2 == 1, cfg, ops: v }
    }
    fn run(&self, c: &Case<JOp>, st: &mut Stats) -> Result<(), String> {
        match c.cfg[0] {
            0 => join_run::<Count>(c, st),
            1 => join_run::<()>(c, st),
            2 => join_run::<Names>(c, st),
            3 => join_run::<Full>(c, st),
            _ => join_run::<Digest>(c, st),
        }
    }
}
fn join_run<M: MonMeta + 'static>(c: &Case<JOp>, st: &mut Stats) -> Result<(), String> {
    let mut s: Sim<M> = Sim::new();
    let mut shelf: Vec<(RazTree<u32, M>, Vec<Tok>)> = vec![];
    let mut joins = 0u64;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |m: String| format!("after operation {} ({:?}): {}", i, op, m);
        match op {
            JOp::Edit(o) => s.apply(o, CK_TOKS | CK_META, st).map_err(at)?,
            JOp::Next => {
                let nn = s.next_name;
                let (tr, t) = s.unfocus(CK_TOKS, st).map_err(at)?;
                shelf.push((tr, t));
                s = Sim::new();
                s.next_name = nn;
            }
            JOp::FromVec(n) => {
                let v: Vec<u32> = (0..*n as u32).collect();
                let t: Vec<Tok> = v.iter().map(|e| Tok::E(*e)).collect();
                match RazTree::<u32, M>::from_vec(v) {
                    None if t.is_empty() => {}
                    None => return Err(at("from_vec of a nonempty vector gave no tree".into())),
                    Some(_) if t.is_empty() => return Err(at("from_vec of an empty vector gave a tree".into())),
                    Some(tr) => {
                        let got = obs_toks(&tr);
                        if got != t {
                            return Err(at(format!("from_vec gives [{}]", show(&got))));
                        }
                        M::check_meta(tr.meta(), &t, obs_shape(&tr).as_ref()).map_err(at)?;
                        shelf.push((tr, t))
                    }
                }
            }
            JOp::Join(lev, named, proper) => {
                if shelf.len() < 2 {
                    continue;
                }
                let (rt, rtok) = shelf.pop().unwrap();
                let (lt, ltok) = shelf.pop().unwrap();
                let m = |t: &[Tok]| bounds(t).iter().map(|b| b.0).max().unwrap_or(0);
                let lev = if *proper { (*lev).max(m(&ltok).saturating_add(1)).max(m(&rtok)).min(u32::max_value() - 1) } else { *lev };
                let good = m(&ltok) < lev && m(&rtok) <= lev;
                let name = if *named {
                    s.next_name += 1;
                    Some(user_name(s.next_name))
                } else {
                    None
                };
                let empty = ltok.is_empty() || rtok.is_empty();
                let j = RazTree::join(lt, lev, name.clone(), rt);
                match j {
                    None if empty => st.add("joins of an empty tree refused", 1),
                    None => return Err(at("join of nonempty trees gave nothing".into())),
                    Some(_) if empty => return Err(at("join with an empty tree gave a tree".into())),
                    Some(tr) => {
                        let mut want = ltok;
                        want.push(Tok::B(lev, name));
                        want.extend(rtok);
                        let got = obs_toks(&tr);
                        if got != want {
                            return Err(at(format!("join reads [{}], expected [{}]", show(&got), show(&want))));
                        }
                        let sh = obs_shape(&tr);
                        M::check_meta(tr.meta(), &want, sh.as_ref()).map_err(at)?;
                        if tr.is_empty() {
                            return Err(at("joined tree claims to be empty".into()));
                        }
                        joins += 1;
                        st.add(if good { "joins at a proper level" } else { "joins at a level below the operands'" }, 1);
                        shelf.push((tr, want));
                    }
                }
            }
            JOp::Take(sel) => {
                if let Some((tr, t)) = shelf.pop() {
                    // the tree under construction is put aside in its place
                    let nn = s.next_name;
                    let (tr0, t0) = s.unfocus(CK_TOKS, st).map_err(at)?;
                    shelf.push((tr0, t0));
                    s = Sim::new();
                    s.next_name = nn;
                    s.focus(tr, &t, *sel, 0, st).map_err(at)?;
                    st.add("joined or shelved trees edited further", 1);
                }
            }
        }
    }
    let (tr, t) = s.unfocus(CK_TOKS, st)?;
    shelf.push((tr, t));
    for (tr, t) in shelf {
        let got = obs_toks_at("final", &tr);
        if got != t {
            return Err(format!("a shelved tree reads [{}] at the end, expected [{}]", show(&got), show(&t)));
        }
        let mut z: Sim<M> = Sim::new();
        z.focus(tr, &t, Sel::FocusLeft, 0, st)?;
        z.drain(st).map_err(|e| format!("reading a tree through the cursor: {}", e))?;
    }
    if joins >= 1 {
        st.nontrivial = true;
        st.note = format!("{} joins", joins);
    }
    Ok(())
}

// ------------------------------------------------------------ building from stacks

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum MOp {
    Push(u32),
    Run(u32, u32, u32, bool),
    Arch(u32, bool),
    Pop(u8),
    /// convert now (as tail-edited, as head-edited) and compute
    Conv,
    /// replace what is inside the k-th archive from the top
    Reach(u8, u32),
}
pub struct FromStack;
impl Prop for FromStack {
    type Op = MOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 12_000,
            Tier::Thorough => 200_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _tier: Tier) -> Case<MOp> {
        let lev = rng.below(8);
        let mut k = 0;
        let fat = rng.chance(1, 16);
        let nm = rng.below(3);
        let dom = *rng.pick(&[3usize, 1000]);
        let len = rng.range(2, 60);
        let mut v = vec![];
        let named = |rng: &mut Rng| nm == 0 || (nm == 1 && rng.chance(1, 2));
        for _ in 0..len {
            let op = match rng.below(14) {
                0..=2 => MOp::Push(rng.below(dom) as u32),
                3..=7 => MOp::Run(if huge(rng) { *rng.pick(&[5000u32, 17_000, 65_537, 70_001]) } else { run_len(rng, fat) }, rng.below(dom) as u32, gen_level(rng, lev, &mut k), named(rng)),
                8 => MOp::Arch(gen_level(rng, lev, &mut k), named(rng)),
                9 => MOp::Pop(rng.range(1, 7) as u8),
                10 => MOp::Reach(rng.below(6) as u8, rng.below(dom) as u32),
                _ => MOp::Conv,
            };
            v.push(op);
        }
        Case { dcg: idx % 3 != 0, cfg: vec![rng.below(5) as u64, lev as u64, nm as u64], ops: v }
    }
    fn run(&self, c: &Case<MOp>, st: &mut Stats) -> Result<(), String> {
        match c.cfg[0] {
            0 => from_stack_run::<Count>(c, st),
            1 => from_stack_run::<()>(c, st),
            2 => from_stack_run::<Names>(c, st),
            3 => from_stack_run::<Full>(c, st),
            _ => from_stack_run::<Digest>(c, st),
        }
    }
}
fn from_stack_run<M: MonMeta + 'static>(c: &Case<MOp>, st: &mut Stats) -> Result<(), String> {
    let mut s: AStack<u32, u32> = AStack::new();
    // tokens bottom to top
    let mut t: Vec<Tok> = vec![];
    let mut next = 1;
    let mut convs = 0;
    let mut name = |b: bool| {
        if b {
            next += 1;
            Some(user_name(next))
        } else {
            None
        }
    };
    let conv = |s: &AStack<u32, u32>, t: &Vec<Tok>, st: &mut Stats| -> Result<(), String> {
        // an archive point with nothing after it separates nothing
        let mut allowed = vec![t.clone()];
        if matches!(t.last(), Some(Tok::B(..))) {
            allowed = vec![t[..t.len() - 1].to_vec()];
        }
        for head in [false, true] {
            let (lab, tree): (&str, RazTree<u32, M>) = if head {
                ("head", ns(nm("conv-head"), || RazTree::memo_from(&AtHead(s.clone()))))
            } else {
                ("tail", ns(nm("conv-tail"), || AtTail(s.clone()).memo_into()))
            };
            let mut want = allowed[0].clone();
            if head {
                want.reverse();
            }
            let r = ns(nm(lab), || -> Result<(), String> {
                let got = obs_toks(&tree);
                if got != want {
                    return Err(format!("sequence is [{}], expected [{}]", show(&got), show(&want)));
                }
                if tree.is_empty() != want.is_empty() {
                    return Err("is_empty is wrong".into());
                }
                let shape = obs_shape(&tree);
                let canon = canonical(&want);
                if shape != canon {
                    return Err(format!("tree structure {:?}, levels determine {:?}", shape, canon));
                }
                M::check_meta(tree.meta(), &want, shape.as_ref())?;
                check_comps(&tree, &want, C_FOLD_UP | C_FOLD_UP_NL | C_FOLD_LR_ARCH | C_MAP, true, st)?;
                Ok(())
            });
            r.map_err(|e| format!("conversion of a {}-edited stack holding (bottom to top) [{}]: {}", lab, show(t), e))?;
            st.add("conversions", 1);
            // converting again changes nothing
            if convs_odd(t) {
                let again: RazTree<u32, M> = if head {
                    ns(nm("conv-head"), || RazTree::memo_from(&AtHead(s.clone())))
                } else {
                    ns(nm("conv-tail"), || RazTree::memo_from(&AtTail(s.clone())))
                };
                let got = ns(nm(lab), || obs_toks(&again));
                if got != want {
                    return Err(format!("second conversion gives [{}], expected [{}]", show(&got), show(&want)));
                }
            }
        }
        st.seen("distinct stacks converted", t);
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        let at = |m: String| format!("at operation {} ({:?}): {}", i, op, m);
        match op {
            MOp::Push(e) => {
                s.push(*e);
                t.push(Tok::E(*e));
            }
            MOp::Run(k, v, l, n) => {
                for j in 0..*k {
                    s.push(v + j as u32);
                    t.push(Tok::E(v + j as u32));
                }
                let n = name(*n);
                s.archive(n.clone(), *l);
                t.push(Tok::B(*l, n));
            }
            MOp::Arch(l, n) => {
                let n = name(*n);
                if s.archive(n.clone(), *l) {
                    t.push(Tok::B(*l, n));
                }
            }
            MOp::Pop(k) => {
                for _ in 0..*k {
                    if matches!(t.last(), Some(Tok::B(..))) {
                        t.pop();
                    }
                    t.pop();
                    s.pop();
                }
            }
            MOp::Reach(k, v) => {
                // rebuild the top k archives with one element changed, under their old names
                let mut parts: Vec<(Vec<u32>, Option<(u32, ON)>)> = vec![];
                for _ in 0..=*k {
                    let n = s.name();
                    match s.next_archive() {
                        Some((v, Some(l))) => parts.push((v, Some((l, n)))),
                        Some((v, None)) => {
                            parts.push((v, None));
                            break;
                        }
                        None => break,
                    }
                }
                // s now has the k+1th vec open
                s.push(*v);
                let mut tt = vec![];
                // recompute tokens: keep everything below
                let mut cut = t.len();
                let mut b = 0;
                let want_b = parts.iter().filter(|p| p.1.is_some()).count();
                while b < want_b {
                    cut -= 1;
                    if let Tok::B(..) = t[cut] {
                        b += 1;
                    }
                }
                if parts.last().map_or(true, |p| p.1.is_none()) {
                    cut = 0;
                }
                tt.extend_from_slice(&t[..cut]);
                tt.push(Tok::E(*v));
                for (vec, a) in parts.into_iter().rev() {
                    if let Some((l, n)) = a {
                        s.archive(n.clone(), l);
                        tt.push(Tok::B(l, n));
                    }
                    for e in vec {
                        s.push(e);
                        tt.push(Tok::E(e));
                    }
                }
                t = tt;
            }
            MOp::Conv => {
                conv(&s, &t, st).map_err(at)?;
                convs += 1;
            }
        }
    }
    conv(&s, &t, st)?;
    // the stack itself is untouched by conversion
    let mut got: Vec<u32> = s.clone().into_iter().collect();
    got.reverse();
    if got != elems(&t) {
        return Err(format!("the stack reads {:?} after conversion, expected {:?}", got, elems(&t)));
    }
    if bounds(&t).len() >= 2 {
        st.nontrivial = true;
        st.note = format!("{} conversions, final [{}]", convs + 1, show(&t));
    }
    Ok(())
}
fn convs_odd(t: &[Tok]) -> bool {
    t.len() % 2 == 1
}
