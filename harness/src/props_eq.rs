//! Equality and hashing: memoised results are found again through them.
use crate::common::*;
use crate::model::*;
use crate::rsim::*;
use iodyn::archive_stack::AStack;
use iodyn::level_tree::Tree;
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Count, Names};
use iodyn::stack::Stack;
use std::fmt::Debug;
use std::hash::Hash;

/// one token of the sequence
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum QOp {
    E(u32),
    /// level, number of the name
    B(u32, Option<u32>),
}
pub struct EqProp;
type Spec = Vec<QOp>;

fn clean(s: &[QOp]) -> Spec {
    let mut v: Spec = vec![];
    for x in s {
        match x {
            QOp::B(..) if !matches!(v.last(), Some(QOp::E(_))) => {}
            x => v.push(x.clone()),
        }
    }
    while let Some(QOp::B(..)) = v.last() {
        v.pop();
    }
    v
}
fn put<M: MonMeta + 'static>(s: &mut Sim<M>, left: bool, x: &QOp) -> Result<(), String> {
    match x {
        QOp::E(e) => s.push(left, *e),
        QOp::B(l, n) => {
            if let Some(k) = n {
                s.next_name = *k as usize;
            }
            s.archive(left, *l, n.is_some());
            Ok(())
        }
    }
}
/// arrive at the sequence in one of several ways
fn make<M: MonMeta + 'static>(spec: &[QOp], way: u64, rng: &mut Rng, st: &mut Stats) -> Result<(RazTree<u32, M>, Vec<Tok>), String> {
    let mut s: Sim<M> = Sim::new();
    let ends = |s: &mut Sim<M>, sel: Sel, st: &mut Stats| -> Result<(), String> {
        let (tree, t) = s.unfocus(0, st)?;
        s.focus(tree, &t, sel, 0, st)
    };
    match way {
        0 => {
            for x in spec {
                put(&mut s, true, x)?;
            }
        }
        1 => {
            for x in spec.iter().rev() {
                put(&mut s, false, x)?;
            }
        }
        2 => {
            // from the middle, moving to the ends between
            let k = rng.below(spec.len() + 1);
            for x in &spec[..k] {
                put(&mut s, true, x)?;
            }
            for x in spec[k..].iter().rev() {
                put(&mut s, false, x)?;
            }
        }
        3 => {
            // with things added and taken away again
            for x in spec {
                put(&mut s, true, x)?;
                if rng.chance(1, 4) && matches!(s.l.last(), Some(Tok::E(_))) {
                    // an archive point after the last element would go with the removals
                    let n = rng.range(1, 9);
                    for i in 0..n {
                        s.push(true, i as u32)?;
                        if i + 1 < n && rng.chance(1, 3) {
                            s.archive(true, rng.geo_level(), false);
                        }
                    }
                    for _ in 0..n {
                        s.pop(true)?;
                    }
                }
            }
            ends(&mut s, Sel::Left, st)?;
            let n = rng.range(0, 5);
            for i in 0..n {
                s.push(true, 7)?;
                if i > 0 && rng.chance(1, 3) {
                    s.archive(true, rng.geo_level(), false);
                    s.push(true, 9)?;
                    s.pop(true)?;
                }
            }
            while s.pop(true)? {}
        }
        _ => {
            // growing at both ends by turns
            let mut k = rng.below(spec.len() + 1);
            while k > 0 && (matches!(spec[k - 1], QOp::B(..)) || matches!(spec.get(k), Some(QOp::B(..)))) {
                k -= 1;
            }
            let (mut a, mut b) = (k, k);
            while a > 0 || b < spec.len() {
                let left = b == spec.len() || (a > 0 && rng.chance(1, 2));
                // a step that leaves no archive point at an end of the sequence
                let n = rng.range(1, 6);
                if left {
                    let mut to = a.saturating_sub(n);
                    while to > 0 && matches!(spec[to], QOp::B(..)) {
                        to -= 1;
                    }
                    ends(&mut s, Sel::Left, st)?;
                    for x in spec[to..a].iter().rev() {
                        put(&mut s, false, x)?;
                    }
                    a = to;
                } else {
                    let mut to = (b + n).min(spec.len());
                    while to < spec.len() && matches!(spec[to - 1], QOp::B(..)) {
                        to += 1;
                    }
                    ends(&mut s, Sel::Right, st)?;
                    for x in &spec[b..to] {
                        put(&mut s, true, x)?;
                    }
                    b = to;
                }
            }
        }
    }
    for _ in 0..rng.below(3) {
        ends(&mut s, *rng.pick(&[Sel::Left, Sel::Right, Sel::FocusLeft]), st)?;
    }
    s.unfocus(0, st)
}
fn change(spec: &[QOp], rng: &mut Rng, names: bool) -> Spec {
    let mut v = spec.to_vec();
    let k = rng.below(v.len());
    let bs: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], QOp::B(..))).collect();
    match rng.below(9) {
        0 => {
            v.remove(k);
        }
        1 => v.insert(k, QOp::E(rng.below(4) as u32)),
        2 => v.push(QOp::E(rng.below(4) as u32)),
        3 => v.insert(k, QOp::B(rng.geo_level(), None)),
        4 if k + 1 < v.len() => v.swap(k, k + 1),
        5 => {
            if let QOp::E(e) = v[k] {
                v[k] = QOp::E(e ^ 1);
            }
        }
        _ if !bs.is_empty() => {
            let k = *rng.pick(&bs);
            if let QOp::B(l, n) = v[k].clone() {
                match rng.below(4) {
                    0 => v[k] = QOp::B(l + 1, n),
                    1 => v[k] = QOp::B(l.max(2) - 1, n),
                    2 if names => v[k] = QOp::B(l, if n.is_none() { Some(5000 + k as u32) } else { None }),
                    _ => {
                        v.remove(k);
                    }
                }
            }
        }
        _ => {
            let x = v.pop();
            v.insert(0, x.unwrap());
        }
    }
    clean(&v)
}
fn agree<T: PartialEq + Hash + Clone + Debug>(what: &str, a: &T, b: &T, same: bool, st: &mut Stats) -> Result<(), String> {
    if (a == b) != same || (b == a) != same {
        return Err(format!("{}: two values {} {:?}: {:?} and {:?}", what, if same { "of equal contents compare unequal" } else { "of different contents compare equal" }, (a == b, b == a), trunc(&format!("{:?}", a), 500), trunc(&format!("{:?}", b), 500)));
    }
    if same && hash64(a) != hash64(b) {
        return Err(format!("{}: equal values hash differently: {:?}", what, trunc(&format!("{:?}", a), 500)));
    }
    if *a != a.clone() || hash64(a) != hash64(&a.clone()) {
        return Err(format!("{}: a clone differs: {:?}", what, trunc(&format!("{:?}", a), 500)));
    }
    st.add(if same { "equal pairs compared" } else { "different pairs compared" }, 1);
    Ok(())
}
fn raz_eq<M: MonMeta + 'static>(spec: &[QOp], c: &Case<QOp>, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[1]);
    let (a, ta) = make::<M>(spec, 0, &mut rng, st)?;
    agree("the empty sequence and this one", &RazTree::empty(), &a, spec.is_empty(), st)?;
    for way in 1..5 {
        let (b, tb) = make::<M>(spec, way, &mut rng, st).map_err(|e| format!("way {}: {}", way, e))?;
        if ta != tb {
            return Err(format!("harness: way {} arrives at [{}], not [{}]", way, show(&tb), show(&ta)));
        }
        agree("unfocused sequences", &a, &b, true, st).map_err(|e| format!("built by way {}: {}", way, e))?;
        let k = rng.u64() as u32;
        for sel in [Sel::Left, Sel::Right, Sel::At(k)] {
            if let (Some(x), Some(y)) = (M::focus_sel(a.clone(), &ta, sel).0, M::focus_sel(b.clone(), &tb, sel).0) {
                agree("sequences focused at the same place", &x, &y, true, st)?;
                let mut z = y.clone();
                z.push_left(1);
                agree("focused sequences, one with an element more", &x, &z, false, st)?;
                z.pop_left();
                z.push_right(1);
                agree("focused sequences, one with an element more", &x, &z, false, st)?;
            }
        }
    }
    for _ in 0..6 {
        if spec.is_empty() {
            break;
        }
        let other = change(spec, &mut rng, !c.dcg);
        let way = rng.below(5) as u64;
        let (b, tb) = make::<M>(&other, way, &mut rng, st)?;
        agree("unfocused sequences", &a, &b, ta == tb, st)?;
        for sel in [Sel::Left, Sel::Right] {
            if let (Some(x), Some(y)) = (M::focus_sel(a.clone(), &ta, sel).0, M::focus_sel(b.clone(), &tb, sel).0) {
                agree("focused sequences", &x, &y, ta == tb, st)?;
            }
        }
    }
    Ok(())
}
fn arch_name(n: &Option<u32>) -> ON {
    n.map(|k| user_name(k as usize))
}
fn astack(spec: &[QOp], way: u64, rng: &mut Rng) -> AStack<u32, u32> {
    let mut s = if way % 2 == 0 { AStack::new() } else { AStack::with_capacity(rng.range(0, 700)) };
    for x in spec {
        match x {
            QOp::E(e) if way < 2 => s.push(*e),
            QOp::E(e) => s.extend(&[*e]),
            QOp::B(l, n) => {
                s.archive(arch_name(n), *l);
            }
        }
        if way >= 2 && matches!(x, QOp::E(_)) && rng.chance(1, 5) {
            let n = rng.range(1, 6);
            for i in 0..n {
                s.push(i as u32);
                if rng.chance(1, 3) {
                    s.archive(None, 3);
                }
            }
            for _ in 0..n {
                s.pop();
            }
        }
        if let (QOp::B(l, n), 3) = (x, way) {
            // reopen and close again
            s.next_archive();
            s.archive(arch_name(n), *l);
        }
    }
    s
}
fn stack_of(spec: &[QOp], way: u64, rng: &mut Rng) -> Stack<u32> {
    let mut s = Stack::new();
    let mut name: ON = None;
    for x in spec {
        match x {
            QOp::E(e) => {
                s = s.push(name.take(), *e);
                if way > 0 && rng.chance(1, 4) {
                    let t = s.push(None, 99).push(None, 98);
                    s = t.pull().unwrap().pull().unwrap();
                }
            }
            QOp::B(_, n) => name = arch_name(n),
        }
    }
    s
}
fn tree_of(spec: &[QOp]) -> Option<Tree<u32>> {
    if spec.is_empty() {
        return None;
    }
    let k = spec.len() / 3;
    let (l, n, d) = match &spec[k] {
        QOp::E(e) => (1, None, *e),
        QOp::B(l, n) => (*l, arch_name(n), 77_777_777),
    };
    Tree::new(l, n, d, tree_of(&spec[..k]), tree_of(&spec[k + 1..]))
}
fn others(spec: &[QOp], c: &Case<QOp>, st: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[1]);
    let a = astack(spec, 0, &mut rng);
    for way in 1..4 {
        agree("archive stacks", &a, &astack(spec, way, &mut rng), true, st)?;
    }
    let s = stack_of(spec, 0, &mut rng);
    agree("lists", &s, &stack_of(spec, 1, &mut rng), true, st)?;
    let t = tree_of(spec);
    agree("level trees", &t, &tree_of(spec), true, st)?;
    for _ in 0..8 {
        if spec.is_empty() {
            break;
        }
        let other = change(spec, &mut rng, !c.dcg);
        let way = rng.below(4) as u64;
        agree("archive stacks", &a, &astack(&other, way, &mut rng), other[..] == *spec, st)?;
        agree("level trees", &t, &tree_of(&other), other[..] == *spec, st)?;
        // elements with the names they are pushed under
        let look = |v: &[QOp]| {
            let mut n = None;
            v.iter()
                .filter_map(|x| match x {
                    QOp::E(e) => Some((*e, n.take())),
                    QOp::B(_, m) => {
                        n = *m;
                        None
                    }
                })
                .collect::<Vec<_>>()
        };
        agree("lists", &s, &stack_of(&other, 0, &mut rng), look(&other) == look(spec), st)?;
    }
    Ok(())
}
impl Prop for EqProp {
    type Op = QOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 20_000,
            Tier::Thorough => 300_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _: Tier) -> Case<QOp> {
        let dcg = idx % 2 == 1;
        let large = crate::rsim::huge(rng);
        let n = if large { rng.range(500, 2500) } else if rng.chance(1, 20) { rng.range(60, 300) } else { rng.range(0, 40) };
        let names = if dcg { 0 } else { rng.below(3) };
        let dom = *rng.pick(&[1usize, 2, 4, 1000]);
        let (lev, gap) = (rng.below(8), if large { *rng.pick(&[12usize, 100_000]) } else { *rng.pick(&[2usize, 4, 12]) });
        let mut k = 0;
        let mut v: Spec = vec![];
        for i in 0..n {
            v.push(QOp::E(rng.below(dom) as u32));
            if rng.chance(1, gap) {
                let named = names == 1 || (names == 2 && rng.chance(1, 2));
                v.push(QOp::B(gen_level(rng, lev, &mut k), if named { Some(i as u32 + 1) } else { None }));
            }
        }
        let kind = if large { *rng.pick(&[0u64, 1, 4, 6, 7]) } else { rng.below(8) as u64 };
        Case { dcg, cfg: vec![kind, rng.u64()], ops: clean(&v) }
    }
    fn run(&self, c: &Case<QOp>, st: &mut Stats) -> Result<(), String> {
        let spec = clean(&c.ops);
        match c.cfg[0] {
            0 | 5 => raz_eq::<Count>(&spec, c, st)?,
            1 => raz_eq::<()>(&spec, c, st)?,
            2 => raz_eq::<Names>(&spec, c, st)?,
            3 => raz_eq::<Full>(&spec, c, st)?,
            4 => raz_eq::<Digest>(&spec, c, st)?,
            _ => others(&spec, c, st)?,
        }
        let b = spec.iter().filter(|x| matches!(x, QOp::B(..))).count();
        st.seen("distinct sequences compared", &spec);
        st.nontrivial = b >= 2;
        Ok(())
    }
}
