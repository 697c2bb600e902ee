//! The library's whole-sequence computations, each run on the real tree and on the model.
use crate::common::*;
use crate::model::*;
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Count, Names, RazMeta};
use std::cell::Cell;
use std::rc::Rc;

thread_local! {
    /// user-function applications since last reset: per element / per chunk
    pub static CALLS: Cell<u64> = Cell::new(0);
    pub static CHUNK_CALLS: Cell<u64> = Cell::new(0);
}
fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
}
fn ctick() {
    CHUNK_CALLS.with(|c| c.set(c.get() + 1));
}
pub fn take_calls() -> (u64, u64) {
    (CALLS.with(|c| c.replace(0)), CHUNK_CALLS.with(|c| c.replace(0)))
}

/// observable event of a fold
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    E(u32),
    B(u32, ON),
    L(u32),
    Fin(ON),
    Chunk(Vec<u32>),
}
pub type Tr = Rc<Vec<Ev>>;
fn cat(mut a: Tr, b: Tr) -> Tr {
    Rc::make_mut(&mut a).extend_from_slice(&b);
    a
}
fn app(mut a: Tr, e: Ev) -> Tr {
    Rc::make_mut(&mut a).push(e);
    a
}
const MUL: u64 = 0x5851_F42D_4C95_7F2D;
fn h1(a: u64, e: u32) -> u64 {
    a.wrapping_mul(MUL).wrapping_add(e as u64 + 1)
}
pub fn fmap(e: u32) -> u32 {
    e.wrapping_mul(2_654_435_761).rotate_left(7) ^ 0x55
}

fn show_tr(t: &[Ev]) -> String {
    trunc(&format!("{:?}", t), 900)
}
fn diff(what: &str, got: &[Ev], want: &[Ev]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{}: event {} is {:?}, expected {:?}; got {} expected {}",
        what,
        k,
        got.get(k),
        want.get(k),
        show_tr(got),
        show_tr(want)
    ))
}

pub const C_FOLD_UP: u32 = 1;
pub const C_FOLD_UP_NL: u32 = 2;
pub const C_FOLD_UP_G: u32 = 4;
pub const C_FOLD_LR: u32 = 8;
pub const C_FOLD_LR_META: u32 = 16;
pub const C_FOLD_LR_ARCH: u32 = 32;
pub const C_MAP: u32 = 64;
pub const C_MAP2: u32 = 128;
pub const C_MAXSUM: u32 = 256;
pub const C_ALL: u32 = 511;
pub const C_UP: u32 = C_FOLD_UP | C_FOLD_UP_NL | C_FOLD_UP_G | C_MAXSUM;
pub const C_LR: u32 = C_FOLD_LR | C_FOLD_LR_META | C_FOLD_LR_ARCH;
pub const C_MAPS: u32 = C_MAP | C_MAP2;
pub const COMP_NAMES: [(&str, u32); 9] = [
    ("fold_up", C_FOLD_UP),
    ("fold_up_nl", C_FOLD_UP_NL),
    ("fold_up_gauged", C_FOLD_UP_G),
    ("fold_lr", C_FOLD_LR),
    ("fold_lr_meta", C_FOLD_LR_META),
    ("fold_lr_archive", C_FOLD_LR_ARCH),
    ("map", C_MAP),
    ("map-map-fold", C_MAP2),
    ("max/sum/count", C_MAXSUM),
];

fn ev_toks(t: &[Tok]) -> Vec<Ev> {
    t.iter()
        .map(|t| match t {
            Tok::E(e) => Ev::E(*e),
            Tok::B(l, n) => Ev::B(*l, n.clone()),
        })
        .collect()
}

pub fn do_fold_up<M: RazMeta<u32> + 'static>(tree: &RazTree<u32, M>) -> Option<Tr> {
    ns(nm("c-fold-up"), || {
        tree.clone().fold_up(
            Rc::new(|e: &u32| {
                tick();
                Rc::new(vec![Ev::E(*e)])
            }),
            Rc::new(cat),
        )
    })
}
pub fn do_fold_up_nl<M: RazMeta<u32> + 'static>(tree: &RazTree<u32, M>) -> Option<Tr> {
    ns(nm("c-fold-up-nl"), || {
        tree.clone().fold_up_nl(
            Rc::new(|e: &u32| {
                tick();
                Rc::new(vec![Ev::E(*e)])
            }),
            Rc::new(cat),
            Rc::new(|l, lev, n, r| cat(app(l, Ev::B(lev, n)), r)),
        )
    })
}
pub fn do_fold_up_gauged<M: RazMeta<u32> + 'static>(tree: &RazTree<u32, M>) -> Option<Tr> {
    ns(nm("c-fold-up-g"), || {
        tree.clone().fold_up_gauged(
            Rc::new(|v: &Vec<u32>| {
                ctick();
                Rc::new(vec![Ev::Chunk(v.clone())])
            }),
            Rc::new(|l, lev, n, r| cat(app(l, Ev::B(lev, n)), r)),
        )
    })
}
pub fn do_fold_lr<M: RazMeta<u32> + 'static>(tree: &RazTree<u32, M>, init: u64) -> u64 {
    ns(nm("c-fold-lr"), || {
        tree.clone().fold_lr(
            init,
            Rc::new(|a: u64, e: &u32| {
                tick();
                h1(a, *e)
            }),
        )
    })
}
pub fn do_fold_lr_meta<M: RazMeta<u32> + 'static>(tree: &RazTree<u32, M>, init: Tr) -> Tr {
    ns(nm("c-fold-lr-meta"), || {
        tree.clone().fold_lr_meta(
            init,
            Rc::new(|a: Tr, e: &u32| {
                tick();
                app(a, Ev::E(*e))
            }),
            Rc::new(|a: Tr, (l, n): (u32, ON)| app(a, Ev::B(l, n))),
        )
    })
}
pub fn do_fold_lr_archive<M: RazMeta<u32> + 'static>(tree: &RazTree<u32, M>, init: Tr) -> Tr {
    ns(nm("c-fold-lr-arch"), || {
        tree.clone().fold_lr_archive(
            init,
            Rc::new(|a: Tr, e: &u32| {
                tick();
                app(a, Ev::E(*e))
            }),
            Rc::new(|a: Tr, n: ON| app(a, Ev::Fin(n))),
            Rc::new(|a: Tr, l: u32| app(a, Ev::L(l))),
        )
    })
}
pub fn want_archive(t: &[Tok], init: &[Ev]) -> Vec<Ev> {
    let mut want = init.to_vec();
    if t.is_empty() {
        return want;
    }
    let mut carried = Some(nm("start"));
    for x in t {
        match x {
            Tok::E(e) => want.push(Ev::E(*e)),
            Tok::B(l, n) => {
                want.push(Ev::Fin(carried));
                want.push(Ev::L(*l));
                carried = n.clone();
            }
        }
    }
    want.push(Ev::Fin(carried));
    want
}
fn opt<'a>(t: &'a Option<Tr>, what: &str, empty: bool) -> Result<&'a [Ev], String> {
    match t {
        None if empty => Ok(&[]),
        None => Err(format!("{}: no result for a nonempty sequence", what)),
        Some(_) if empty => Err(format!("{}: a result for an empty sequence", what)),
        Some(v) => Ok(&v[..]),
    }
}

/// run the selected computations on `tree`; compare with what the token sequence `t` requires
pub fn check_comps<M: RazMeta<u32> + 'static>(
    tree: &RazTree<u32, M>,
    t: &[Tok],
    which: u32,
    deep: bool,
    st: &mut Stats,
) -> Result<(), String> {
    let es = elems(t);
    let ev = ev_toks(t);
    if which & C_FOLD_UP != 0 {
        let g = do_fold_up(tree);
        let want: Vec<Ev> = es.iter().map(|e| Ev::E(*e)).collect();
        diff("fold_up", opt(&g, "fold_up", t.is_empty())?, &want)?;
        st.add("fold_up results", 1);
    }
    if which & C_MAXSUM != 0 {
        let g: Option<(u64, u32, u64)> = ns(nm("c-maxsum"), || {
            tree.clone().fold_up(
                Rc::new(|e: &u32| (*e as u64, *e, 1)),
                Rc::new(|a: (u64, u32, u64), b: (u64, u32, u64)| (a.0 + b.0, a.1.max(b.1), a.2 + b.2)),
            )
        });
        let want = if es.is_empty() {
            None
        } else {
            Some((es.iter().map(|e| *e as u64).sum(), *es.iter().max().unwrap(), es.len() as u64))
        };
        if g != want {
            return Err(format!("sum/max/count by fold_up is {:?}, expected {:?}", g, want));
        }
        st.add("fold_up results", 1);
    }
    if which & C_FOLD_UP_NL != 0 {
        let g = do_fold_up_nl(tree);
        diff("fold_up_nl", opt(&g, "fold_up_nl", t.is_empty())?, &ev)?;
        st.add("fold_up_nl results", 1);
    }
    if which & C_FOLD_UP_G != 0 {
        let g = do_fold_up_gauged(tree);
        let mut want = vec![];
        let bs = bounds(t);
        for (i, c) in chunks(t).into_iter().enumerate() {
            if i > 0 {
                want.push(Ev::B(bs[i - 1].0, bs[i - 1].1.clone()));
            }
            want.push(Ev::Chunk(c));
        }
        diff("fold_up_gauged", opt(&g, "fold_up_gauged", t.is_empty())?, &want)?;
        st.add("fold_up_gauged results", 1);
    }
    if which & C_FOLD_LR != 0 {
        for init in [0u64, 77] {
            let g = do_fold_lr(tree, init);
            let want = es.iter().fold(init, |a, e| h1(a, *e));
            if g != want {
                return Err(format!("fold_lr from {} gives {}, expected {} on [{}]", init, g, want, show(t)));
            }
        }
        st.add("fold_lr results", 2);
    }
    let ini: Tr = Rc::new(vec![Ev::L(999)]);
    if which & C_FOLD_LR_META != 0 {
        let g = do_fold_lr_meta(tree, ini.clone());
        let mut want = (*ini).clone();
        want.extend(ev.iter().cloned());
        diff("fold_lr_meta", &g, &want)?;
        st.add("fold_lr_meta results", 1);
    }
    if which & C_FOLD_LR_ARCH != 0 {
        let g = do_fold_lr_archive(tree, ini.clone());
        diff("fold_lr_archive", &g, &want_archive(t, &ini))?;
        st.add("fold_lr_archive results", 1);
    }
    if which & C_MAP != 0 {
        let m: RazTree<u32, Full> = ns(nm("c-map"), || {
            tree.clone().map(Rc::new(|e: &u32| {
                tick();
                fmap(*e)
            }))
        });
        let want = map_toks(t, fmap);
        let got = obs_toks_at("c-map-obs", &m);
        if got != want {
            return Err(format!("map gives [{}], expected [{}]", show(&got), show(&want)));
        }
        if m.is_empty() != t.is_empty() {
            return Err("map: is_empty differs".into());
        }
        if deep {
            let s0 = obs_shape_at("c-map-shape0", tree);
            let s = obs_shape_at("c-map-shape", &m);
            let want_s = s0.as_ref().map(|s| map_shape(s, fmap));
            if s != want_s {
                return Err(format!("map changes the tree structure: {:?} expected {:?}", s, want_s));
            }
            Full::check_meta(m.meta(), &want, s.as_ref()).map_err(|e| format!("metadata of a mapped tree: {}", e))?;
            st.add("mapped trees compared in structure and metadata", 1);
        }
        st.add("map results", 1);
    }
    if which & C_MAP2 != 0 {
        // map to another type and metadata, map back to another, then fold; stages in their own namespaces
        let m1: RazTree<String, Count> = ns(nm("c-map2a"), || tree.clone().map(Rc::new(|e: &u32| format!("<{}>", e))));
        let m2: RazTree<u32, Names> = ns(nm("c-map2b"), || {
            m1.clone().map(Rc::new(|s: &String| s[1..s.len() - 1].parse::<u32>().unwrap().wrapping_add(1)))
        });
        if m1.meta().0 != es.len() {
            return Err(format!("count of a mapped tree is {} expected {}", m1.meta().0, es.len()));
        }
        let want = map_toks(t, |e| e.wrapping_add(1));
        Names::check_meta(m2.meta(), &want, None).map_err(|e| format!("metadata of a mapped tree: {}", e))?;
        let got = obs_toks_at("c-map2-obs", &m2);
        if got != want {
            return Err(format!("map of map gives [{}], expected [{}]", show(&got), show(&want)));
        }
        let s: Option<String> = ns(nm("c-map2c"), || m1.clone().fold_up(Rc::new(|s: &String| s.clone()), Rc::new(|a: String, b: String| a + &b)));
        let want_s: String = es.iter().map(|e| format!("<{}>", e)).collect();
        if s.clone().unwrap_or_default() != want_s {
            return Err(format!("concatenation over a mapped tree is {:?}, expected {:?}", s, want_s));
        }
        st.add("map-map-fold results", 1);
    }
    Ok(())
}
pub fn map_toks<F: Fn(u32) -> u32>(t: &[Tok], f: F) -> Vec<Tok> {
    t.iter()
        .map(|x| match x {
            Tok::E(e) => Tok::E(f(*e)),
            b => b.clone(),
        })
        .collect()
}
pub fn map_shape(s: &Shape, f: fn(u32) -> u32) -> Shape {
    match s {
        Shape::Leaf(v) => Shape::Leaf(v.iter().map(|e| f(*e)).collect()),
        Shape::Bin(l, lev, n, r) => Shape::Bin(Rc::new(map_shape(l, f)), *lev, n.clone(), Rc::new(map_shape(r, f))),
    }
}
