//! User code that uses the collections itself while it is called, or panics.
use crate::common::*;
use crate::model::{nm, user_name};
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::level_tree::{gen_branch_level, good_levels, Tree};
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Navigation, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use iodyn::tree_cursor::{Cursor, Force, TreeUpdate, UpResult};
use rand::{SeedableRng, StdRng};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type ON = Option<Name>;
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Off,
    /// one in so many calls, and salt
    Nest(u64, u64),
    Panic(u64),
}
thread_local! {
    static MODE: Cell<Mode> = Cell::new(Mode::Off);
    static CALLS: Cell<u64> = Cell::new(0);
    static NESTED: Cell<u64> = Cell::new(0);
    static INSIDE: Cell<bool> = Cell::new(false);
    static TROUBLE: RefCell<Option<String>> = RefCell::new(None);
    static PRESENT: RefCell<Option<St>> = RefCell::new(None);
}
/// clones, comparisons and hashing of elements may happen inside the incremental engine, which is not re-entrant
#[derive(Clone, Copy, PartialEq)]
enum Site {
    Function,
    Element,
}
fn hook(site: Site) {
    if INSIDE.with(|i| i.get()) || MODE.with(|m| m.get()) == Mode::Off && CALLS.with(|c| c.get()) == u64::max_value() {
        return;
    }
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    match MODE.with(|m| m.get()) {
        Mode::Off => {}
        Mode::Panic(k) => {
            if n == k {
                panic!("user code fails")
            }
        }
        Mode::Nest(rate, salt) => {
            let dcg = adapton::engine::manage::engine_is_dcg();
            let r = hash64(&(n, salt));
            if site == Site::Element && dcg || r % rate.min(if site == Site::Element { rate } else { 4 }) != 0 {
                return;
            }
            let r = hash64(&r);
            let kind = (r >> 8) % if dcg { KIND_OWN } else { KINDS };
            INSIDE.with(|i| i.set(true));
            NESTED.with(|n| n.set(n.get() + 1));
            let x = catch_unwind(AssertUnwindSafe(|| small(kind, (r >> 16) % 3)));
            INSIDE.with(|i| i.set(false));
            let bad = match x {
                Err(_) => Some(format!("the inner use ({}) panics: {}", SMALL[kind as usize], last_panic())),
                Ok(Err(e)) => Some(format!("the inner use ({}): {}", SMALL[kind as usize], e)),
                Ok(Ok(())) => None,
            };
            if let Some(b) = bad {
                TROUBLE.with(|t| {
                    t.borrow_mut().get_or_insert(b);
                });
            }
        }
    }
}

// ------------------------------------------------------------ user types

pub struct El(u32);
impl Clone for El {
    fn clone(&self) -> Self {
        hook(Site::Element);
        El(self.0)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &Self) -> bool {
        hook(Site::Element);
        self.0 == o.0
    }
}
impl Eq for El {}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        hook(Site::Element);
        self.0.hash(h)
    }
}
impl fmt::Debug for El {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl TreeUpdate for El {
    fn rebuild(_: Option<&Self>, old: &Self, _: u32, _: ON, _: Option<&Self>) -> Self {
        hook(Site::Function);
        El(old.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Md(usize, u64);
#[derive(Clone, Debug)]
pub struct At(usize);
impl FirstLast for At {
    fn first() -> Self {
        At(0)
    }
    fn last() -> Self {
        At(usize::max_value())
    }
}
fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0x100_0000_01b3).rotate_left(17)
}
impl RazMeta<El> for Md {
    type Index = At;
    fn from_none(_: u32, _: ON) -> Self {
        hook(Site::Function);
        Md(0, 1)
    }
    fn from_vec(v: &Vec<El>, _: u32, _: ON) -> Self {
        hook(Site::Function);
        Md(v.len(), v.iter().fold(7, |a, e| mix(a, e.0 as u64)))
    }
    fn from_meta(l: &Self, r: &Self, lev: u32, _: ON) -> Self {
        hook(Site::Function);
        Md(l.0 + r.0, mix(mix(l.1, lev as u64), r.1))
    }
    fn navigate(l: &Self, _: &Self, i: &At) -> Navigation<At> {
        hook(Site::Function);
        if i.0 == usize::max_value() {
            Navigation::Right(i.clone())
        } else if i.0 > l.0 {
            Navigation::Right(At(i.0 - l.0))
        } else {
            Navigation::Left(i.clone())
        }
    }
    fn split_vec<'a>(v: &'a Vec<El>, i: &At) -> (&'a [El], &'a [El]) {
        hook(Site::Function);
        v.split_at(i.0.min(v.len()))
    }
}

// ------------------------------------------------------------ inner uses

const SMALL: [&str; 12] = [
    "editing a sequence",
    "computing over a sequence",
    "converting a stack",
    "level tree",
    "tree cursor",
    "map",
    "list and equality",
    "drawing levels",
    "computing over the sequence at hand",
    "editing the sequence at hand",
    "converting the stack at hand",
    "map and tree at hand",
];
/// inner uses on values of their own; those after work on the values the outer operation works on
const KIND_OWN: u64 = 8;
const KINDS: u64 = 12;
fn want<T: PartialEq + fmt::Debug>(got: T, exp: T) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("gives {:?}, expected {:?}", got, exp))
    }
}
fn sample(salt: u64) -> RazTree<u32, Count> {
    let mut z: Raz<u32, Count> = Raz::new();
    for i in 0..9u32 {
        z.push_left(i + salt as u32);
        if i % 3 == 2 && i < 8 {
            z.archive_left(1 + i, if salt == 0 { None } else { Some(user_name(900_000 + 10 * salt as usize + i as usize)) });
        }
    }
    z.unfocus()
}
fn all(t: &RazTree<u32, Count>) -> Vec<u32> {
    t.clone().fold_lr(vec![], Rc::new(|mut a: Vec<u32>, e: &u32| {
        a.push(*e);
        a
    }))
}
fn small(kind: u64, salt: u64) -> Result<(), String> {
    let space = name_pair(nm("inner"), name_of_usize((kind * 10 + salt) as usize));
    let s = salt as u32;
    ns(space, || match kind {
        0 => {
            let t = sample(salt);
            let mut z = t.focus(4usize).ok_or("no focus")?;
            z.push_right(77);
            want((z.pop_left(), z.peek_left(), z.pop_right()), (Some(3 + s), Some(2 + s), Some(77)))?;
            let t = z.unfocus();
            want(ns(nm("after"), || all(&t)), (0..9).filter(|i| *i != 3).map(|i| i + s).collect())
        }
        1 => {
            let t = sample(salt);
            want(ns(nm("u"), || t.clone().fold_up(Rc::new(|e: &u32| *e), Rc::new(|a: u32, b: u32| a.max(b)))), Some(8 + s))?;
            let m: RazTree<u32, Count> = ns(nm("mm"), || t.clone().map(Rc::new(|e: &u32| e * 2)));
            want(ns(nm("m"), || all(&m)), (0..9).map(|i| (i + s) * 2).collect())?;
            want(
                ns(nm("g"), || t.fold_up_gauged(Rc::new(|v: &Vec<u32>| v.len()), Rc::new(|a: usize, _: u32, _: ON, b: usize| a * 10 + b))),
                Some(333),
            )
        }
        2 => {
            let mut st: AStack<u32, u32> = AStack::new();
            for i in 0..6 {
                st.push(i + s);
                if i % 2 == 1 && i < 5 {
                    st.archive(if salt == 0 { None } else { Some(user_name(910_000 + 10 * salt as usize + i as usize)) }, i + 1);
                }
            }
            let a: RazTree<u32, Count> = ns(nm("t"), || AtTail(st.clone()).memo_into());
            want(ns(nm("ta"), || all(&a)), (0..6).map(|i| i + s).collect())?;
            // other names, or they would be the same cells of another tree
            let mut hs: AStack<u32, u32> = AStack::new();
            for i in 0..6 {
                hs.push(i + s);
                if i % 2 == 1 && i < 5 {
                    hs.archive(if salt == 0 { None } else { Some(user_name(920_000 + 10 * salt as usize + i as usize)) }, i + 1);
                }
            }
            let b: RazTree<u32, Count> = ns(nm("h"), || RazTree::memo_from(&AtHead(hs)));
            want(ns(nm("ha"), || all(&b)), (0..6).rev().map(|i| i + s).collect())
        }
        3 => {
            let n = |k: usize| if salt == 0 { None } else { Some(user_name(930_000 + 10 * salt as usize + k)) };
            let l = Tree::new(2, n(1), 1u32, None, None);
            let r = Tree::new(3, n(2), 2u32, None, None);
            let t = Tree::new(5, n(3), 4 + s, l, r).unwrap();
            want(good_levels(&t), true)?;
            want(ns(nm("u"), || t.clone().fold_up(Rc::new(|l: Option<u32>, d: u32, r: Option<u32>| l.unwrap_or(0) + d + r.unwrap_or(0)))), 7 + s)?;
            want(ns(nm("lr"), || t.fold_lr(0u32, Rc::new(|a: u32, d: u32| a * 10 + d))), 102 + 10 * (4 + s))
        }
        4 => {
            let l = Tree::new(2, None, Plain(1), None, None);
            let r = Tree::new(3, None, Plain(2), None, None);
            let t = Tree::new(5, None, Plain(4 + s), l, r).unwrap();
            let mut c = Cursor::from(t);
            want((c.down_left(), c.peek().map(|p| p.0)), (true, Some(1)))?;
            want(c.down_left_force(Force::Yes), true)?;
            want(c.up() == UpResult::Right, true)?;
            let (lc, _, rc) = c.split();
            let mut j = Cursor::join(lc, 9, None, Plain(6), rc);
            while j.up() != UpResult::Fail {}
            want((j.peek().map(|p| p.0), j.peek_level()), (Some(6), Some(9)))?;
            want(j.down_right(), true)?;
            want(j.peek().map(|p| p.0), Some(4 + s))
        }
        5 => {
            let mut m: Skiplist<u32, u32> = Skiplist::emp(4, name_pair(nm("inner map"), name_of_usize(salt as usize)));
            for k in 0..6 {
                m.put(k, k + s);
            }
            m.rem(2);
            want((m.get(5), m.get(2), m.get(9)), (Some(5 + s), None, None))
        }
        6 => {
            let a = Stack::new().push(None, 1u32).push(None, s);
            let b = Stack::new().push(None, 1u32).push(None, s);
            want((a == b, hash64(&a) == hash64(&b), a == a.push(None, 1)), (true, true, false))?;
            want(a.iter().collect::<Vec<_>>(), vec![s, 1])
        }
        7 => {
            let draw = || {
                let mut r = StdRng::from_seed(&[3 + salt as usize]);
                (0..8).map(|_| gen_branch_level(&mut r)).collect::<Vec<_>>()
            };
            want(draw(), draw())?;
            want(iodyn::inc_level() >= 1, true)
        }
        k => PRESENT.with(|p| match *p.borrow() {
            None => Ok(()),
            Some(ref st) => present(k, st),
        }),
    })
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Plain(u32);
impl TreeUpdate for Plain {
    fn rebuild(_: Option<&Self>, old: &Self, _: u32, _: ON, _: Option<&Self>) -> Self {
        old.clone()
    }
}
/// inner uses of the very values the outer operation works on
fn present(kind: u64, st: &St) -> Result<(), String> {
    let toks = toks(&st.t);
    match kind {
        8 => {
            let n = st.t.clone().fold_up_gauged(Rc::new(|v: &Vec<El>| v.len()), Rc::new(|a: usize, _: u32, _: ON, b: usize| a + b)).unwrap_or(0);
            want(n, st.t.meta().0)?;
            let m: RazTree<El, Md> = st.t.clone().map(Rc::new(|e: &El| El(e.0 + 1)));
            want(m.meta().0, n)
        }
        9 => {
            let n = st.t.meta().0;
            let mut z = st.t.clone().focus(At(n / 2)).ok_or("no focus")?;
            z.push_left(El(1));
            z.archive_left(3, None);
            z.push_right(El(2));
            want(z.unfocus().meta().0, n + 2)?;
            want(toks == self::toks(&st.t), true)
        }
        10 => {
            let t: RazTree<El, Md> = AtTail(st.s.clone()).memo_into();
            want(t.meta().0, st.s.clone().into_iter().count())
        }
        _ => {
            let m = (0..4).map(|k| st.m.get(El(k)).map(|e| e.0)).collect::<Vec<_>>();
            let mut n = st.m.clone();
            for k in 0..4 {
                n.put(El(k), El(99));
            }
            want((0..4).map(|k| st.m.get(El(k)).map(|e| e.0)).collect::<Vec<_>>(), m)?;
            want(st.lt.clone().fold_lr(0usize, Rc::new(|a: usize, _: El| a + 1)), nodes(&st.lt).len())
        }
    }
}

// ------------------------------------------------------------ the outer program

#[derive(Clone)]
struct St {
    t: RazTree<El, Md>,
    s: AStack<El, u32>,
    lt: Tree<El>,
    m: Skiplist<El, El>,
    l: Stack<El>,
}
type Toks = Vec<(u32, ON)>;
fn toks(t: &RazTree<El, Md>) -> Toks {
    (*t.clone().fold_lr_meta(
        Rc::new(vec![]),
        Rc::new(|mut a: Rc<Toks>, e: &El| {
            Rc::make_mut(&mut a).push((e.0 + 1_000_000, None));
            a
        }),
        Rc::new(|mut a: Rc<Toks>, b: (u32, ON)| {
            Rc::make_mut(&mut a).push(b);
            a
        }),
    ))
    .clone()
}
fn nodes(t: &Tree<El>) -> Vec<(u32, u32)> {
    let mut v = t.l_tree().map_or(vec![], |l| nodes(&l));
    v.push((t.level(), t.peek().0));
    v.extend(t.r_tree().map_or(vec![], |r| nodes(&r)));
    v
}
/// everything there is to see of a state, with well-behaved user code
fn read(st: &St) -> u64 {
    let (mode, calls) = (MODE.with(|m| m.replace(Mode::Off)), CALLS.with(|c| c.replace(u64::max_value())));
    let r = ns(nm("read"), || {
        let stack: Vec<(u32, Vec<u32>)> = {
            let mut s = st.s.clone();
            let mut v = vec![];
            while let Some((r, m)) = s.next_archive() {
                v.push((m.unwrap_or(0), r.iter().map(|e| e.0).collect()));
            }
            v
        };
        let map: Vec<Option<u32>> = (0..12).map(|k| st.m.get(El(k)).map(|e| e.0)).collect();
        hash64(&(toks(&st.t), st.t.meta(), stack, nodes(&st.lt), map, st.l.iter().map(|e| e.0).collect::<Vec<_>>()))
    });
    MODE.with(|m| m.set(mode));
    CALLS.with(|c| c.set(calls));
    r
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct NOp(u8, u32, u32);
const OPS: [&str; 18] = [
    "editing the sequence",
    "editing the sequence at several places",
    "fold_up",
    "fold_up_nl",
    "fold_up_gauged",
    "fold_lr",
    "fold_lr_meta",
    "fold_lr_archive",
    "map",
    "editing the stack",
    "converting the stack from the tail",
    "converting the stack from the head",
    "editing the level tree",
    "computing over the level tree",
    "fold_out",
    "editing the map",
    "editing the list",
    "joining, comparing",
];
fn name(dcg: bool, i: usize, k: usize) -> ON {
    if dcg || (i + k) % 3 != 0 {
        Some(user_name(1000 * (i + 1) + k))
    } else {
        None
    }
}
/// one step: the next state and what was seen. Computations are named, the same at every step.
fn step(st: &St, i: usize, op: &NOp, dcg: bool) -> (St, u64) {
    let mut st = st.clone();
    let NOp(o, a, b) = *op;
    let mut r = Rng::new(mix(a as u64, b as u64));
    let mut seen: Vec<u64> = vec![];
    match o {
        0 | 1 => {
            for j in 0..if o == 0 { 1 } else { 3 } {
                let n = st.t.meta().0;
                if let Some(mut z) = ns(nm("focus"), || st.t.clone().focus(At(r.below(n + 1)))) {
                    for k in 0..r.range(1, 6) {
                        let x = match r.below(8) {
                            0 | 1 => z.push_left(El(r.below(500) as u32)) as u64,
                            2 => z.push_right(El(r.below(500) as u32)) as u64,
                            3 => z.pop_left().map_or(0, |e| e.0 as u64 + 1),
                            4 => z.pop_right().map_or(0, |e| e.0 as u64 + 1),
                            5 => z.peek_left().map_or(0, |e| e.0 as u64) + z.peek_right().map_or(0, |e| e.0 as u64),
                            6 => {
                                z.archive_left(r.geo_level(), name(dcg, i, 10 * j + k));
                                0
                            }
                            _ => {
                                z.archive_right(r.geo_level(), name(dcg, i, 10 * j + k));
                                0
                            }
                        };
                        seen.push(x);
                    }
                    st.t = ns(nm("unfocus"), || z.unfocus());
                }
            }
        }
        2 => seen.push(
            ns(nm("up"), || {
                st.t.clone().fold_up(
                    Rc::new(|e: &El| {
                        hook(Site::Function);
                        e.0 as u64 + 2
                    }),
                    Rc::new(|a: u64, b: u64| {
                        hook(Site::Function);
                        mix(a, b)
                    }),
                )
            })
            .unwrap_or(0),
        ),
        3 => seen.push(
            ns(nm("nl"), || {
                st.t.clone().fold_up_nl(
                    Rc::new(|e: &El| {
                        hook(Site::Function);
                        e.0 as u64 + 2
                    }),
                    Rc::new(|a: u64, b: u64| {
                        hook(Site::Function);
                        mix(a, b)
                    }),
                    Rc::new(|a: u64, l: u32, _: ON, b: u64| {
                        hook(Site::Function);
                        mix(mix(a, l as u64), b)
                    }),
                )
            })
            .unwrap_or(0),
        ),
        4 => seen.push(
            ns(nm("gauged"), || {
                st.t.clone().fold_up_gauged(
                    Rc::new(|v: &Vec<El>| {
                        hook(Site::Function);
                        v.iter().fold(5u64, |a, e| mix(a, e.0 as u64))
                    }),
                    Rc::new(|a: u64, l: u32, _: ON, b: u64| {
                        hook(Site::Function);
                        mix(mix(a, l as u64), b)
                    }),
                )
            })
            .unwrap_or(0),
        ),
        5 => seen.push(ns(nm("lr"), || {
            st.t.clone().fold_lr(
                1u64,
                Rc::new(|a: u64, e: &El| {
                    hook(Site::Function);
                    mix(a, e.0 as u64)
                }),
            )
        })),
        6 => seen.push(ns(nm("lr meta"), || {
            st.t.clone().fold_lr_meta(
                1u64,
                Rc::new(|a: u64, e: &El| {
                    hook(Site::Function);
                    mix(a, e.0 as u64)
                }),
                Rc::new(|a: u64, (l, n): (u32, ON)| {
                    hook(Site::Function);
                    mix(a, mix(l as u64, n.is_some() as u64))
                }),
            )
        })),
        7 => seen.push(ns(nm("lr archive"), || {
            st.t.clone().fold_lr_archive(
                1u64,
                Rc::new(|a: u64, e: &El| {
                    hook(Site::Function);
                    mix(a, e.0 as u64)
                }),
                Rc::new(|a: u64, n: ON| {
                    hook(Site::Function);
                    mix(a, n.is_some() as u64)
                }),
                Rc::new(|a: u64, l: u32| {
                    hook(Site::Function);
                    mix(a, l as u64)
                }),
            )
        })),
        8 => {
            let m: RazTree<El, Md> = ns(nm("map"), || {
                st.t.clone().map(Rc::new(|e: &El| {
                    hook(Site::Function);
                    El(e.0 * 2)
                }))
            });
            seen.push(m.meta().1);
            seen.push(hash64(&ns(nm("mapped"), || toks(&m))));
        }
        9 => {
            for k in 0..r.range(1, 6) {
                match r.below(6) {
                    0 | 1 | 2 => st.s.push(El(r.below(500) as u32)),
                    3 => seen.push(st.s.pop().map_or(0, |e| e.0 as u64 + 1)),
                    4 if st.s.active_len() > 0 => {
                        st.s.archive(name(dcg, i, 100 + k), r.geo_level());
                    }
                    _ => seen.push(st.s.peek().map_or(0, |e| e.0 as u64 + 1)),
                }
            }
        }
        10 | 11 => {
            let t: RazTree<El, Md> = ns(nm(if o == 10 { "tail" } else { "head" }), || {
                if o == 10 {
                    AtTail(st.s.clone()).memo_into()
                } else {
                    RazTree::memo_from(&AtHead(st.s.clone()))
                }
            });
            seen.push(t.meta().1);
            seen.push(hash64(&ns(nm("converted"), || toks(&t))));
        }
        12 => {
            let mut c = Cursor::from(st.lt.clone());
            for _ in 0..r.below(5) {
                if r.chance(1, 2) {
                    c.down_left();
                } else {
                    c.down_right();
                }
            }
            let lev = r.geo_level();
            let d = El(r.below(500) as u32);
            let (lc, dropped, rc) = c.split();
            seen.push(dropped.map_or(0, |t| t.peek().0 as u64));
            let mut j = Cursor::join(lc, lev, name(dcg, i, 200), d, rc);
            while j.up() != UpResult::Fail {}
            st.lt = j.at_tree().unwrap();
        }
        13 => {
            seen.push(ns(nm("tree up"), || {
                st.lt.clone().fold_up(Rc::new(|l: Option<u64>, d: El, r: Option<u64>| {
                    hook(Site::Function);
                    mix(mix(l.unwrap_or(1), d.0 as u64), r.unwrap_or(2))
                }))
            }));
            let m: Tree<u64> = ns(nm("tree map"), || {
                st.lt.clone().map(Rc::new(|d: El, _: u32, _: ON, l: Option<&Tree<u64>>, r: Option<&Tree<u64>>| {
                    hook(Site::Function);
                    mix(mix(l.map_or(1, |l| l.peek()), d.0 as u64), r.map_or(2, |r| r.peek()))
                }))
            });
            seen.push(m.peek());
            seen.push(ns(nm("tree lr"), || {
                st.lt.clone().fold_lr(
                    1u64,
                    Rc::new(|a: u64, d: El| {
                        hook(Site::Function);
                        mix(a, d.0 as u64)
                    }),
                )
            }));
        }
        14 => {
            let mut c = Cursor::from(st.lt.clone());
            while c.down_left() {}
            seen.push(ns(nm("out"), || {
                c.into_iters().2.fold_out(
                    1u64,
                    Rc::new(|a: u64, d: El| {
                        hook(Site::Function);
                        mix(a, d.0 as u64)
                    }),
                )
            }));
        }
        15 => {
            for _ in 0..r.range(1, 4) {
                let k = El(r.below(12) as u32);
                seen.push(match r.below(4) {
                    0 => st.m.rem(k).map_or(0, |e| e.0 as u64 + 1),
                    1 => st.m.get(k).map_or(0, |e| e.0 as u64 + 1),
                    _ => {
                        let v = El(r.below(500) as u32);
                        st.m.ext(k, Some(v)).map_or(0, |e| e.0 as u64 + 1)
                    }
                });
            }
        }
        16 => {
            for k in 0..r.range(1, 4) {
                if r.chance(2, 3) {
                    st.l = st.l.push(name(dcg, i, 300 + k), El(r.below(500) as u32));
                } else {
                    seen.push(st.l.peek().map_or(0, |e| e.0 as u64 + 1));
                    st.l = st.l.pull().unwrap_or_else(Stack::new);
                }
            }
        }
        _ => {
            let v: Vec<El> = (0..r.range(1, 5)).map(|_| El(r.below(500) as u32)).collect();
            let u = RazTree::from_vec(v).unwrap();
            let t = st.t.clone();
            seen.push((t == u) as u64 + 2 * (t == t.clone()) as u64 + 4 * (hash64(&t) == hash64(&st.t)) as u64);
            seen.push((st.s == st.s.clone()) as u64 + 2 * (st.l == st.l.clone()) as u64);
            if let Some(j) = RazTree::join(t, r.geo_level(), name(dcg, i, 400), u) {
                st.t = j;
            }
        }
    }
    let h = hash64(&seen);
    (st, h)
}
fn start(c: &Case<NOp>) -> St {
    let mut s = AStack::new();
    s.push(El(1));
    let mut m = Skiplist::emp(4, nm("map"));
    m.put(El(1), El(2));
    let mut z: Raz<El, Md> = Raz::new();
    for i in 0..4 {
        z.push_left(El(i));
    }
    let mut r = Rng::new(c.cfg[1] ^ 5);
    for i in 0..*r.pick(&[0usize, 0, 3, 12, 30]) {
        z.archive_left(r.geo_level(), if c.dcg || i % 2 == 0 { Some(user_name(700_000 + i)) } else { None });
        z.push_left(El(i as u32));
    }
    St { t: z.unfocus(), s: s, lt: Tree::new(4, Some(user_name(1)), El(1), None, None).unwrap(), m: m, l: Stack::new() }
}
fn mode(m: Mode) {
    MODE.with(|x| x.set(m));
    CALLS.with(|c| c.set(0));
}

pub struct NestProp;
impl Prop for NestProp {
    type Op = NOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 12_000,
            Tier::Thorough => 400_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, t: Tier) -> Case<NOp> {
        let n = if t == Tier::Thorough && rng.chance(1, 20) { rng.range(60, 150) } else { rng.range(4, 30) };
        let ops = (0..n).map(|_| NOp(if rng.chance(1, 3) { *rng.pick(&[0u8, 1, 9, 12]) } else { rng.below(OPS.len()) as u8 }, rng.u64() as u32, rng.u64() as u32)).collect();
        // user code uses collections (either engine), or fails (naive engine)
        Case { dcg: idx % 3 == 1, cfg: vec![(idx % 3 == 2) as u64, rng.u64()], ops }
    }
    fn run(&self, c: &Case<NOp>, st: &mut Stats) -> Result<(), String> {
        INSIDE.with(|i| i.set(false));
        TROUBLE.with(|t| *t.borrow_mut() = None);
        PRESENT.with(|p| *p.borrow_mut() = None);
        mode(Mode::Off);
        st.nontrivial = c.ops.len() > 4;
        let r = if c.cfg[0] == 0 { nests(c, st) } else { fails(c, st) };
        PRESENT.with(|p| *p.borrow_mut() = None);
        mode(Mode::Off);
        INSIDE.with(|i| i.set(false));
        r
    }
}
/// the program with user code that uses collections, and the same with user code that does not
fn nests(c: &Case<NOp>, stats: &mut Stats) -> Result<(), String> {
    let mut runs: Vec<Vec<(u64, u64)>> = vec![];
    let mut calls = vec![];
    for nest in [false, true].iter() {
        set_engine(c.dcg);
        mode(Mode::Off);
        let mut st = start(c);
        let mut log = vec![];
        for (i, op) in c.ops.iter().enumerate() {
            if *nest {
                // (the state is moved in and out: a clone kept there is one more user of the elements)
                if !c.dcg {
                    PRESENT.with(|p| *p.borrow_mut() = Some(st.clone()));
                }
                mode(Mode::Nest(1 + calls[i] / 12, c.cfg[1] ^ i as u64));
            }
            NESTED.with(|n| n.set(0));
            let x = catch_unwind(AssertUnwindSafe(|| step(&st, i, op, c.dcg)));
            if !*nest {
                calls.push(CALLS.with(|c| c.get()));
            }
            mode(Mode::Off);
            let inner = NESTED.with(|n| n.replace(0));
            if *nest {
                stats.add("inner uses of collections", inner);
                if inner > 0 {
                    stats.add(&format!("{}: with inner uses", OPS[op.0 as usize]), 1);
                }
                if let Some(t) = TROUBLE.with(|t| t.borrow_mut().take()) {
                    return Err(format!("while {} ({:?}, step {}) user code uses collections: {}", OPS[op.0 as usize], op, i, t));
                }
            }
            let (next, h) = match x {
                Ok(x) => x,
                Err(_) => {
                    return Err(format!(
                        "{} ({:?}, step {}) panics{}: {}",
                        OPS[op.0 as usize], op, i, if *nest { " when user code uses collections" } else { "" }, last_panic()
                    ))
                }
            };
            st = next;
            log.push((h, read(&st)));
        }
        runs.push(log);
    }
    PRESENT.with(|p| *p.borrow_mut() = None);
    for (i, (a, b)) in runs[0].iter().zip(runs[1].iter()).enumerate() {
        if a != b {
            return Err(format!(
                "{} ({:?}, step {}) gives another {} when user code uses collections",
                OPS[c.ops[i].0 as usize], c.ops[i], i, if a.0 != b.0 { "result" } else { "value" }
            ));
        }
    }
    stats.seen("states reached", &runs[0]);
    stats.note = format!("{} steps with inner uses, {} engine", c.ops.len(), if c.dcg { "incremental" } else { "naive" });
    Ok(())
}
/// user code fails at some of its calls in every step; then the step is made again
fn fails(c: &Case<NOp>, stats: &mut Stats) -> Result<(), String> {
    let mut rng = Rng::new(c.cfg[1]);
    let mut kept: Vec<(St, u64)> = vec![];
    let mut st = start(c);
    let mut now = read(&st);
    for (i, op) in c.ops.iter().enumerate() {
        mode(Mode::Off);
        let (next, h) = step(&st, i, op, false);
        let calls = CALLS.with(|c| c.get());
        let after = read(&next);
        // failures may come one after another: at times all calls of the step are tried, with no success between
        // or one call fails again and again
        let many = rng.chance(1, 8) && calls > 0;
        let same = if rng.chance(1, 2) { Some(1 + rng.below(calls.max(1) as usize) as u64) } else { None };
        let tries = if many && same.is_some() { 50 } else if many { 1 + calls.min(80) } else { 2 };
        for j in 0..tries {
            if calls == 0 {
                break;
            }
            let k = if many && (j + 1 < tries || same.is_some()) { same.unwrap_or_else(|| calls - j) } else { 1 + rng.below(calls as usize) as u64 };
            mode(Mode::Panic(k));
            let x = catch_unwind(AssertUnwindSafe(|| step(&st, i, op, false)));
            mode(Mode::Off);
            match x {
                Ok(_) => {
                    // e.g. an allocation's spare room decided how often something was called
                    stats.add("calls not reached again", 1);
                }
                Err(p) => {
                    let ours = p.downcast_ref::<&str>().map_or(false, |s| *s == "user code fails");
                    if !ours {
                        return Err(format!("{} ({:?}, step {}) panics otherwise when user code does: {}", OPS[op.0 as usize], op, i, last_panic()));
                    }
                    stats.add("failures of user code", 1);
                    stats.add(&format!("{}: failures", OPS[op.0 as usize]), 1);
                }
            }
            if many && j + 1 < tries {
                continue;
            }
            let what = |w: &str| format!("after user code failed in its call {} of {} while {} ({:?}, step {}): {}", k, calls, OPS[op.0 as usize], op, i, w);
            if read(&st) != now {
                return Err(what("the values at hand have changed"));
            }
            for (v, d) in kept.iter() {
                if read(v) != *d {
                    return Err(what("a kept version has changed"));
                }
            }
            if read(&next) != after {
                return Err(what("the version computed before has changed"));
            }
            let again = catch_unwind(AssertUnwindSafe(|| step(&st, i, op, false)));
            match again {
                Err(_) => return Err(what(&format!("the same step without failure panics: {}", last_panic()))),
                Ok((n, g)) => {
                    if g != h || read(&n) != after {
                        return Err(what("the same step without failure gives another result"));
                    }
                }
            }
        }
        if rng.chance(1, 3) {
            kept.push((st.clone(), now));
            if kept.len() > 3 {
                kept.remove(0);
            }
        }
        st = next;
        now = after;
        stats.seen("states reached", &now);
    }
    stats.note = format!("{} steps with failing user code", c.ops.len());
    Ok(())
}
