//! The eval crate's actions and test drivers: a recording collection type stands in for the
//! data structure, so every call, argument, namespace and returned time is observed; a
//! reference driver making the calls directly is the oracle. Real structures run too.
use crate::common::*;
use crate::model::*;
use adapton::engine::*;
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::examples::iraztree_depth_4;
use eval::primitives::*;
use eval::{test_build, test_seq};
use iodyn::archive_stack::AStack;
use iodyn::IRazTree;
use rand::{Rng as RRng, SeedableRng, StdRng};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;
use time::Duration;

type ON = Option<Name>;

// ------------------------------------------------------------------ recording

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// primitive, its parameters, the version of the data, draw from its generator, namespace, returned time
    Call(&'static str, Vec<u64>, u64, u32, String, i64),
    /// user function, arguments, namespace
    Fun(&'static str, String, String),
    /// what a computation of the driver delivered: times, result
    Out(Vec<i64>, String),
}
thread_local!(static LOG: RefCell<(Vec<Ev>, i64)> = RefCell::new((vec![], 0)));
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().0.push(e))
}
fn take_log() -> Vec<Ev> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.1 = 0;
        std::mem::replace(&mut l.0, vec![])
    })
}
/// the namespace in force, as far as the engine shows it
fn place() -> String {
    format!("{:?}", cell(nm("probe"), 0u32)).chars().take(400).collect()
}
fn called(what: &'static str, args: Vec<u64>, ver: u64, rng: &mut StdRng) -> Duration {
    let t = LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.1 += 1;
        l.1 * 1000 + (ver % 997) as i64
    });
    let draw: u32 = rng.gen();
    if draw % 16 == 0 {
        // long enough to see whether the driver's own clock covers the call
        let s = std::time::Instant::now();
        while s.elapsed() < std::time::Duration::from_micros(30) {}
        SPENT.with(|x| *x.borrow_mut() += 1);
    }
    log(Ev::Call(what, args, ver, draw, place(), t));
    Duration::nanoseconds(t)
}
thread_local!(static SPENT: RefCell<u32> = RefCell::new(0));
fn fun<A: Debug>(what: &'static str, a: A) {
    log(Ev::Fun(what, format!("{:?}", a), place()));
}

/// the stand-in collection
#[derive(Clone, Debug, PartialEq)]
struct Fake {
    ver: u64,
    xs: Vec<u32>,
}
fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).rotate_left(23).wrapping_mul(0xd1342543de82ef95) ^ b
}
fn coord_mark(c: &StdRng) -> u64 {
    let mut c = c.clone();
    c.gen::<u32>() as u64
}
impl Fake {
    fn made(what: &'static str, mut args: Vec<u64>, n: usize, coord: &StdRng, rng: &mut StdRng) -> (Duration, Fake) {
        args.push(coord_mark(coord));
        let ver = args.iter().fold(7, |a, b| mix(a, *b));
        let t = called(what, args, ver, rng);
        (t, Fake { ver: ver, xs: (0..(n % 7) as u32).map(|i| i + (ver % 5) as u32).collect() })
    }
    fn edited(self, what: &'static str, b: usize, rng: &mut StdRng) -> (Duration, Fake) {
        let t = called(what, vec![b as u64], self.ver, rng);
        let mut xs = self.xs;
        for i in 0..b % 4 {
            let p = (self.ver as usize >> 3) % (xs.len() + 1);
            xs.insert(p, (b + i) as u32 % 50);
        }
        xs.truncate(9);
        (t, Fake { ver: mix(self.ver, what.len() as u64 * 1000 + b as u64), xs: xs })
    }
}
impl CreateEmpty<StdRng> for Fake {
    fn inc_empty(dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> (Duration, Self) {
        Fake::made("inc_empty", vec![dg as u64, ng as u64], 0, coord, rng)
    }
}
impl CreateFrom<Vec<u32>, StdRng> for Fake {
    fn inc_from(data: Vec<u32>, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> (Duration, Self) {
        let d = data.iter().fold(3, |a, b| mix(a, *b as u64));
        Fake::made("inc_from", vec![d, dg as u64, ng as u64], data.len(), coord, rng)
    }
}
impl CreateInc<StdRng> for Fake {
    fn inc_init(size: usize, dg: usize, ng: usize, coord: &StdRng, rng: &mut StdRng) -> (Duration, Self) {
        Fake::made("inc_init", vec![size as u64, dg as u64, ng as u64], size, coord, rng)
    }
}
impl EditExtend for Fake {
    fn extend(self, b: usize, rng: &mut StdRng) -> (Duration, Self) {
        self.edited("extend", b, rng)
    }
}
impl EditAppend for Fake {
    fn append(self, b: usize, rng: &mut StdRng) -> (Duration, Self) {
        self.edited("append", b, rng)
    }
}
impl EditInsert for Fake {
    fn insert(self, b: usize, rng: &mut StdRng) -> (Duration, Self) {
        self.edited("insert", b, rng)
    }
}
impl CompMax for Fake {
    type Target = Option<u32>;
    fn comp_max(&self, rng: &mut StdRng) -> (Duration, Option<u32>) {
        (called("comp_max", vec![], self.ver, rng), self.xs.iter().cloned().max())
    }
}
impl CompRev for Fake {
    type Target = Vec<u32>;
    fn comp_rev(&self, rng: &mut StdRng) -> (Duration, Vec<u32>) {
        (called("comp_rev", vec![], self.ver, rng), self.xs.iter().cloned().rev().collect())
    }
}
impl<O> CompNative<O> for Fake {
    type Input = Vec<u32>;
    fn comp_native<F: Fn(&Vec<u32>) -> O>(&self, f: Rc<F>, rng: &mut StdRng) -> (Duration, O) {
        (called("comp_native", vec![], self.ver, rng), f(&self.xs))
    }
}
/// a name and a level that come with the i-th item
fn lv(i: usize) -> (u32, ON) {
    (1 + (i as u32 * 7) % 5, if i % 2 == 0 { Some(name_of_usize(i)) } else { None })
}
impl<O, I: Fn(&u32) -> O, B: Fn(O, O) -> O> CompTreeFold<u32, O, I, B> for Fake {
    type Target = Option<O>;
    fn comp_tfold(&self, init: Rc<I>, bin: Rc<B>, rng: &mut StdRng) -> (Duration, Option<O>) {
        let t = called("comp_tfold", vec![], self.ver, rng);
        let mut a = None;
        for x in &self.xs {
            let v = init(x);
            a = Some(match a {
                None => v,
                Some(a) => bin(a, v),
            });
        }
        (t, a)
    }
}
impl<O, I: Fn(&u32) -> O, B: Fn(O, O) -> O, M: Fn(O, u32, ON, O) -> O> CompTreeFoldNL<u32, O, I, B, M> for Fake {
    type Target = Option<O>;
    fn comp_tfoldnl(&self, init: Rc<I>, bin: Rc<B>, binnl: Rc<M>, rng: &mut StdRng) -> (Duration, Option<O>) {
        let t = called("comp_tfoldnl", vec![], self.ver, rng);
        let mut a = None;
        for (i, x) in self.xs.iter().enumerate() {
            let v = init(x);
            a = Some(match a {
                None => v,
                Some(a) if i % 2 == 1 => bin(a, v),
                Some(a) => binnl(a, lv(i).0, lv(i).1, v),
            });
        }
        (t, a)
    }
}
impl<O, I: Fn(&Vec<u32>) -> O, B: Fn(O, u32, ON, O) -> O> CompTreeFoldG<u32, O, I, B> for Fake {
    type Target = Option<O>;
    fn comp_tfoldg(&self, init: Rc<I>, bin: Rc<B>, rng: &mut StdRng) -> (Duration, Option<O>) {
        let t = called("comp_tfoldg", vec![], self.ver, rng);
        let mut a = None;
        for (i, x) in self.xs.chunks(2).enumerate() {
            let v = init(&x.to_vec());
            a = Some(match a {
                None => v,
                Some(a) => bin(a, lv(i).0, lv(i).1, v),
            });
        }
        (t, a)
    }
}
impl<O, F: Fn(&u32) -> O> CompMap<u32, O, F> for Fake {
    type Target = Vec<O>;
    fn comp_map(&self, f: Rc<F>, rng: &mut StdRng) -> (Duration, Vec<O>) {
        (called("comp_map", vec![], self.ver, rng), self.xs.iter().map(|x| f(x)).collect())
    }
}
impl<O, F: Fn(O, &u32) -> O> CompFold<u32, O, F> for Fake {
    type Target = O;
    fn comp_fold(&self, a: O, f: Rc<F>, rng: &mut StdRng) -> (Duration, O) {
        (called("comp_fold", vec![], self.ver, rng), self.xs.iter().fold(a, |a, x| f(a, x)))
    }
}
impl<O, F: Fn(O, &u32) -> O, N: Fn(O, (u32, ON)) -> O> CompFoldMeta<u32, O, (u32, ON), F, N> for Fake {
    type Target = O;
    fn comp_fold_meta(&self, a: O, b: Rc<F>, m: Rc<N>, rng: &mut StdRng) -> (Duration, O) {
        let t = called("comp_fold_meta", vec![], self.ver, rng);
        let mut a = a;
        for (i, x) in self.xs.iter().enumerate() {
            a = b(a, x);
            if i % 3 == 2 {
                a = m(a, lv(i));
            }
        }
        (t, a)
    }
}
impl<O, F: Fn(O, &u32) -> O, FB: Fn(O, ON) -> O, N: Fn(O, (u32, ON)) -> O> CompFoldArchive<u32, O, (u32, ON), F, FB, N> for Fake {
    type Target = O;
    fn comp_fold_archive(&self, a: O, b: Rc<F>, fb: Rc<FB>, m: Rc<N>, rng: &mut StdRng) -> (Duration, O) {
        let t = called("comp_fold_archive", vec![], self.ver, rng);
        let mut a = a;
        for (i, x) in self.xs.iter().enumerate() {
            a = b(a, x);
            if i % 3 == 2 {
                a = fb(a, lv(i).1);
                a = m(a, lv(i));
            }
        }
        (t, fb(a, None))
    }
}

// ------------------------------------------------------------------ user functions

fn f_native(v: &Vec<u32>) -> u64 {
    fun("native", v);
    v.iter().fold(1, |a, x| mix(a, *x as u64))
}
fn f_init(x: &u32) -> u64 {
    fun("init", x);
    mix(5, *x as u64)
}
fn f_ginit(x: &Vec<u32>) -> u64 {
    fun("ginit", x);
    x.iter().fold(5, |a, b| mix(a, *b as u64))
}
fn f_bin(a: u64, b: u64) -> u64 {
    fun("bin", (a, b));
    mix(a, b)
}
fn f_binnl(a: u64, l: u32, n: ON, b: u64) -> u64 {
    fun("binnl", (a, l, n, b));
    mix(mix(a, b), l as u64)
}
fn f_map(x: &u32) -> u64 {
    fun("map", x);
    mix(11, *x as u64)
}
fn f_run(a: u64, x: &u32) -> u64 {
    fun("run", (a, x));
    mix(a, *x as u64 + 1)
}
fn f_meta(a: u64, m: (u32, ON)) -> u64 {
    fun("meta", (a, &m));
    mix(a, m.0 as u64 + 77)
}
fn f_rfin(a: u64, n: ON) -> u64 {
    fun("run_fin", (a, &n));
    mix(a, 999 + n.is_some() as u64)
}
fn f_fin(a: u64) -> Fake {
    fun("finish", a);
    Fake { ver: a, xs: (0..a % 6).map(|i| (i * 3) as u32).collect() }
}

// ------------------------------------------------------------------ test cases

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum EOp {
    One,
    Append(u16),
    Insert(u16),
    Extend(u16),
}
/// runs the eval crate's editors one after the other
struct Edits(Vec<EOp>, usize);
impl<D: EditAppend + EditInsert + EditExtend> Editor<Duration, D> for Edits {
    fn edit(&mut self, d: D, rng: &mut StdRng) -> (Duration, D) {
        let op = &self.0[self.1 % self.0.len()];
        self.1 += 1;
        match op {
            EOp::One => SingleAppend.edit(d, rng),
            EOp::Append(b) => BatchAppend(*b as usize).edit(d, rng),
            EOp::Insert(b) => BatchInsert(*b as usize).edit(d, rng),
            EOp::Extend(b) => BatchExtend(*b as usize).edit(d, rng),
        }
    }
}
fn direct_edit(d: Fake, op: &EOp, rng: &mut StdRng) -> (Duration, Fake) {
    match op {
        EOp::One => d.append(1, rng),
        EOp::Append(b) => d.append(*b as usize, rng),
        EOp::Insert(b) => d.insert(*b as usize, rng),
        EOp::Extend(b) => d.extend(*b as usize, rng),
    }
}
/// records what the computation inside delivers
struct Spy<U>(U);
fn ns_of(d: &Duration) -> i64 {
    d.num_nanoseconds().unwrap_or(-1)
}
impl<U: Computor<(Vec<Duration>, O), D>, O: Debug, D> Computor<(Vec<Duration>, O), D> for Spy<U> {
    fn compute(&mut self, d: &D, rng: &mut StdRng) -> (Vec<Duration>, O) {
        let (t, o) = self.0.compute(d, rng);
        log(Ev::Out(t.iter().map(ns_of).collect(), format!("{:?}", o)));
        (t, o)
    }
}
/// the (time, result) form as the driver's form
struct One<U>(U);
impl<U: Computor<(Duration, O), D>, O, D> Computor<(Vec<Duration>, O), D> for One<U> {
    fn compute(&mut self, d: &D, rng: &mut StdRng) -> (Vec<Duration>, O) {
        let (t, o) = self.0.compute(d, rng);
        (vec![t], o)
    }
}
#[derive(Clone)]
enum Make {
    Empty(IncrementalEmpty<StdRng>),
    From(IncrementalFrom<Vec<u32>, StdRng>),
    Init(IncrementalInit<StdRng>),
}
impl Creator<Duration, Fake> for Make {
    fn create(&mut self, rng: &mut StdRng) -> (Duration, Fake) {
        match self {
            Make::Empty(c) => c.create(rng),
            Make::From(c) => c.create(rng),
            Make::Init(c) => c.create(rng),
        }
    }
}

const KINDS: u64 = 25;
pub struct ActionProp;
impl Prop for ActionProp {
    type Op = EOp;
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 30_000,
            Tier::Thorough => 600_000,
        }
    }
    fn gen(&self, rng: &mut Rng, idx: u64, _t: Tier) -> Case<EOp> {
        // 0..KINDS: drivers over the stand-in; then BuildTest, real structures, the example
        let kind = match rng.below(12) {
            0 => KINDS,
            1 => KINDS + 1,
            2 if rng.chance(1, 6) => KINDS + 2,
            _ => rng.below(KINDS as usize) as u64,
        };
        let mut v = vec![];
        let n = if rng.chance(1, 12) { 0 } else { rng.range(1, 9) };
        for _ in 0..n {
            let b = if rng.chance(1, 5) { rng.range(0, 3) } else { rng.range(0, 70) } as u16;
            v.push(match rng.below(4) {
                0 => EOp::One,
                1 => EOp::Append(b),
                2 => EOp::Insert(b),
                _ => EOp::Extend(b),
            });
        }
        let r = |rng: &mut Rng, a, b| rng.range(a, b) as u64;
        Case {
            dcg: idx % 3 != 0,
            cfg: vec![kind, rng.below(3) as u64, r(rng, 0, 90), r(rng, 1, 9), r(rng, 1, 4), rng.below(1 << 30) as u64, rng.below(1 << 30) as u64, r(rng, 0, 7)],
            ops: v,
        }
    }
    fn run(&self, c: &Case<EOp>, st: &mut Stats) -> Result<(), String> {
        take_log();
        match c.cfg[0] {
            k if k < KINDS => fake_driver(k, c, st),
            k if k == KINDS => build_test(c, st),
            k if k == KINDS + 1 => real_driver(c, st),
            _ => example(st),
        }
    }
}

fn maker(c: &Case<EOp>) -> (Make, StdRng) {
    let coord = StdRng::from_seed(&[c.cfg[5] as usize]);
    let (size, dg, ng) = (c.cfg[2] as usize, c.cfg[3] as usize, c.cfg[4] as usize);
    let m = match c.cfg[1] {
        0 => Make::Empty(IncrementalEmpty { datagauge: dg, namegauge: ng, coord: coord.clone() }),
        1 => Make::From(IncrementalFrom { data: (0..size as u32).collect(), datagauge: dg, namegauge: ng, coord: coord.clone() }),
        _ => Make::Init(IncrementalInit { size: size, datagauge: dg, namegauge: ng, coord: coord.clone() }),
    };
    (m, coord)
}
fn direct_make(c: &Case<EOp>, coord: &StdRng, rng: &mut StdRng) -> (Duration, Fake) {
    let (size, dg, ng) = (c.cfg[2] as usize, c.cfg[3] as usize, c.cfg[4] as usize);
    match c.cfg[1] {
        0 => Fake::inc_empty(dg, ng, coord, rng),
        1 => Fake::inc_from((0..size as u32).collect(), dg, ng, coord, rng),
        _ => Fake::inc_init(size, dg, ng, coord, rng),
    }
}
/// what the driver is to do, called directly
fn reference<F: FnMut(&Fake, &mut StdRng) -> Vec<i64>>(c: &Case<EOp>, coord: &StdRng, mut comp: F) -> (Vec<Ev>, Vec<i64>, Vec<Vec<i64>>) {
    let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
    let (mut edits, mut comps) = (vec![], vec![]);
    let (t, mut d) = direct_make(c, coord, &mut rng);
    edits.push(ns_of(&t));
    comps.push(comp(&d, &mut rng));
    for op in &c.ops {
        let (t, d2) = direct_edit(d, op, &mut rng);
        d = d2;
        edits.push(ns_of(&t));
        comps.push(comp(&d, &mut rng));
    }
    (take_log(), edits, comps)
}
fn agree(what: &str, got: Vec<Ev>, want: Vec<Ev>, st: &mut Stats) -> Result<(), String> {
    st.add("recorded events compared", want.len() as u64);
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{}: {} recorded events, expected {}; event {} is {}, expected {}",
        what,
        got.len(),
        want.len(),
        k,
        trunc(&format!("{:?}", got.get(k)), 500),
        trunc(&format!("{:?}", want.get(k)), 500)
    ))
}
fn times(what: &str, got: &[Duration], want: &[i64]) -> Result<(), String> {
    let g: Vec<i64> = got.iter().map(ns_of).collect();
    if g != want {
        return Err(format!("{} reported as {:?}, the calls returned {:?}", what, g, want));
    }
    Ok(())
}
/// the driver's own clock covers what it measures
fn full(what: &str, got: &[Duration], n: usize) -> Result<(), String> {
    if got.len() != n {
        return Err(format!("{}: {} entries for {} steps", what, got.len(), n));
    }
    if let Some(d) = got.iter().find(|d| ns_of(d) < 0) {
        return Err(format!("{}: a negative time {:?}", what, d));
    }
    Ok(())
}

fn fake_driver(kind: u64, c: &Case<EOp>, st: &mut Stats) -> Result<(), String> {
    let (make, coord) = maker(c);
    let name = nm("act");
    let n = c.ops.len() + 1;
    let inner = name_fork(name.clone()).0;
    macro_rules! single {
        ($what:expr, $comp:expr, |$d:ident, $r:ident| $direct:expr) => {{
            let what = format!("{} in a single-result test", $what);
            let mut t = test_seq::EditComputeSequence { init: make.clone(), edit: Edits(c.ops.clone(), 0), comp: $comp, changes: c.ops.len() };
            SPENT.with(|x| *x.borrow_mut() = 0);
            let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
            let res: test_seq::TestResult<Fake> = t.test(&mut rng);
            let spent = SPENT.with(|x| *x.borrow());
            let got = take_log();
            let (want, edits, comps) = reference(c, &coord, |$d, $r| vec![ns_of(&$direct)]);
            let comps: Vec<i64> = comps.into_iter().flatten().collect();
            agree(&what, got, want, st)?;
            times(&format!("{}: edits", what), &res.edits, &edits)?;
            times(&format!("{}: computations", what), &res.computes, &comps)?;
            full(&format!("{}: full edits", what), &res.full_edits, n)?;
            full(&format!("{}: full computations", what), &res.full_computes, n)?;
            let sum: i64 = res.full_edits.iter().chain(&res.full_computes).map(ns_of).sum();
            if sum < spent as i64 * 30_000 {
                return Err(format!("{}: the full times add up to {} ns though the calls took at least {} ns", what, sum, spent as i64 * 30_000));
            }
        }};
    }
    macro_rules! multi {
        ($what:expr, $out:ty, $comp:expr, |$d:ident, $r:ident| $direct:expr) => {{
            let what = format!("{} in a multi-step test", $what);
            let mut t = test_seq::EditComputeSequence { init: make.clone(), edit: Edits(c.ops.clone(), 0), comp: Spy($comp), changes: c.ops.len() };
            SPENT.with(|x| *x.borrow_mut() = 0);
            let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
            let res: test_seq::TestMResult<Fake, $out> = t.test(&mut rng);
            let spent = SPENT.with(|x| *x.borrow());
            let got = take_log();
            let (want, edits, comps) = reference(c, &coord, |$d, $r| {
                let (ts, o): (Vec<Duration>, $out) = $direct;
                let ts: Vec<i64> = ts.iter().map(ns_of).collect();
                log(Ev::Out(ts.clone(), format!("{:?}", o)));
                ts
            });
            agree(&what, got, want, st)?;
            times(&format!("{}: edits", what), &res.edits, &edits)?;
            let g: Vec<Vec<i64>> = res.computes.iter().map(|v| v.iter().map(ns_of).collect()).collect();
            if g != comps {
                return Err(format!("{}: computations reported as {:?}, the calls returned {:?}", what, g, comps));
            }
            full(&format!("{}: full edits", what), &res.full_edits, n)?;
            full(&format!("{}: full computations", what), &res.full_computes, n)?;
            let sum: i64 = res.full_edits.iter().chain(&res.full_computes).map(ns_of).sum();
            if sum < spent as i64 * 30_000 {
                return Err(format!("{}: the full times add up to {} ns though the calls took at least {} ns", what, sum, spent as i64 * 30_000));
            }
        }};
    }
    fn v1<O>(x: (Duration, O)) -> (Vec<Duration>, O) {
        (vec![x.0], x.1)
    }
    // the direct forms used more than once
    let fold_meta = |d: &Fake, r: &mut StdRng| {
        let (t, x) = ns(name.clone(), || d.comp_fold_meta(3, Rc::new(f_run), Rc::new(f_meta), r));
        (t, ns(inner.clone(), || f_fin(x)))
    };
    let fold_arch = |d: &Fake, r: &mut StdRng| {
        let (t, x) = ns(name.clone(), || d.comp_fold_archive(3, Rc::new(f_run), Rc::new(f_rfin), Rc::new(f_meta), r));
        (t, ns(inner.clone(), || f_fin(x)))
    };
    let ffold = |d: &Fake, r: &mut StdRng| {
        let (t, x) = d.comp_fold(3, Rc::new(f_run), r);
        (t, f_fin(x))
    };
    let mf = || MFolder::new(name.clone(), 3u64, f_run, f_meta, f_fin);
    let hf = || HFolder::new(name.clone(), 3u64, f_run, f_rfin, f_meta, f_fin);
    let ff = || FFolder::new(3u64, f_run, f_fin);
    match kind {
        0 => single!("FindMax", FindMax, |d, r| d.comp_max(r).0),
        1 => multi!("FindMax", Option<u32>, One(FindMax), |d, r| v1(d.comp_max(r))),
        2 => single!("Native", Native::new(f_native), |d, r| d.comp_native(Rc::new(f_native), r).0),
        3 => single!("Reverse", Reverse, |d, r| d.comp_rev(r).0),
        4 => single!("TreeFold", TreeFold::new(f_init, f_bin), |d, r| d.comp_tfold(Rc::new(f_init), Rc::new(f_bin), r).0),
        5 => single!("TreeFoldNL", TreeFoldNL::new(f_init, f_bin, f_binnl), |d, r| d
            .comp_tfoldnl(Rc::new(f_init), Rc::new(f_bin), Rc::new(f_binnl), r)
            .0),
        6 => single!("TreeFoldG", TreeFoldG::new(f_ginit, f_binnl), |d, r| d.comp_tfoldg(Rc::new(f_ginit), Rc::new(f_binnl), r).0),
        7 => single!("Mapper", Mapper::new(name.clone(), f_map), |d, r| ns(name.clone(), || d.comp_map(Rc::new(f_map), r)).0),
        8 => single!("Folder", Folder::new(3u64, f_run), |d, r| d.comp_fold(3u64, Rc::new(f_run), r).0),
        9 => multi!("Folder (one time)", u64, One(Folder::new(3u64, f_run)), |d, r| v1(d.comp_fold(3u64, Rc::new(f_run), r))),
        10 => multi!("Folder", u64, Folder::new(3u64, f_run), |d, r| v1(d.comp_fold(3u64, Rc::new(f_run), r))),
        11 => single!("FFolder", ff(), |d, r| ffold(d, r).0),
        12 => multi!("FFolder", Fake, ff(), |d, r| v1(ffold(d, r))),
        13 => single!("MFolder", mf(), |d, r| fold_meta(d, r).0),
        14 => multi!("MFolder", Fake, mf(), |d, r| v1(fold_meta(d, r))),
        15 => single!("HFolder", hf(), |d, r| fold_arch(d, r).0),
        16 => multi!("HFolder", Fake, hf(), |d, r| v1(fold_arch(d, r))),
        17 => multi!("Compute2(MFolder, FFolder)", Fake, Compute2::new(mf(), ff()), |d, r| {
            let (t1, x) = fold_meta(d, r);
            let (t2, y) = ffold(&x, r);
            (vec![t1, t2], y)
        }),
        18 => multi!("Compute2(Compute2(HFolder, MFolder), Folder)", u64, Compute2::new(Compute2::new(hf(), mf()), Folder::new(9u64, f_run)), |d, r| {
            let (t1, x) = fold_arch(d, r);
            let (t2, y) = fold_meta(&x, r);
            let (t3, z) = y.comp_fold(9u64, Rc::new(f_run), r);
            (vec![t1, t2, t3], z)
        }),
        19 => multi!("Compute2(FFolder, Compute2(HFolder, FFolder))", Fake, Compute2::new(ff(), Compute2::new(hf(), ff())), |d, r| {
            let (t1, x) = ffold(d, r);
            let (t2, y) = fold_arch(&x, r);
            let (t3, z) = ffold(&y, r);
            (vec![t1, t2, t3], z)
        }),
        20 => multi!("Compute2(FFolder, Proj0)", u64, Compute2::new(FFolder::new(3u64, f_run, |a: u64| (a, "unused")), Proj0), |d, r| {
            let (t1, x) = d.comp_fold(3, Rc::new(f_run), r);
            (vec![t1], x)
        }),
        21 => multi!(
            "five stages nested to the right",
            u64,
            Compute2::new(ff(), Compute2::new(mf(), Compute2::new(hf(), Compute2::new(ff(), Folder::new(9u64, f_run))))),
            |d, r| {
                let (t1, x) = ffold(d, r);
                let (t2, y) = fold_meta(&x, r);
                let (t3, z) = fold_arch(&y, r);
                let (t4, z) = ffold(&z, r);
                let (t5, z) = z.comp_fold(9u64, Rc::new(f_run), r);
                (vec![t1, t2, t3, t4, t5], z)
            }
        ),
        22 => multi!(
            "five stages nested to the left",
            Fake,
            Compute2::new(Compute2::new(Compute2::new(Compute2::new(hf(), ff()), mf()), hf()), ff()),
            |d, r| {
                let (t1, x) = fold_arch(d, r);
                let (t2, y) = ffold(&x, r);
                let (t3, z) = fold_meta(&y, r);
                let (t4, z) = fold_arch(&z, r);
                let (t5, z) = ffold(&z, r);
                (vec![t1, t2, t3, t4, t5], z)
            }
        ),
        23 => multi!(
            "three stages and three stages",
            Fake,
            Compute2::new(Compute2::new(ff(), Compute2::new(ff(), mf())), Compute2::new(Compute2::new(mf(), hf()), ff())),
            |d, r| {
                let (t1, x) = ffold(d, r);
                let (t2, y) = ffold(&x, r);
                let (t3, z) = fold_meta(&y, r);
                let (t4, z) = fold_meta(&z, r);
                let (t5, z) = fold_arch(&z, r);
                let (t6, z) = ffold(&z, r);
                (vec![t1, t2, t3, t4, t5, t6], z)
            }
        ),
        _ => multi!("Compute2(MFolder, Compute2(FFolder, Proj0))", u64, Compute2::new(mf(), Compute2::new(FFolder::new(4u64, f_run, |a: u64| (a, 5u8)), Proj0)), |d, r| {
            let (t1, x) = fold_meta(d, r);
            let (t2, y) = x.comp_fold(4u64, Rc::new(f_run), r);
            (vec![t1, t2], y)
        }),
    }
    st.seen("distinct (action, creator, edit kinds) runs", &(kind, c.cfg[1], c.ops.iter().map(|o| std::mem::discriminant(o)).collect::<Vec<_>>()));
    st.add("driver runs over the recording collection", 1);
    st.nontrivial = c.ops.len() >= 2;
    Ok(())
}

fn build_test(c: &Case<EOp>, st: &mut Stats) -> Result<(), String> {
    // multipliers with exact small powers
    let mult = [1.0f32, 2.0, 3.0, 1.5, 0.5, 2.5, 10.0, 0.0][c.cfg[7] as usize];
    let count = c.ops.len();
    let coord = StdRng::from_seed(&[c.cfg[5] as usize]);
    let (dg, ng, batch) = (c.cfg[3] as usize, c.cfg[4] as usize, c.cfg[2] as usize);
    let mut t = test_build::BuildTest {
        init: IncrementalInit { size: 123_456, datagauge: dg, namegauge: ng, coord: coord.clone() },
        edit: BatchInsert(batch),
        multiplier: mult,
        count: count,
    };
    SPENT.with(|x| *x.borrow_mut() = 0);
    let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
    let res: test_build::TestResult<Fake> = t.test(&mut rng);
    let spent = SPENT.with(|x| *x.borrow());
    let got = take_log();
    let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
    let (mut builds, mut edits) = (vec![], vec![]);
    let mut exact = 1.0f64;
    for _ in 0..count {
        let (t, d) = Fake::inc_init(exact as usize, dg, ng, &coord, &mut rng);
        builds.push(ns_of(&t));
        edits.push(ns_of(&d.insert(batch, &mut rng).0));
        exact *= mult as f64;
    }
    agree("BuildTest", got, take_log(), st)?;
    times("BuildTest: builds", &res.build, &builds)?;
    times("BuildTest: edits", &res.edit, &edits)?;
    full("BuildTest: full builds", &res.build_full, count)?;
    full("BuildTest: full edits", &res.edit_full, count)?;
    let sum: i64 = res.build_full.iter().chain(&res.edit_full).map(ns_of).sum();
    if sum < spent as i64 * 30_000 {
        return Err(format!("BuildTest: the full times add up to {} ns though the calls took at least {} ns", sum, spent as i64 * 30_000));
    }
    st.add("BuildTest runs compared", 1);
    st.nontrivial = count >= 2;
    Ok(())
}

/// Real structures in the multi-step test: every result is checked against the contents
/// the computation was given, and both engines must deliver the same.
fn real_driver(c: &Case<EOp>, st: &mut Stats) -> Result<(), String> {
    let ops: Vec<EOp> = c.ops.iter().map(|o| if let EOp::Extend(b) = o { EOp::Append(*b) } else { o.clone() }).collect();
    let coord = StdRng::from_seed(&[c.cfg[5] as usize]);
    let mk = || IncrementalInit { size: c.cfg[2] as usize + (c.cfg[3] * c.cfg[4]) as usize + 1, datagauge: c.cfg[3] as usize, namegauge: c.cfg[4] as usize, coord: coord.clone() };
    let once = |dcg: bool| -> Result<Vec<Ev>, String> {
        set_engine(dcg);
        take_log();
        let mut rng = StdRng::from_seed(&[c.cfg[6] as usize]);
        let steps = if c.cfg[7] % 2 == 0 {
            let mut t = test_seq::EditComputeSequence { init: mk(), edit: RealEdits(ops.clone(), 0), comp: Watch(pipeline_a(), pipeline_want), changes: ops.len() };
            let r: test_seq::TestMResult<EvalIRaz<u32, StdRng>, AStack<u32, u32>> = t.test(&mut rng);
            r.computes.iter().map(|v| v.len()).collect::<Vec<_>>()
        } else {
            let mut t = test_seq::EditComputeSequence { init: mk(), edit: RealEdits(ops.clone(), 0), comp: Watch(pipeline_a(), pipeline_want), changes: ops.len() };
            let r: test_seq::TestMResult<EvalRazNameIndex<u32, StdRng>, AStack<u32, u32>> = t.test(&mut rng);
            r.computes.iter().map(|v| v.len()).collect::<Vec<_>>()
        };
        if steps != vec![1; ops.len() + 1] {
            return Err(format!("the driver reports {:?} times per computation for {} changes of a single-step computation", steps, ops.len()));
        }
        let l = take_log();
        if let Some(Ev::Out(_, s)) = l.iter().find(|e| matches!(e, Ev::Out(v, _) if v == &vec![-1])) {
            return Err(s.clone());
        }
        Ok(l)
    };
    let a = once(true).map_err(|e| format!("incremental engine: {}", e))?;
    let b = once(false).map_err(|e| format!("naive engine: {}", e))?;
    if c.cfg[7] % 2 == 0 && a != b {
        let k = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
        return Err(format!("result {} is {:?} with the incremental engine and {:?} with the naive one", k, a.get(k), b.get(k)));
    }
    if a.len() != ops.len() + 1 {
        return Err(format!("{} computations for {} changes", a.len(), ops.len()));
    }
    st.add("driver runs over real structures, two engines", 1);
    st.add("results in real driver runs compared", a.len() as u64 * 2);
    st.nontrivial = ops.len() >= 2;
    Ok(())
}
struct RealEdits(Vec<EOp>, usize);
impl<D: EditAppend + EditInsert> Editor<Duration, D> for RealEdits {
    fn edit(&mut self, d: D, rng: &mut StdRng) -> (Duration, D) {
        let op = &self.0[self.1 % self.0.len()];
        self.1 += 1;
        match op {
            EOp::One => SingleAppend.edit(d, rng),
            EOp::Append(b) | EOp::Extend(b) => BatchAppend(*b as usize).edit(d, rng),
            EOp::Insert(b) => BatchInsert(*b as usize).edit(d, rng),
        }
    }
}
type Acc = AStack<u32, u32>;
/// triples the even elements into an archive stack, keeping the archive points
fn pipeline_a() -> MFolder<Acc, u32, (u32, ON), Acc, Acc, fn(Acc, &u32) -> Acc, fn(Acc, (u32, ON)) -> Acc, fn(Acc) -> Acc> {
    fn run(mut a: Acc, e: &u32) -> Acc {
        if e % 2 == 0 {
            a.push(e.wrapping_mul(3));
        }
        a
    }
    fn meta(mut a: Acc, (l, n): (u32, ON)) -> Acc {
        AStack::archive(&mut a, n, l);
        a
    }
    fn done(a: Acc) -> Acc {
        a
    }
    MFolder::new(nm("pipe"), AStack::new(), run, meta, done)
}
fn pipeline_want(es: &[u32]) -> Vec<u32> {
    es.iter().filter(|e| **e % 2 == 0).map(|e| e.wrapping_mul(3)).collect()
}
struct Watch<U>(U, fn(&[u32]) -> Vec<u32>);
impl<U, D> Computor<(Vec<Duration>, Acc), D> for Watch<U>
where
    U: Computor<(Vec<Duration>, Acc), D>,
    D: CompFold<u32, Vec<u32>, fn(Vec<u32>, &u32) -> Vec<u32>, Target = Vec<u32>>,
{
    fn compute(&mut self, d: &D, rng: &mut StdRng) -> (Vec<Duration>, Acc) {
        fn push(mut a: Vec<u32>, e: &u32) -> Vec<u32> {
            a.push(*e);
            a
        }
        let (_, es) = ns(nm("watch"), || d.comp_fold(vec![], Rc::new(push as fn(Vec<u32>, &u32) -> Vec<u32>), &mut StdRng::from_seed(&[1])));
        let (t, o) = self.0.compute(d, rng);
        let mut got = vec![];
        let mut s = o.clone();
        while let Some(x) = s.pop() {
            got.push(x);
        }
        got.reverse();
        let want = (self.1)(&es);
        if got != want {
            log(Ev::Out(vec![-1], format!("a computation over {:?} delivered {:?}, expected {:?}", es, got, want)));
        } else {
            log(Ev::Out(vec![t.len() as i64], format!("{:?} of {:?}", got, es)));
        }
        (t, o)
    }
}

/// the documented example tree: pairs of elements, and the levels in the drawing
fn example(st: &mut Stats) -> Result<(), String> {
    let t: IRazTree<usize> = iraztree_depth_4();
    let log: Vec<Result<usize, u32>> = vec![];
    let names: Rc<RefCell<Vec<Name>>> = Rc::new(RefCell::new(vec![]));
    type L = Vec<Result<usize, u32>>;
    let n2 = names.clone();
    let tt = t.clone();
    let log = ns(nm("ex-toks"), || tt.fold_lr_meta(
        log,
        Rc::new(|mut a: L, e: &usize| {
            a.push(Ok(*e));
            a
        }),
        Rc::new(move |mut a: L, (l, n): (u32, ON)| {
            a.push(Err(l));
            n2.borrow_mut().extend(n);
            a
        }),
    ));
    let mut want = vec![];
    for (i, l) in [1u32, 4, 2, 6, 3, 5, 4, 0].iter().enumerate() {
        want.push(Ok(2 * i + 1));
        want.push(Ok(2 * i + 2));
        if *l > 0 {
            want.push(Err(*l));
        }
    }
    if log != want {
        return Err(format!("the example tree reads {:?}, expected {:?}", log, want));
    }
    let shape = ns(nm("ex-shape"), || t.fold_up_gauged(
        Rc::new(|v: &Vec<usize>| format!("{:?}", v)),
        Rc::new(|l: String, lev: u32, _: ON, r: String| format!("({} {} {})", l, lev, r)),
    ));
    let drawn = "((([1, 2] 1 [3, 4]) 4 ([5, 6] 2 [7, 8])) 6 (([9, 10] 3 [11, 12]) 5 ([13, 14] 4 [15, 16])))";
    if shape.as_ref().map(|s| &s[..]) != Some(drawn) {
        return Err(format!("the example tree has shape {:?}, documented as {}", shape, drawn));
    }
    let mut ns: Vec<Name> = names.borrow().clone();
    let n = ns.len();
    ns.dedup();
    if n != 7 || ns.len() != 7 {
        return Err(format!("the example tree's archive points carry {:?}", names.borrow()));
    }
    st.add("example tree read", 1);
    Ok(())
}
