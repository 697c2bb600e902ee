//! Runner shared by every monitor: seeded case generation, panic capture,
//! per-case engine set-up, shrinking, statistics.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use adapton::engine::{name_of_string, name_of_usize, name_pair, ns, Name};

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// index drawn by weights
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u32 = ws.iter().sum();
        let mut k = self.below(tot as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= *w;
        }
        unreachable!()
    }
    /// geometric level 1..
    pub fn geo_level(&mut self) -> u32 {
        1 + (self.u64() | (1 << 40)).trailing_zeros()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What the monitors actually saw.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    /// the running case calls this when it reached what makes it worth counting
    pub nontrivial: bool,
    pub note: String,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn seen<T: Hash>(&mut self, k: &str, t: &T) {
        let h = hash64(t);
        let s = self.sets.entry(k.to_string()).or_default();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
}

/// A generated execution: engine, parameters, and a (shrinkable) operation list.
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Case<O> {
    pub dcg: bool,
    pub cfg: Vec<u64>,
    pub ops: Vec<O>,
}

pub trait Prop {
    type Op: Clone + Debug + Hash;
    fn cases(&self, tier: Tier) -> u64;
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Case<Self::Op>;
    /// Execute the real code on the case, watched by the oracle.
    fn run(&self, case: &Case<Self::Op>, st: &mut Stats) -> Result<(), String>;
    /// is the generated case worthless when its op list is empty?
    fn shrinkable(&self) -> bool {
        true
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut m = msg;
        if m.len() > 400 {
            let mut k = 400;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
        }
        // the checks the compiler puts around unsafe code end the process: say why
        if m.contains("unsafe precondition") || m.contains("pointer dereference") {
            eprintln!("MEMORY: {} at {}", m, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Err(message) if the body panics
pub fn no_panic<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(format!("{}: panicked: {}", what, last_panic())),
    }
}

pub fn set_engine(dcg: bool) {
    // the replaced engine is dropped here
    if dcg {
        adapton::engine::manage::init_dcg();
    } else {
        adapton::engine::manage::init_naive();
    }
}

pub fn run_case<P: Prop>(p: &P, case: &Case<P::Op>, st: &mut Stats) -> Result<(), String> {
    set_engine(case.dcg);
    let r = match catch_unwind(AssertUnwindSafe(|| p.run(case, st))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    };
    set_engine(false);
    r
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in id.bytes().chain(seed.to_le_bytes()).chain(idx.to_le_bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    Rng::new(h).u64()
}

/// delta debugging over the op list
pub fn shrink<P: Prop>(p: &P, case: &Case<P::Op>, msg: String) -> (Case<P::Op>, String) {
    let mut best = case.clone();
    let mut bmsg = msg;
    if !p.shrinkable() {
        return (best, bmsg);
    }
    let mut budget = 400;
    let start = std::time::Instant::now();
    let mut chunk = (best.ops.len() + 1) / 2;
    while chunk >= 1 && budget > 0 && start.elapsed().as_secs() < 20 {
        let mut i = 0;
        let mut progress = false;
        while i < best.ops.len() && budget > 0 && start.elapsed().as_secs() < 20 {
            let mut cand = best.clone();
            let end = (i + chunk).min(cand.ops.len());
            cand.ops.drain(i..end);
            budget -= 1;
            match run_case(p, &cand, &mut Stats::default()) {
                Err(m) => {
                    best = cand;
                    bmsg = m;
                    progress = true;
                }
                Ok(()) => i += chunk,
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        if chunk > 1 {
            chunk = (chunk + 1) / 2;
        }
    }
    (best, bmsg)
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…[{} bytes]", &s[..k], s.len())
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Opts {
    pub id: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub shards: u64,
    pub secs: f64,
    pub cpu_limit: f64,
    pub status: Option<String>,
    pub out: Option<String>,
    pub only: Option<u64>,
    pub scale: f64,
}

fn cpu_secs() -> f64 {
    // utime+stime of this process in clock ticks (100 Hz on Linux)
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

/// kill the process (exit 77) when one case uses more CPU than any healthy case could
fn watchdog(limit: f64) -> std::sync::Arc<std::sync::atomic::AtomicU64> {
    use std::sync::atomic::{AtomicU64, Ordering};
    let cur = std::sync::Arc::new(AtomicU64::new(0));
    let c = cur.clone();
    if cfg!(miri) {
        return cur; // interpreted runs are bounded from outside
    }
    std::thread::spawn(move || {
        let mut last = 0u64;
        let mut base = cpu_secs();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = c.load(Ordering::Relaxed);
            let cpu = cpu_secs();
            if now != last {
                last = now;
                base = cpu;
            } else if cpu - base > limit {
                eprintln!("WATCHDOG: case used more than {} cpu seconds", limit);
                std::process::exit(77);
            }
        }
    });
    cur
}

/// executions in progress in this process, over all its threads
static ACTIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Read the command line and run: one workload, or several at once (`C01+C12`, `--threads N`),
/// each in its own thread.
pub fn start(dispatch: fn(&Opts) -> i32) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let num = |k: &str, d: f64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let o = Opts {
        id: a.get(1).cloned().unwrap_or_default(),
        seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        shard: num("--shard", 0.0) as u64,
        shards: num("--shards", 1.0) as u64,
        secs: num("--secs", 1e9),
        cpu_limit: num("--cpu-limit", 60.0),
        status: get("--status"),
        out: get("--out"),
        only: get("--only").and_then(|x| x.parse().ok()),
        scale: num("--scale", 1.0),
    };
    let threads = num("--threads", 1.0) as u64;
    let ids: Vec<String> = o.id.split('+').map(|x| x.to_string()).collect();
    let mut hs = vec![];
    for t in 0..threads {
        let mut o = o.clone();
        o.id = ids[t as usize % ids.len()].clone();
        if threads > 1 {
            o.shard = o.shard * threads + t;
            o.shards *= threads;
            o.out = o.out.map(|f| format!("{}.{}", f, t));
            o.status = o.status.map(|f| format!("{}.{}", f, t));
        }
        let h = std::thread::Builder::new()
            .stack_size(if threads > 1 { 1 << 28 } else { 1 << 30 })
            .spawn(move || dispatch(&o))
            .expect("spawn");
        hs.push(h);
    }
    let rc = hs.into_iter().map(|h| h.join().unwrap_or(3)).max().unwrap_or(3);
    std::process::exit(rc)
}

/// Run (a shard of) the property's cases. Returns process exit code.
pub fn drive<P: Prop>(p: &P, o: &Opts) -> i32 {
    install_panic_hook();
    let total = ((p.cases(o.tier) as f64) * o.scale).ceil() as u64;
    let start = std::time::Instant::now();
    let mut st = Stats::default();
    let mut fails: Vec<(u64, String, String, String)> = vec![];
    let mut attempted = 0u64;
    let wd = watchdog(o.cpu_limit);
    let mut status = o.status.as_ref().map(|f| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).expect("status file")
    });
    let idxs: Box<dyn Iterator<Item = u64>> = match o.only {
        Some(i) => Box::new(std::iter::once(i)),
        None => Box::new((0..total).filter({
            let (s, n) = (o.shard, o.shards);
            move |i| i % n == s
        })),
    };
    for idx in idxs {
        if o.only.is_none() && start.elapsed().as_secs_f64() > o.secs {
            break;
        }
        if let Some(f) = status.as_mut() {
            use std::io::{Seek, SeekFrom, Write};
            let _ = f.seek(SeekFrom::Start(0));
            let _ = write!(f, "{:020}\n", idx);
        }
        wd.store(idx + 1, std::sync::atomic::Ordering::Relaxed);
        let mut rng = Rng::new(case_seed(o.seed, &o.id, idx));
        let case = p.gen(&mut rng, idx, o.tier);
        attempted += 1;
        st.nontrivial = false;
        st.note.clear();
        let before = st.samples.len();
        let at_once = 1 + ACTIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if at_once > 1 {
            st.max("executions in progress at once", at_once);
            st.add("executions begun while others were in progress", 1);
        }
        let result = run_case(p, &case, &mut st);
        ACTIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        match result {
            Ok(()) => {
                st.evaluations += 1;
                if st.nontrivial {
                    st.distinct.insert(hash64(&case));
                    if before < 3 && (st.samples.len() < 1 || idx > total / 3 * before as u64) {
                        let s = format!(
                            "case {} engine={} cfg={:?} ops={} observed={}",
                            idx,
                            if case.dcg { "dcg" } else { "naive" },
                            case.cfg,
                            trunc(&format!("{:?}", case.ops), 700),
                            trunc(&st.note, 500)
                        );
                        st.samples.push(s);
                    }
                }
            }
            Err(m) => {
                st.evaluations += 1;
                // confirm: a monitor alarm must reproduce before it is reported
                match run_case(p, &case, &mut Stats::default()) {
                    Ok(()) => {
                        fails.push((idx, format!("NOT REPRODUCED on immediate re-run: {}", m), String::new(), "flaky".into()));
                    }
                    Err(m2) => {
                        let (c2, m3) = shrink(p, &case, m2);
                        let desc = format!(
                            "engine={} cfg={:?} ops={:?}",
                            if c2.dcg { "dcg" } else { "naive" },
                            c2.cfg,
                            c2.ops
                        );
                        fails.push((idx, m3, desc, "real".into()));
                    }
                }
                if fails.len() >= 3 {
                    break;
                }
            }
        }
    }
    // write summary as JSON
    let mut js = String::from("{");
    let _ = write!(js, "\"evaluations\":{},\"attempted\":{},\"total\":{},", st.evaluations, attempted, total);
    let _ = write!(js, "\"wall\":{:.3},", start.elapsed().as_secs_f64());
    let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
    let _ = write!(js, "\"counters\":{{{}}},\"maxima\":{{{}}},", kv(&st.counters), kv(&st.maxima));
    let hs = |s: &HashSet<u64>| s.iter().map(|h| format!("\"{:x}\"", h)).collect::<Vec<_>>().join(",");
    let _ = write!(js, "\"distinct\":[{}],", hs(&st.distinct));
    let _ = write!(
        js,
        "\"sets\":{{{}}},",
        st.sets.iter().map(|(k, s)| format!("{}:[{}]", jstr(k), hs(s))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(js, "\"samples\":[{}],", st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let _ = write!(
        js,
        "\"fails\":[{}]",
        fails
            .iter()
            .map(|(i, m, d, k)| format!("{{\"idx\":{},\"msg\":{},\"case\":{},\"kind\":{}}}", i, jstr(m), jstr(&trunc(d, 6000)), jstr(k)))
            .collect::<Vec<_>>()
            .join(",")
    );
    js.push('}');
    match &o.out {
        Some(f) => std::fs::write(f, js).expect("write summary"),
        None => {
            println!("evaluations={} attempted={} of {} distinct={} wall={:.2}", st.evaluations, attempted, total, st.distinct.len(), start.elapsed().as_secs_f64());
            println!("counters={:?}", st.counters);
            println!("maxima={:?}", st.maxima);
            println!("sets={:?}", st.sets.iter().map(|(k, s)| (k.clone(), s.len())).collect::<Vec<_>>());
            for s in st.samples.iter().filter(|_| std::env::var("MON_SAMPLES").is_ok()) {
                println!("sample: {}", s);
            }
            for (i, m, d, k) in &fails {
                println!("FAIL [{}] case {}: {}\n   {}", k, i, m, d);
            }
        }
    }
    if fails.is_empty() {
        0
    } else {
        1
    }
}
