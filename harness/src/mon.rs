//! Runtime-monitoring harness: drives cases, isolates crashes and hangs,
//! counts what was observed, keeps witnesses, and gives the verdict.
//!
//! Verdicts are three-valued:
//!   exit 0  every observed execution satisfied the oracle (or is a listed finding)
//!   exit 1  a witness was found; `VIOLATION property=.. replay=..` is printed
//!   exit 2  inconclusive (too little observed, harness failure, unreproducible death)
//!
//! The work runs in a child process.  Each worker publishes the case it is on
//! in a shared-memory journal, so that if the child dies (stack overflow,
//! abort, allocation bomb) or stalls, the parent can re-run exactly those cases
//! one by one under a CPU-time limit and turn a reproducible death or a
//! non-returning call into a witness.

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const NARG: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub kind: u16,
    pub n: u16,
    pub a: [u64; NARG],
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        Rng(mix(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(stream.wrapping_add(0x632BE59BD9B4E019))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sym(&mut self) -> f64 {
        self.unit() * 2.0 - 1.0
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// scale a workload size
    pub fn n(self, quick: u64, thorough: u64) -> u64 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What one case let the monitor observe.
pub struct Obs {
    pub nontrivial: bool,
    /// calls into the code under test whose results were judged
    pub calls: u64,
    pub counters: [u64; 24],
    pub want_note: bool,
    pub note: String,
    /// exact signature of the wrong behaviour, for matching known findings
    pub sig: u64,
}
impl Obs {
    pub fn new() -> Obs {
        Obs { nontrivial: false, calls: 0, counters: [0; 24], want_note: false, note: String::new(), sig: 0 }
    }
    pub fn hit(&mut self, i: usize) {
        self.counters[i] += 1;
    }
    pub fn add(&mut self, i: usize, n: u64) {
        self.counters[i] += n;
    }
}

pub type Verdict = Result<(), String>;

pub trait Check: Sync {
    const ID: &'static str;
    /// names of the case kinds (index = Case::kind)
    const KINDS: &'static [&'static str];
    /// names of the observation counters
    const COUNTERS: &'static [&'static str];
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str];
    /// counters that must be non-zero for the run to be conclusive
    const REQUIRED: &'static [usize] = &[];

    /// Evaluate the oracle on one case.
    fn run(&self, c: &Case, o: &mut Obs) -> Verdict;
    fn chunks(&self, tier: Tier) -> usize;
    /// Generate the cases of one chunk.
    fn chunk(&self, i: usize, ex: &mut Exec<Self>)
    where
        Self: Sized;
    /// Extra monitors that need the whole run (after all chunks).
    fn finish(&self, _tier: Tier, _seed: u64) -> Verdict {
        Ok(())
    }
    /// Extra members for the evidence file: `"name": json`
    fn extra(&self) -> Vec<(String, String)> {
        vec![]
    }
    fn exhaustive_note(&self) -> &'static str {
        ""
    }
}

const SLOT: usize = 128;
const MAXW: usize = 64;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

fn limit(res: i32, v: u64) {
    // sanitizer builds reserve terabytes of address space for shadow memory
    if res == RLIMIT_AS && std::env::var_os("H3MON_SANITIZER").is_some() {
        return;
    }
    let l = [v, v];
    unsafe {
        setrlimit(res, &l);
    }
}

struct Journal {
    base: *mut u8,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
impl Journal {
    /// private memory, for runs without a supervising parent
    fn heap() -> Journal {
        let v: Vec<u64> = vec![0; SLOT * MAXW / 8];
        Journal { base: Vec::leak(v).as_mut_ptr() as *mut u8 }
    }
    fn open(p: &Path) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(p)
            .expect("journal");
        f.set_len((SLOT * MAXW) as u64).unwrap();
        let base = unsafe { mmap(std::ptr::null_mut(), SLOT * MAXW, 3, 1, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "mmap journal");
        Journal { base }
    }
    fn slot(&self, w: usize) -> &[AtomicU64; SLOT / 8] {
        // page-aligned, zero-initialised, mapped for the life of the process
        unsafe { &*(self.base.add(w * SLOT) as *const [AtomicU64; SLOT / 8]) }
    }
    /// slot word 0 odd = a case is in flight
    fn put(&self, w: usize, c: &Case) {
        let s = self.slot(w);
        s[1].store(c.kind as u64 | (c.n as u64) << 16, Relaxed);
        for i in 0..NARG {
            s[2 + i].store(c.a[i], Relaxed);
        }
        s[0].store(s[0].load(Relaxed) | 1, Release);
    }
    fn done(&self, w: usize) {
        let s = self.slot(w);
        s[0].store((s[0].load(Relaxed) | 1).wrapping_add(1), Release);
    }
    fn seq(&self, w: usize) -> u64 {
        self.slot(w)[0].load(Acquire)
    }
    fn get(&self, w: usize) -> Option<Case> {
        let s = self.slot(w);
        if s[0].load(Acquire) & 1 == 0 {
            return None;
        }
        let k = s[1].load(Relaxed);
        let mut c = Case { kind: k as u16, n: (k >> 16) as u16, a: [0; NARG] };
        for i in 0..NARG {
            c.a[i] = s[2 + i].load(Relaxed);
        }
        Some(c)
    }
}

/// lower bound on the number of distinct items, by hashing into a bitmap
struct Distinct {
    bits: Vec<AtomicU64>,
    n: AtomicU64,
}
impl Distinct {
    fn new(log2: u32) -> Distinct {
        let mut v = Vec::new();
        v.resize_with(1usize << (log2 - 6), || AtomicU64::new(0));
        Distinct { bits: v, n: AtomicU64::new(0) }
    }
    fn add(&self, h: u64) {
        let i = (h >> 6) as usize & (self.bits.len() - 1);
        let b = 1u64 << (h & 63);
        if self.bits[i].load(Relaxed) & b == 0 && self.bits[i].fetch_or(b, Relaxed) & b == 0 {
            self.n.fetch_add(1, Relaxed);
        }
    }
}

struct Finding {
    what: String,
    /// (kind, args, sig)
    cases: HashMap<(u16, [u64; NARG]), u64>,
    seen: AtomicU64,
}

pub struct Shared {
    tier: Tier,
    seed: u64,
    journal: Journal,
    distinct: Distinct,
    evals: AtomicU64,
    calls: AtomicU64,
    counters: Vec<AtomicU64>,
    per_kind: Vec<AtomicU64>,
    violations: Mutex<Vec<(Case, String)>>,
    nviol: AtomicU64,
    stop: AtomicBool,
    samples: Mutex<Vec<String>>,
    findings: Vec<Finding>,
    /// H3MON_LIST: collect every failing case instead of judging (used once,
    /// by hand, to write a finding's cases file; no registered command sets it)
    list: Option<Mutex<Vec<String>>>,
    /// stop after this many cases (interpreter runs)
    cap: u64,
}

pub struct Exec<'a, C: Check> {
    chk: &'a C,
    sh: &'a Shared,
    w: usize,
    pub rng: Rng,
    pub tier: Tier,
    pub seed: u64,
    evals: u64,
    calls: u64,
    counters: [u64; 24],
    per_kind: [u64; 32],
    notes: Vec<String>,
    noted: [u32; 32],
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn show_case(kinds: &[&str], c: &Case) -> String {
    let mut s = String::new();
    let _ = write!(s, "{}(", kinds.get(c.kind as usize).unwrap_or(&"?"));
    for i in 0..c.n as usize {
        if i > 0 {
            s.push_str(", ");
        }
        let _ = write!(s, "{:#x}", c.a[i]);
    }
    s.push(')');
    s
}

fn guarded<C: Check>(chk: &C, c: &Case, o: &mut Obs) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| chk.run(c, &mut *o))) {
        Ok(v) => v,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("panicked: {m}"))
        }
    }
}

impl<'a, C: Check> Exec<'a, C> {
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }

    /// Run one case under the monitor.
    pub fn case(&mut self, kind: usize, args: &[u64]) {
        let mut c = Case { kind: kind as u16, n: args.len() as u16, a: [0; NARG] };
        c.a[..args.len()].copy_from_slice(args);
        if self.sh.stop.load(Relaxed) {
            return;
        }
        let mut o = Obs::new();
        let slot = &mut self.noted[kind];
        if *slot < 2 || (*slot < 40 && self.evals % 7919 == 0) {
            o.want_note = true;
        }
        self.sh.journal.put(self.w, &c);
        let v = guarded(self.chk, &c, &mut o);
        self.sh.journal.done(self.w);
        self.evals += 1;
        if self.evals >= self.sh.cap {
            self.sh.stop.store(true, Relaxed);
        }
        self.calls += o.calls;
        self.per_kind[kind] += 1;
        for i in 0..24 {
            self.counters[i] += o.counters[i];
        }
        if o.nontrivial {
            let mut h = mix(kind as u64 + 0x51ed270b);
            for i in 0..args.len() {
                h = mix(h ^ args[i].wrapping_mul(0x9E3779B97F4A7C15));
            }
            self.sh.distinct.add(h);
        }
        if o.want_note && !o.note.is_empty() {
            *slot += 1;
            if self.notes.len() < 64 {
                self.notes.push(format!("{} -> {}", show_case(C::KINDS, &c), o.note));
            }
        }
        if let Err(m) = v {
            for f in &self.sh.findings {
                if let Some(sig) = f.cases.get(&(c.kind, c.a)) {
                    if *sig == o.sig {
                        f.seen.fetch_add(1, Relaxed);
                        return;
                    }
                }
            }
            if let Some(l) = &self.sh.list {
                let mut t = C::KINDS[kind].to_string();
                for a in args {
                    let _ = write!(t, " {a:#x}");
                }
                let _ = write!(t, " sig={:#x}", o.sig);
                l.lock().unwrap().push(t);
                return;
            }
            let n = self.sh.nviol.fetch_add(1, Relaxed);
            let mut g = self.sh.violations.lock().unwrap();
            if g.len() < 8 {
                g.push((c, if o.sig != 0 { format!("{m} [sig {:#x}]", o.sig) } else { m }));
            }
            if n >= 20 {
                self.sh.stop.store(true, Relaxed);
            }
        }
    }
    pub fn flush(&mut self) {
        self.sh.evals.fetch_add(self.evals, Relaxed);
        self.sh.calls.fetch_add(self.calls, Relaxed);
        for i in 0..24 {
            self.sh.counters[i].fetch_add(self.counters[i], Relaxed);
        }
        for i in 0..32 {
            self.sh.per_kind[i].fetch_add(self.per_kind[i], Relaxed);
        }
        self.evals = 0;
        self.calls = 0;
        self.counters = [0; 24];
        self.per_kind = [0; 32];
        let mut g = self.sh.samples.lock().unwrap();
        if g.len() < 400 {
            g.append(&mut self.notes);
        }
        self.notes.clear();
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("H3MON_VERIF").unwrap_or_else(|_| "/verif".into()))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Minimal reader for the flat JSON this harness writes itself.
fn field<'t>(line: &'t str, key: &str) -> Option<&'t str> {
    let k = format!("\"{key}\":");
    let i = line.find(&k)? + k.len();
    Some(line[i..].trim_start())
}
fn field_str(line: &str, key: &str) -> Option<String> {
    let r = field(line, key)?.strip_prefix('"')?;
    let mut out = String::new();
    let mut it = r.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => out.push(it.next()?),
            c => out.push(c),
        }
    }
    None
}
fn field_args(line: &str, key: &str) -> Option<Vec<u64>> {
    let r = field(line, key)?.strip_prefix('[')?;
    let r = &r[..r.find(']')?];
    let mut v = vec![];
    for t in r.split(',') {
        let t = t.trim().trim_matches('"');
        if t.is_empty() {
            continue;
        }
        v.push(match t.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok()?,
            None => t.parse().ok()?,
        });
    }
    Some(v)
}

fn load_findings(id: &str, kinds: &[&str]) -> Vec<Finding> {
    let dir = verif_dir().join("findings");
    let mut out = vec![];
    let txt = std::fs::read_to_string(dir.join("known_findings.jsonl")).unwrap_or_default();
    for line in txt.lines() {
        if field_str(line, "property").as_deref() != Some(id) || field_str(line, "status").as_deref() != Some("known") {
            continue;
        }
        let mut f = Finding {
            what: field_str(line, "what").unwrap_or_default(),
            cases: HashMap::new(),
            seen: AtomicU64::new(0),
        };
        let file = field_str(line, "cases_file").unwrap_or_default();
        let body = std::fs::read_to_string(dir.join(&file)).unwrap_or_default();
        for l in body.lines() {
            // kind arg arg ... sig=0x..
            let mut it = l.split_whitespace();
            let Some(kn) = it.next() else { continue };
            let Some(k) = kinds.iter().position(|x| *x == kn) else { continue };
            let mut a = [0u64; NARG];
            let mut n = 0;
            let mut sig = 0;
            for t in it {
                if let Some(s) = t.strip_prefix("sig=0x") {
                    sig = u64::from_str_radix(s, 16).unwrap_or(0);
                } else if let Some(s) = t.strip_prefix("0x") {
                    a[n] = u64::from_str_radix(s, 16).unwrap_or(0);
                    n += 1;
                }
            }
            f.cases.insert((k as u16, a), sig);
        }
        out.push(f);
    }
    out
}

pub fn finding_cases(id: &str, kinds: &[&str]) -> Vec<Case> {
    let mut v = vec![];
    for f in load_findings(id, kinds) {
        for ((k, a), _) in &f.cases {
            let n = a.iter().rposition(|x| *x != 0).map_or(1, |p| p + 1);
            v.push(Case { kind: *k, n: n as u16, a: *a });
        }
    }
    v.sort_by_key(|c| (c.kind, c.a));
    v
}

fn write_replay(id: &str, kinds: &[&str], i: usize, c: &Case, msg: &str) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{i}.json"));
    let args: Vec<String> = (0..c.n as usize).map(|k| format!("\"{:#x}\"", c.a[k])).collect();
    let body = format!(
        "{{\"property\": \"{id}\", \"kind\": {}, \"args\": [{}], \"what\": {}, \"replay_cmd\": {}}}\n",
        jstr(kinds.get(c.kind as usize).unwrap_or(&"?")),
        args.join(", "),
        jstr(msg),
        jstr(&format!("./check.sh {id} --replay {}", p.display()))
    );
    let _ = std::fs::write(&p, body);
    p
}

struct EvOut<'a> {
    id: &'a str,
    tier: Tier,
    seed: u64,
    wall: f64,
    violations: u64,
    body: String,
    assumptions: &'a [&'a str],
}
fn write_evidence(e: EvOut) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let asm: Vec<String> = e.assumptions.iter().map(|s| jstr(s)).collect();
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        e.id,
        if e.tier == Tier::Quick { "quick" } else { "thorough" },
        e.seed,
        e.body,
        asm.join(", "),
        e.wall,
        e.violations
    );
    let p = dir.join(format!("{}.json", e.id));
    let t = dir.join(format!(".{}.json.tmp", e.id));
    if std::fs::write(&t, s).is_ok() {
        let _ = std::fs::rename(&t, &p);
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = format!("{m} at {l}");
        }
    }));
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn main<C: Check>(chk: C) -> ! {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = env_u64("VERIF_SEED", 1);
    if !cfg!(miri) {
        limit(RLIMIT_CORE, 0);
    }
    let code = if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        replay(&chk, tier, &args[2])
    } else if args.get(1).map(|s| s.as_str()) == Some("--one") {
        one(&chk, &args[2..])
    } else if args.get(1).map(|s| s.as_str()) == Some("--direct") {
        direct(&chk, tier, seed, args[2].parse().unwrap(), args[3].parse().unwrap())
    } else if let Ok(j) = std::env::var("H3MON_JOURNAL") {
        child(&chk, tier, seed, Path::new(&j), t0)
    } else {
        parent(&chk, tier, seed, t0)
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// re-run one case in this process (used by the parent to confirm a death)
fn one<C: Check>(chk: &C, a: &[String]) -> i32 {
    install_hook();
    limit(RLIMIT_CPU, env_u64("H3MON_CPU", 60));
    limit(RLIMIT_AS, env_u64("H3MON_AS", 8 << 30));
    let v: Vec<u64> = a.iter().map(|s| s.parse().unwrap()).collect();
    let mut c = Case { kind: v[0] as u16, n: (v.len() - 1) as u16, a: [0; NARG] };
    c.a[..v.len() - 1].copy_from_slice(&v[1..]);
    // run on a worker-sized stack
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut o = Obs::new();
                match guarded(chk, &c, &mut o) {
                    Ok(()) => 0,
                    Err(m) => {
                        println!("{m}");
                        10
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// The first `cap` cases of one chunk, in this thread of this process: for
/// interpreters (Miri), which stop the process themselves on undefined
/// behaviour.
fn direct<C: Check>(chk: &C, tier: Tier, seed: u64, chunk: usize, cap: u64) -> i32 {
    install_hook();
    let sh = Shared {
        tier,
        seed,
        journal: Journal::heap(),
        distinct: Distinct::new(16),
        evals: AtomicU64::new(0),
        calls: AtomicU64::new(0),
        counters: (0..24).map(|_| AtomicU64::new(0)).collect(),
        per_kind: (0..32).map(|_| AtomicU64::new(0)).collect(),
        violations: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        samples: Mutex::new(vec![]),
        findings: vec![],
        list: None,
        cap,
    };
    let mut ex = Exec {
        chk,
        sh: &sh,
        w: 0,
        rng: Rng::new(seed ^ 0x4d697269, chunk as u64),
        tier,
        seed,
        evals: 0,
        calls: 0,
        counters: [0; 24],
        per_kind: [0; 32],
        notes: vec![],
        noted: [0; 32],
    };
    chk.chunk(chunk, &mut ex);
    ex.flush();
    let g = sh.violations.lock().unwrap();
    for (c, m) in g.iter() {
        println!("{} -> {m}", show_case(C::KINDS, c));
    }
    println!("direct: {} cases, {} calls, {} wrong", sh.evals.load(Relaxed), sh.calls.load(Relaxed), g.len());
    (g.len() > 0) as i32
}

fn replay<C: Check>(chk: &C, tier: Tier, p: &str) -> i32 {
    install_hook();
    let t = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {p}: {e}");
            return 2;
        }
    };
    let (Some(kn), Some(args)) = (field_str(&t, "kind"), field_args(&t, "args")) else {
        println!("not a replay file: {p}");
        return 2;
    };
    let Some(k) = C::KINDS.iter().position(|x| *x == kn) else {
        println!("unknown case kind {kn}");
        return 2;
    };
    let mut c = Case { kind: k as u16, n: args.len() as u16, a: [0; NARG] };
    c.a[..args.len()].copy_from_slice(&args);
    println!("replaying {} {}", C::ID, show_case(C::KINDS, &c));
    if let Some(m) = isolated(&c, tier) {
        println!("{m}");
        println!("VIOLATION property={} replay={p}", C::ID);
        return 1;
    }
    let mut o = Obs::new();
    o.want_note = true;
    match guarded(chk, &c, &mut o) {
        Ok(()) => {
            println!("holds: {}", o.note);
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={p}", C::ID);
            1
        }
    }
}

const STACK: usize = 64 << 20;

/// how many isolated re-runs at once (they share the memory)
fn cpus(t: Tier) -> usize {
    t.n(8, 2) as usize
}

/// Run one case in a process of its own: what went wrong, if anything did.
fn isolated(c: &Case, tier: Tier) -> Option<String> {
    let cpu = env_u64("H3MON_CPU", tier.n(60, 300));
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.env("H3MON_CPU", cpu.to_string()).env("H3MON_AS", ((28 << 30) / cpus(tier)).to_string());
    cmd.arg("--one").arg(c.kind.to_string());
    for i in 0..c.n as usize {
        cmd.arg(c.a[i].to_string());
    }
    let o = cmd.output().ok()?;
    match o.status.code() {
        Some(0) => None,
        Some(10) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string()),
        _ => {
            use std::os::unix::process::ExitStatusExt;
            Some(match o.status.signal() {
                Some(9) | Some(24) => format!("the call did not return within {cpu} s of CPU time (isolated re-run)"),
                _ => format!(
                    "the process died: {} {}",
                    o.status,
                    String::from_utf8_lossy(&o.stderr).lines().next().unwrap_or("")
                ),
            })
        }
    }
}

fn parent<C: Check>(chk: &C, tier: Tier, seed: u64, t0: Instant) -> i32 {
    let _ = chk;
    let jp = std::env::temp_dir().join(format!("h3mon-{}-{}.journal", C::ID, std::process::id()));
    let _ = std::fs::remove_file(&jp);
    let j = Journal::open(&jp);
    let me = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&me).env("H3MON_JOURNAL", &jp).status();
    let _ = std::fs::remove_file(&jp);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("INCONCLUSIVE {}: cannot start worker: {e}", C::ID);
            return 2;
        }
    };
    match st.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(2) => return 2,
        _ => {}
    }
    // died or stalled: re-run the in-flight cases in isolation
    println!("worker process ended abnormally ({st}); re-running the cases that were in flight");
    let cases: Vec<Case> = (0..MAXW).filter_map(|w| j.get(w)).collect();
    let mut hits = vec![];
    // side by side, and no further batch once one case has failed again
    for part in cases.chunks(cpus(tier)) {
        let outs: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = part.iter().map(|c| s.spawn(move || isolated(c, tier))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        });
        for (c, m) in part.iter().zip(outs) {
            if let Some(m) = m {
                println!("  {} -> {m}", show_case(C::KINDS, c));
                hits.push((*c, m));
            }
        }
        if !hits.is_empty() {
            break;
        }
    }
    if hits.is_empty() {
        println!("INCONCLUSIVE {}: no in-flight case reproduces the failure", C::ID);
        return 2;
    }
    let mut paths = vec![];
    for (i, (c, m)) in hits.iter().enumerate() {
        paths.push(write_replay(C::ID, C::KINDS, i, c, m));
    }
    let smp: Vec<String> = hits.iter().map(|(c, m)| jstr(&format!("{} -> {m}", show_case(C::KINDS, c)))).collect();
    write_evidence(EvOut {
        id: C::ID,
        tier,
        seed,
        wall: t0.elapsed().as_secs_f64(),
        violations: hits.len() as u64,
        body: format!(
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]",
            hits.len(),
            hits.len(),
            jstr("cases that killed or stalled the worker process, re-run in isolation"),
            smp.join(", ")
        ),
        assumptions: C::ASSUMPTIONS,
    });
    println!("VIOLATION property={} replay={}", C::ID, paths[0].display());
    1
}

fn child<C: Check>(chk: &C, tier: Tier, seed: u64, jp: &Path, t0: Instant) -> i32 {
    install_hook();
    limit(RLIMIT_AS, 24 << 30);
    if let Err(e) = crate::refmodel::model().self_check() {
        println!("INCONCLUSIVE {}: reference model self-check failed: {e}", C::ID);
        return 2;
    }
    let sh = Shared {
        tier,
        seed,
        journal: Journal::open(jp),
        distinct: Distinct::new(if std::env::var_os("H3MON_SANITIZER").is_some() { 22 } else if tier == Tier::Quick { 29 } else { 33 }),
        evals: AtomicU64::new(0),
        calls: AtomicU64::new(0),
        counters: (0..24).map(|_| AtomicU64::new(0)).collect(),
        per_kind: (0..32).map(|_| AtomicU64::new(0)).collect(),
        violations: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        samples: Mutex::new(vec![]),
        findings: load_findings(C::ID, C::KINDS),
        list: std::env::var("H3MON_LIST").ok().map(|_| Mutex::new(vec![])),
        cap: u64::MAX,
    };
    let nthreads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(MAXW);
    let nchunks = chk.chunks(tier);
    let next = AtomicUsize::new(0);
    let fin = AtomicBool::new(false);
    let stall = Duration::from_secs(env_u64("H3MON_STALL", tier.n(60, 300)));
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..nthreads {
            let (sh, next) = (&sh, &next);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= nchunks || sh.stop.load(Relaxed) {
                            break;
                        }
                        let mut ex = Exec {
                            chk,
                            sh,
                            w,
                            rng: Rng::new(sh.seed ^ mix(C::ID.bytes().fold(0, |a, b| a * 131 + b as u64)), i as u64),
                            tier: sh.tier,
                            seed: sh.seed,
                            evals: 0,
                            calls: 0,
                            counters: [0; 24],
                            per_kind: [0; 32],
                            notes: vec![],
                            noted: [0; 32],
                        };
                        chk.chunk(i, &mut ex);
                        ex.flush();
                    })
                    .unwrap(),
            );
        }
        // stall watchdog: only hands the in-flight cases to the parent
        let (shr, finr) = (&sh, &fin);
        s.spawn(move || {
            let mut last = vec![(0u64, Instant::now()); nthreads];
            while !finr.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for w in 0..nthreads {
                    let q = shr.journal.seq(w);
                    if q != last[w].0 || q & 1 == 0 {
                        last[w] = (q, Instant::now());
                    } else if last[w].1.elapsed() > stall {
                        println!("worker {w} has been in one case for {:?}", stall);
                        let _ = std::io::stdout().flush();
                        std::process::exit(3);
                    }
                }
            }
        });
        let mut dead = false;
        for h in hs {
            dead |= h.join().is_err();
        }
        fin.store(true, Relaxed);
        if dead {
            println!("INCONCLUSIVE {}: a workload generator panicked: {}", C::ID, ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default());
            let _ = std::io::stdout().flush();
            std::process::exit(2);
        }
    });
    if let Some(l) = &sh.list {
        let mut l = l.lock().unwrap();
        l.sort();
        l.dedup();
        let _ = std::fs::write(std::env::var("H3MON_LIST").unwrap(), l.join("\n") + "\n");
        println!("{} failing cases listed; this run gives no verdict", l.len());
        return 2;
    }
    let mut viol = std::mem::take(&mut *sh.violations.lock().unwrap());
    let mut nviol = sh.nviol.load(Relaxed);
    if nviol == 0 {
        if let Err(m) = chk.finish(tier, seed) {
            nviol += 1;
            viol.push((Case { kind: 0, n: 0, a: [0; NARG] }, m));
        }
    }
    let evals = sh.evals.load(Relaxed);
    let mut cov = String::new();
    let _ = write!(
        cov,
        "  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"monitored_calls\": {},\n",
        sh.distinct.n.load(Relaxed),
        jstr(C::RULE),
        sh.calls.load(Relaxed)
    );
    let pk: Vec<String> = C::KINDS
        .iter()
        .enumerate()
        .map(|(i, k)| format!("{}: {}", jstr(k), sh.per_kind[i].load(Relaxed)))
        .collect();
    let _ = write!(cov, "  \"cases_by_kind\": {{{}}},\n", pk.join(", "));
    let cs: Vec<String> = C::COUNTERS
        .iter()
        .enumerate()
        .map(|(i, k)| format!("{}: {}", jstr(k), sh.counters[i].load(Relaxed)))
        .collect();
    let _ = write!(cov, "  \"observed\": {{{}}},\n", cs.join(", "));
    for (k, v) in chk.extra() {
        let _ = write!(cov, "  {}: {},\n", jstr(&k), v);
    }
    if !chk.exhaustive_note().is_empty() {
        let _ = write!(cov, "  \"enumerated_completely\": {},\n", jstr(chk.exhaustive_note()));
    }
    let kf: Vec<String> = sh
        .findings
        .iter()
        .map(|f| format!("{{\"what\": {}, \"listed_cases\": {}, \"reproduced\": {}}}", jstr(&f.what), f.cases.len(), f.seen.load(Relaxed)))
        .collect();
    if !kf.is_empty() {
        let _ = write!(cov, "  \"known_findings\": [{}],\n", kf.join(", "));
    }
    let mut smp = std::mem::take(&mut *sh.samples.lock().unwrap());
    smp.sort();
    let step = (smp.len() / 16).max(1);
    let smp: Vec<String> = smp.iter().step_by(step).take(16).map(|s| jstr(s)).collect();
    let _ = write!(cov, "  \"samples\": [{}]", smp.join(",\n   "));
    write_evidence(EvOut {
        id: C::ID,
        tier,
        seed,
        wall: t0.elapsed().as_secs_f64(),
        violations: nviol,
        body: cov,
        assumptions: C::ASSUMPTIONS,
    });
    for f in &sh.findings {
        if f.seen.load(Relaxed) > 0 {
            println!("KNOWN-FINDING: property={} {}", C::ID, f.what);
        }
    }
    println!(
        "{}: {} cases, {} monitored calls, {} distinct non-trivial, {:.1} s",
        C::ID,
        evals,
        sh.calls.load(Relaxed),
        sh.distinct.n.load(Relaxed),
        t0.elapsed().as_secs_f64()
    );
    if nviol > 0 {
        let mut first = None;
        for (i, (c, m)) in viol.iter().enumerate() {
            println!("  {} -> {m}", show_case(C::KINDS, c));
            let p = write_replay(C::ID, C::KINDS, i, c, m);
            first.get_or_insert(p);
        }
        println!("VIOLATION property={} replay={}", C::ID, first.unwrap().display());
        return 1;
    }
    for r in C::REQUIRED {
        if sh.counters[*r].load(Relaxed) == 0 {
            println!("INCONCLUSIVE {}: never observed `{}`", C::ID, C::COUNTERS[*r]);
            return 2;
        }
    }
    if evals == 0 {
        println!("INCONCLUSIVE {}: observed nothing", C::ID);
        return 2;
    }
    0
}
