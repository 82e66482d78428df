//! A small property-based-testing engine.
//!
//! Every generated value is built from a recorded sequence of bounded integer
//! choices (the "tape").  A failing case is shrunk by editing its tape
//! (deleting, zeroing and lowering choices) and re-running the property, so
//! the shrunk case always comes out of the same generator.  The tape is the
//! replay file: `run.sh <id> replay <file>` re-runs exactly that case.
//!
//! The same property functions double as fuzz-target bodies: any byte string
//! is a tape (see `Src::from_bytes`).

use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// The code under test may print whatever it likes; only the engine's own lines reach stdout.
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
fn mute() {
    use std::os::fd::{AsRawFd, FromRawFd};
    let _ = OUT.get_or_init(|| {
        let saved = unsafe { std::fs::File::from_raw_fd(dup(1)) };
        if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            unsafe { dup2(null.as_raw_fd(), 1) };
        }
        saved
    });
}
macro_rules! say {
    ($($t:tt)*) => {{
        use std::io::Write;
        mute();
        let line = format!($($t)*) + "\n";
        let _ = OUT.get().unwrap().write_all(line.as_bytes());
    }};
}

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64;
    for &v in t {
        h = SplitMix(h ^ v).next();
    }
    h ^ t.len() as u64
}

// ---------------------------------------------------------------- source

/// Source of choices for one case.
pub struct Src {
    replay: Option<Vec<u64>>,
    rng: SplitMix,
    tape: Vec<u64>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    notes: Vec<String>,
    want_notes: bool,
    known: Vec<(String, String)>,
    extra_evals: u64,
}

impl Src {
    fn random(seed: u64) -> Self {
        Self::mk(None, seed)
    }
    fn replaying(t: Vec<u64>) -> Self {
        Self::mk(Some(t), 0)
    }
    fn mk(replay: Option<Vec<u64>>, seed: u64) -> Self {
        Self {
            replay,
            rng: SplitMix(seed),
            tape: vec![],
            labels: vec![],
            nontrivial: false,
            notes: vec![],
            want_notes: true,
            known: vec![],
            extra_evals: 0,
        }
    }
    /// Interpret arbitrary bytes as a tape (for byte-level fuzzing).
    pub fn from_bytes(b: &[u8]) -> Self {
        let t = b
            .chunks(2)
            .map(|c| {
                let v = u64::from(c[0]) | (u64::from(*c.get(1).unwrap_or(&0)) << 8);
                // spread so that both small and large bounds are reachable
                if v & 0x8000 != 0 {
                    SplitMix(v).next()
                } else {
                    v
                }
            })
            .collect();
        Self::replaying(t)
    }

    /// Uniform choice in `0..=n`.  0 is the simplest value.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(t) => {
                let raw = t.get(self.tape.len()).copied().unwrap_or(0);
                if raw <= n {
                    raw
                } else if n == u64::MAX {
                    raw
                } else {
                    raw % (n + 1)
                }
            }
            None => {
                if n == u64::MAX {
                    self.rng.next()
                } else if n == 0 {
                    0
                } else {
                    ((u128::from(self.rng.next()) * (u128::from(n) + 1)) >> 64) as u64
                }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }
    /// Inclusive range; shrinks towards `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        let span = (hi as i128 - lo as i128) as u64;
        (lo as i128 + i128::from(self.draw(span))) as i64
    }
    pub fn usize_in(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn pickc<T: Clone>(&mut self, xs: &[T]) -> T {
        self.pick(xs).clone()
    }
    /// Index chosen according to weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut v = self.draw(tot - 1);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// Integer biased to edges and small magnitudes.
    pub fn u64_any(&mut self) -> u64 {
        match self.weighted(&[4, 3, 3, 2]) {
            0 => self.draw(16),
            1 => {
                let bits = self.draw(63);
                self.draw((1u64 << bits) | ((1u64 << bits) - 1))
            }
            2 => {
                let p = self.draw(64) as u32;
                let base: u128 = 1u128 << p;
                let d = self.range(-2, 2) as i128;
                (base as i128 + d) as u64
            }
            _ => self.draw(u64::MAX),
        }
    }
    pub fn i64_any(&mut self) -> i64 {
        let v = self.u64_any() as i64;
        if self.bool() {
            v.wrapping_neg()
        } else {
            v
        }
    }
    /// f64 made of interesting families; may be infinite/NaN only if asked.
    pub fn f64_any(&mut self, allow_nonfinite: bool) -> f64 {
        let k = if allow_nonfinite {
            self.weighted(&[4, 4, 2, 2, 1])
        } else {
            self.weighted(&[4, 4, 2, 2])
        };
        let v = match k {
            0 => self.range(-8, 8) as f64,
            1 => self.range(-4000, 4000) as f64 / 1000.0,
            2 => self.range(-1 << 40, 1 << 40) as f64 / 1024.0,
            3 => {
                let f = f64::from_bits(self.draw(u64::MAX));
                if f.is_finite() {
                    f
                } else {
                    0.5
                }
            }
            _ => *self.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        };
        v
    }
    /// `len` bytes described by two choices (family and seed).
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let fam = self.draw(4);
        let seed = self.draw(u64::from(u32::MAX));
        let mut r = SplitMix(seed);
        match fam {
            0 => vec![seed as u8; len],
            1 => (0..len).map(|i| (i as u64).wrapping_add(seed) as u8).collect(),
            2 => {
                let mut v = Vec::with_capacity(len + 8);
                while v.len() < len {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(len);
                v
            }
            3 => (0..len).map(|_| b'a' + (r.next() % 4) as u8).collect(),
            _ => {
                // long runs with random breaks: compressible, multi-block
                let mut v = Vec::with_capacity(len);
                while v.len() < len {
                    let run = (r.next() % 3000) as usize + 1;
                    let b = r.next() as u8;
                    for _ in 0..run.min(len - v.len()) {
                        v.push(b);
                    }
                }
                v
            }
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            p.swap(i, j);
        }
        p
    }

    /// Classify the case.
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Describe the case (goes into samples and replay files).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            let mut s = f();
            if s.len() > 4000 {
                let mut k = 4000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.notes.push(s);
        }
    }
    /// Count further oracle evaluations done inside this case.
    pub fn evals(&mut self, n: u64) {
        self.extra_evals += n;
    }
    /// Report a deviation identified by an exact signature; it is tolerated
    /// only when the known-findings file lists that signature.
    pub fn known(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        self.known.push((sig.into(), msg.into()));
    }
}

// ---------------------------------------------------------------- outcome

#[derive(Debug, Clone)]
pub enum Fail {
    Violation(String),
    Discard,
}
pub type R = Result<(), Fail>;

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Violation(s.to_string())
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Fail::Violation(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::Violation($crate::clip(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b))));
        }
    }};
}
pub fn clip(mut s: String) -> String {
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push('…');
    }
    s
}

/// Run `f`, turning a panic of the code under test into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&*e))
}
fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

type PropFn = dyn Fn(&mut Src) -> R + Sync + Send;

struct Prop {
    name: &'static str,
    quick: u64,
    thorough: u64,
    serial: bool,
    f: Box<PropFn>,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discards: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
}

enum CaseRes {
    Ok,
    Discard,
    Fail(String),
}

fn run_case(f: &PropFn, src: &mut Src, known_ok: &HashSet<String>) -> CaseRes {
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    match r {
        Ok(Ok(())) => {
            for (s, m) in &src.known {
                if !known_ok.contains(s) {
                    return CaseRes::Fail(format!("[{s}] {m}"));
                }
            }
            CaseRes::Ok
        }
        Ok(Err(Fail::Discard)) => CaseRes::Discard,
        Ok(Err(Fail::Violation(m))) => CaseRes::Fail(m),
        Err(e) => CaseRes::Fail(format!("panic: {}", panic_msg(&*e))),
    }
}

// ---------------------------------------------------------------- check

pub struct Check {
    id: String,
    rule: &'static str,
    level: &'static str,
    props: Vec<Prop>,
    assumptions: Vec<String>,
    exhaustive_notes: Vec<String>,
    seed: u64,
    thorough: bool,
    verif: PathBuf,
    only: Option<String>,
}

impl Check {
    pub fn new(id: &str, level: &'static str, rule: &'static str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        Self {
            id: id.into(),
            rule,
            level,
            props: vec![],
            assumptions: vec![],
            exhaustive_notes: vec![],
            seed,
            thorough,
            verif,
            only: std::env::var("PBT_ONLY").ok(),
        }
    }
    pub fn assume(mut self, a: &str) -> Self {
        self.assumptions.push(a.into());
        self
    }
    pub fn prop(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src) -> R + Sync + Send + 'static,
    ) -> Self {
        self.props.push(Prop { name, quick, thorough, serial: false, f: Box::new(f) });
        self
    }
    /// As `prop`, run on one thread with nothing else in parallel (process-wide
    /// state such as rlimits or stdout is involved).
    pub fn prop_serial(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src) -> R + Sync + Send + 'static,
    ) -> Self {
        self.props.push(Prop { name, quick, thorough, serial: true, f: Box::new(f) });
        self
    }

    fn known_ok(&self) -> HashSet<String> {
        // lines: "finding: property=<id> sig=<signature> <text>"
        let p = self.verif.join("known_findings.txt");
        let mut out = HashSet::new();
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                let Some(rest) = l.strip_prefix("finding: ") else { continue };
                let mut it = rest.split_whitespace();
                let pr = it.next().unwrap_or("");
                let sg = it.next().unwrap_or("");
                if pr == format!("property={}", self.id) {
                    if let Some(s) = sg.strip_prefix("sig=") {
                        out.insert(s.to_string());
                    }
                }
            }
        }
        out
    }

    /// Run everything; never returns.
    pub fn main(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        if args.get(2).map(String::as_str) == Some("replay") {
            self.replay(Path::new(&args[3]));
        }
        if args.get(2).map(String::as_str) == Some("child-case") {
            // internal: run one tape, exit 0 unless the process dies
            self.child_case(&args[3], Path::new(&args[4]));
        }
        if std::env::var("PBT_CHILD").is_ok() || std::env::var("PBT_NOFORK").is_ok() {
            mute();
            self.run_all();
        }
        self.supervise();
    }

    /// Parent: run the search in a child so that a crash of the code under
    /// test (abort, stack overflow, segfault) is attributed to a case.
    fn supervise(self) -> ! {
        let exe = std::env::current_exe().unwrap();
        let scratch = std::env::temp_dir().join(format!("pbt-{}-{}", self.id, std::process::id()));
        std::fs::create_dir_all(&scratch).unwrap();
        let inflight = scratch.join("inflight");
        let st = std::process::Command::new(&exe)
            .arg(&self.id)
            .env("PBT_CHILD", "1")
            .env("PBT_INFLIGHT", &inflight)
            .status()
            .expect("spawn");
        use std::os::unix::process::ExitStatusExt;
        let sig = st.signal();
        let code = match (st.code(), sig) {
            (Some(c), _) => c,
            (None, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
                let rc = self.attribute_crash(&exe, &inflight, s, &scratch);
                let _ = std::fs::remove_dir_all(&scratch);
                std::process::exit(rc)
            }
            (None, s) => {
                eprintln!("ERROR: search process ended by signal {s:?}");
                3
            }
        };
        let _ = std::fs::remove_dir_all(&scratch);
        std::process::exit(code)
    }

    fn crash_of(&self, exe: &Path, prop: &str, tape: &[u64], scratch: &Path) -> Option<i32> {
        use std::os::unix::process::ExitStatusExt;
        let f = scratch.join("case.tape");
        std::fs::write(&f, tape_text(tape)).unwrap();
        let st = std::process::Command::new(exe)
            .args([&self.id, "child-case", prop])
            .arg(&f)
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .status()
            .ok()?;
        st.signal().filter(|s| [4, 6, 7, 8, 11].contains(s))
    }

    fn attribute_crash(&self, exe: &Path, inflight: &Path, sig: i32, scratch: &Path) -> i32 {
        let raw = std::fs::read(inflight).unwrap_or_default();
        for slot in raw.chunks_exact(24) {
            let g = |i: usize| u64::from_le_bytes(slot[i * 8..i * 8 + 8].try_into().unwrap());
            if g(0) == 0 {
                continue;
            }
            let prop = &self.props[(g(0) - 1) as usize];
            let seed = g(1);
            // The random tape is not known yet (the case died), so generate a
            // long prefix of the same generator and let the child replay it by
            // seed.
            if self.crash_of(exe, &format!("{}@{}", prop.name, seed), &[], scratch).is_none() {
                continue;
            }
            let path = self.write_replay(
                prop.name,
                &format!("seed:{seed}"),
                &format!("the process was killed by signal {sig} while running this case"),
                &[],
            );
            say!("violation of {}: crash (signal {sig}) in sub-check {}", self.id, prop.name);
            say!("VIOLATION property={} replay={}", self.id, path.display());
            self.write_evidence(&[], 0.0, 1);
            return 1;
        }
        eprintln!("ERROR: search process died with signal {sig}; no single case reproduces it");
        3
    }

    fn child_case(self, prop: &str, file: &Path) -> ! {
        std::panic::set_hook(Box::new(|_| {}));
        let (name, seed) = match prop.split_once('@') {
            Some((n, s)) => (n.to_string(), s.parse::<u64>().ok()),
            None => (prop.to_string(), None),
        };
        let p = self.props.iter().find(|p| p.name == name).expect("prop");
        let mut src = match seed {
            Some(s) => Src::random(s),
            None => Src::replaying(parse_tape(&std::fs::read_to_string(file).unwrap())),
        };
        let f = &p.f;
        run_in_stack(|| {
            let _ = run_case(&**f, &mut src, &HashSet::new());
        });
        std::process::exit(0)
    }

    fn replay(self, file: &Path) -> ! {
        let text = std::fs::read_to_string(file).expect("replay file");
        let mut name = String::new();
        let mut tape = String::new();
        for l in text.lines() {
            if let Some(v) = l.strip_prefix("sub-check: ") {
                name = v.into();
            }
            if let Some(v) = l.strip_prefix("tape: ") {
                tape = v.into();
            }
        }
        let p = self.props.iter().find(|p| p.name == name).expect("sub-check");
        let mut src = match tape.strip_prefix("seed:") {
            Some(s) => Src::random(s.parse().unwrap()),
            None => Src::replaying(parse_tape(&tape)),
        };
        let known = self.known_ok();
        let r = run_case(&*p.f, &mut src, &known);
        for n in &src.notes {
            say!("  {n}");
        }
        match r {
            CaseRes::Fail(m) => {
                say!("reproduced: {m}");
                say!("VIOLATION property={} replay={}", self.id, file.display());
                std::process::exit(1)
            }
            CaseRes::Ok => {
                say!("does not fail any more");
                std::process::exit(0)
            }
            CaseRes::Discard => {
                say!("case is outside the property's domain");
                std::process::exit(0)
            }
        }
    }

    fn run_all(self) -> ! {
        let t0 = Instant::now();
        if std::env::var("PBT_LOUD").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        let limit = if self.thorough { 6 * 3600 } else { 850 };
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("ERROR: watchdog: no verdict within {limit} s (inconclusive)");
            std::process::exit(4);
        });
        let known_ok = self.known_ok();
        let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
        let inflight = std::env::var("PBT_INFLIGHT").ok().and_then(|p| {
            std::fs::OpenOptions::new().create(true).truncate(true).write(true).read(true).open(p).ok()
        });
        if let Some(f) = &inflight {
            let _ = f.set_len((nw * 24) as u64);
        }
        let mut all: Vec<(&'static str, Stats)> = vec![];
        for (pi, p) in self.props.iter().enumerate() {
            if self.only.as_ref().is_some_and(|o| !p.name.contains(o.as_str())) {
                continue;
            }
            let mut total = if self.thorough { p.thorough } else { p.quick };
            if let Ok(m) = std::env::var("PBT_MULT") {
                total = (total as f64 * m.parse::<f64>().unwrap_or(1.0)) as u64;
            }
            let workers = if p.serial { 1 } else { nw as u64 };
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let failure: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
            let stats = Mutex::new(Stats::default());
            let base = hash_str(p.name) ^ hash_str(&self.id).rotate_left(17) ^ SplitMix(self.seed).next();
            let pt = Instant::now();
            std::thread::scope(|sc| {
                for w in 0..workers {
                    let (next, stop, failure, stats, known_ok, inflight) =
                        (&next, &stop, &failure, &stats, &known_ok, &inflight);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut st = Stats::default();
                            while !stop.load(Ordering::Relaxed) {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= total {
                                    break;
                                }
                                let cs = SplitMix(base.wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95))).next();
                                if let Some(f) = inflight {
                                    use std::os::unix::fs::FileExt;
                                    let mut b = [0u8; 24];
                                    b[..8].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
                                    b[8..16].copy_from_slice(&cs.to_le_bytes());
                                    let _ = f.write_all_at(&b, w * 24);
                                }
                                let mut src = Src::random(cs);
                                src.want_notes = st.samples.len() < 2;
                                let r = run_case(&*p.f, &mut src, known_ok);
                                st.evals += 1 + src.extra_evals;
                                match r {
                                    CaseRes::Ok => {
                                        for l in &src.labels {
                                            *st.labels.entry(l).or_default() += 1;
                                        }
                                        for (s, m) in src.known {
                                            st.known.entry(s).or_insert(m);
                                        }
                                        if src.nontrivial {
                                            st.distinct.insert(hash_tape(&src.tape));
                                            if st.samples.len() < 2 && !src.notes.is_empty() {
                                                st.samples.push(clip(src.notes.join("; ")));
                                            }
                                        }
                                    }
                                    CaseRes::Discard => st.discards += 1,
                                    CaseRes::Fail(m) => {
                                        stop.store(true, Ordering::Relaxed);
                                        let mut g = failure.lock().unwrap();
                                        if g.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                            *g = Some((i, src.tape, m));
                                        }
                                    }
                                }
                            }
                            if let Some(f) = inflight {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_all_at(&[0u8; 24], w * 24);
                            }
                            let mut g = stats.lock().unwrap();
                            g.evals += st.evals;
                            g.discards += st.discards;
                            g.distinct.extend(st.distinct);
                            for (k, v) in st.labels {
                                *g.labels.entry(k).or_default() += v;
                            }
                            g.known.extend(st.known);
                            if g.samples.len() < 3 {
                                g.samples.extend(st.samples.into_iter().take(1));
                            }
                        })
                        .unwrap();
                }
            });
            let st = stats.into_inner().unwrap();
            eprintln!(
                "[{}] {}: {} evaluations, {} distinct non-trivial, {} discarded, {:.1}s {:?}",
                self.id,
                p.name,
                st.evals,
                st.distinct.len(),
                st.discards,
                pt.elapsed().as_secs_f64(),
                st.labels
            );
            if let Some((_, tape, msg)) = failure.into_inner().unwrap() {
                let (tape, msg, notes) = shrink(&*p.f, tape, msg, &known_ok);
                let path = self.write_replay(p.name, &tape_text(&tape), &msg, &notes);
                say!("violation of {} in sub-check {}:", self.id, p.name);
                for n in &notes {
                    say!("  {}", clip(n.clone()));
                }
                say!("  {}", clip(msg));
                say!("VIOLATION property={} replay={}", self.id, path.display());
                all.push((p.name, st));
                self.write_evidence(&all, t0.elapsed().as_secs_f64(), 1);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
            all.push((p.name, st));
        }
        let mut seen = BTreeMap::new();
        for (_, s) in &all {
            for (k, v) in &s.known {
                seen.entry(k.clone()).or_insert_with(|| v.clone());
            }
        }
        for (k, v) in &seen {
            say!("KNOWN-FINDING: property={} [{k}] {}", self.id, clip(v.clone()));
        }
        self.write_evidence(&all, t0.elapsed().as_secs_f64(), 0);
        say!("OK property={} ({:.1}s)", self.id, t0.elapsed().as_secs_f64());
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }

    fn write_replay(&self, sub: &str, tape: &str, msg: &str, notes: &[String]) -> PathBuf {
        let dir = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.txt", self.id, sub));
        let mut s = String::new();
        s += &format!("property: {}\nsub-check: {sub}\nseed: {}\n", self.id, self.seed);
        s += &format!("replay with: cd /verif && ./run.sh {} replay {}\n", self.id, p.display());
        for n in notes {
            s += &format!("case: {}\n", n.replace('\n', "\n      "));
        }
        s += &format!("failure: {}\n", msg.replace('\n', "\n      "));
        s += &format!("tape: {tape}\n");
        let _ = std::fs::write(&p, s);
        p
    }

    fn write_evidence(&self, all: &[(&'static str, Stats)], wall: f64, violations: u64) {
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let evals: u64 = all.iter().map(|(_, s)| s.evals).sum();
        let distinct: usize = all.iter().map(|(_, s)| s.distinct.len()).sum();
        let mut samples = vec![];
        let mut subs = vec![];
        for (n, s) in all {
            for x in &s.samples {
                samples.push(js(&format!("{n}: {x}")));
            }
            let labels: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
            subs.push(format!(
                "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"classes\": {{{}}}}}",
                js(n),
                s.evals,
                s.distinct.len(),
                s.discards,
                labels.join(", ")
            ));
        }
        let assume: Vec<String> = self.assumptions.iter().map(|a| js(a)).collect();
        let out = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n  \"sub_checks\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n",
            js(&self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(self.level),
            js(self.rule),
            subs.join(", "),
            samples.join(", "),
            assume.join(", "),
            wall
        );
        let _ = &self.exhaustive_notes;
        std::fs::write(dir.join(format!("{}.json", self.id)), out).expect("write evidence");
    }
}

fn run_in_stack(f: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap();
    });
}

fn tape_text(t: &[u64]) -> String {
    t.iter().map(u64::to_string).collect::<Vec<_>>().join(",")
}
fn parse_tape(s: &str) -> Vec<u64> {
    s.trim().split(',').filter(|x| !x.is_empty()).filter_map(|x| x.trim().parse().ok()).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- shrinking

fn shrink(f: &PropFn, tape: Vec<u64>, msg: String, known: &HashSet<String>) -> (Vec<u64>, String, Vec<String>) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut evals = 0u32;
    let budget = Duration::from_secs(60);
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, evals: &mut u32| -> bool {
        if *evals > 6000 || start.elapsed() > budget {
            return false;
        }
        *evals += 1;
        let mut src = Src::replaying(cand);
        src.want_notes = false;
        if let CaseRes::Fail(m) = run_case(f, &mut src, known) {
            let t = src.tape;
            if (t.len(), &t) < (best.len(), best) {
                *best = t;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                let mut c = best.clone();
                c.drain(lo..i.min(best.len()));
                if attempt(c, &mut best, &mut best_msg, &mut evals) {
                    i = lo.min(best.len());
                } else {
                    i = lo.min(i - 1);
                }
            }
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..hi].fill(0);
                    attempt(c, &mut best, &mut best_msg, &mut evals);
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if attempt(c, &mut best, &mut best_msg, &mut evals) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || evals > 6000 || start.elapsed() > budget {
            break;
        }
    }
    let mut src = Src::replaying(best.clone());
    let r = run_case(f, &mut src, known);
    if let CaseRes::Fail(m) = r {
        best_msg = m;
    }
    let notes = std::mem::take(&mut src.notes);
    (best, best_msg, notes)
}

// ---------------------------------------------------------------- scratch

/// A scratch directory that is removed when dropped.
pub struct Scratch(pub PathBuf);
static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vpbt-{tag}-{}-{n}", std::process::id()));
        if std::fs::create_dir_all(&p).is_err() {
            let p2 = std::env::temp_dir().join(format!("vpbt-{tag}-{}-{n}", std::process::id()));
            std::fs::create_dir_all(&p2).expect("scratch dir");
            return Self(p2);
        }
        Self(p)
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
