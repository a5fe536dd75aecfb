//! The property-testing engine: choice tapes, the per-case context, shrinking, and running cases in
//! isolation.
//!
//! A case is a pure function of a tape of choices. Random cases record their tape as they draw from a
//! seeded generator; shrinking edits the tape (every choice is made so that 0 is its simplest value)
//! and regenerates the case, so that anything built from the choices shrinks as one value. A replay
//! file holds the tape of a shrunk failure.

use crate::dict::dict;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF0u64;
    for p in parts {
        let mut r = Rng(h ^ p.wrapping_mul(0x2545_F491_4F6C_DD1D));
        h = r.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Most choices a single case may make; all further ones are 0.
pub const MAX_TAPE: usize = 200_000;

/// Source of choices.
pub struct Src {
    prefix: Vec<u64>,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    shared: Option<*mut u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { prefix: vec![], rng: Some(Rng::new(seed)), rec: vec![], spans: vec![], shared: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { prefix: tape, rng: None, rec: vec![], spans: vec![], shared: None }
    }
    /// Also records the tape in shared memory: `[len, choices..]`.
    pub fn share(&mut self, p: *mut u64) {
        unsafe { *p = 0 };
        self.shared = Some(p);
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        self.given(n, |r| r.next() % n.max(1))
    }
    /// A choice in `0..n`, which `f` makes when it is made at random.
    pub fn given(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let n = n.max(1);
        let i = self.rec.len();
        let v = if i >= MAX_TAPE {
            return 0;
        } else if i < self.prefix.len() {
            self.prefix[i].min(n - 1)
        } else if let Some(r) = self.rng.as_mut() {
            f(r).min(n - 1)
        } else {
            0
        };
        self.rec.push(v);
        if let Some(p) = self.shared {
            unsafe {
                *p.add(1 + i) = v;
                *p = (i + 1) as u64;
            }
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// A value in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn bits(&mut self) -> u64 {
        // Two halves, so that each shrinks.
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    /// True with probability `num / den`; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// An index with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
        let start = self.rec.len();
        let r = f(self);
        let end = self.rec.len();
        if end > start {
            self.spans.push((start, end));
        }
        r
    }
    /// A heavy-tailed length: mostly small, now and then up to `max`.
    pub fn length(&mut self, max: usize) -> usize {
        let cap = match self.weighted(&[600, 245, 100, 40, 10, 5]) {
            0 => 3,
            1 => 6,
            2 => 12,
            3 => 40,
            4 => max,
            _ => return if max < 9 { self.usize(max + 1) } else { self.near(9, max as u64) as usize },
        };
        self.usize(cap.min(max) + 1)
    }
    /// A number in `lo..=hi` at or beside one which the code under test mentions.
    pub fn near(&mut self, lo: u64, hi: u64) -> u64 {
        let v = self.given(hi - lo + 1, |r| {
            let ints = &dict().ints;
            let (a, b) = (ints.partition_point(|x| *x < lo), ints.partition_point(|x| *x <= hi));
            if a == b {
                return r.next() % (hi - lo + 1);
            }
            let k = ints[a + (r.next() % (b - a) as u64) as usize];
            (k + r.next() % 5).saturating_sub(2).clamp(lo, hi) - lo
        });
        lo + v
    }
    /// A character which the code under test mentions, or one beside it.
    pub fn known_char(&mut self) -> char {
        let v = self.given(0x110000, |r| {
            let cs = &dict().chars;
            if cs.is_empty() {
                return 'a' as u64;
            }
            let c = cs[(r.next() % cs.len() as u64) as usize] as u64;
            match r.next() % 8 {
                0 => c + 1,
                1 => c.saturating_sub(1),
                2 => c + r.next() % 12,
                _ => c,
            }
        });
        char::from_u32(v as u32).unwrap_or('a')
    }
    /// A string which the code under test mentions.
    pub fn known_string(&mut self) -> String {
        let ss = &dict().strings;
        let pick = match self.rng.as_mut() {
            Some(r) if !ss.is_empty() => ss[(r.next() % ss.len() as u64) as usize].chars().collect(),
            _ => vec![],
        };
        let n = self.given(200, |_| pick.len() as u64) as usize;
        (0..n)
            .map(|i| {
                let v = self.given(0x110000, |_| pick.get(i).map_or('a' as u64, |c| *c as u64));
                char::from_u32(v as u32).unwrap_or('a')
            })
            .collect()
    }
    /// A number of elements past what programs treat as few; 0 (mostly) for no such thing.
    pub fn wide(&mut self) -> usize {
        if !self.chance(1, 120) {
            return 0;
        }
        match self.weighted(&[50, 25, 9, 16]) {
            0 => self.range(30, 100),
            1 => self.range(100, 400),
            2 => self.range(400, 1500),
            _ => self.near(9, 3_000) as usize,
        }
    }
    /// A length as from `length`, but now and then hundreds.
    pub fn size(&mut self, max: usize) -> usize {
        match self.wide() {
            0 => self.length(max),
            n => n,
        }
    }
    /// A list of `min..=max` elements (mostly few), each of which can be shrunk away on its own.
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src, usize) -> T) -> Vec<T> {
        let want = min.max(self.length(max));
        let mut v = Vec::with_capacity(want);
        for i in 0..want {
            // Dropping this span from the tape drops the element.
            let keep = self.span(|s| {
                if i >= min && s.below(1 << 20) == 0 && s.rng.is_none() {
                    return None;
                }
                Some(f(s, i))
            });
            match keep {
                Some(x) => v.push(x),
                None => break,
            }
        }
        v
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub input: String,
    pub tier_thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

/// Marks a failure of the harness itself, never of the code under test.
pub const HARNESS: &str = "HARNESS ERROR: ";

pub fn is_harness(m: &str) -> bool {
    m.contains("HARNESS ERROR")
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut m) = PANIC_MSG.lock() {
            *m = format!("panic at {}: {}", loc, msg);
        }
    }));
}

/// Runs one case; panics become failures.
pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    over::verif::set_fuel(FUEL);
    let r = match panic::catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => Err(PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default()),
    };
    over::verif::set_fuel(u64::MAX);
    r
}

/// Most steps the parsers may take in a case (the largest case that should end takes a tenth).
pub const FUEL: u64 = 100_000_000;

/// Size of the stack cases run on: the default of a Rust thread, or twice that where the code under
/// test is not optimised.
fn stack() -> usize {
    match std::env::var("OVERCHECK_STACK_MB").ok().and_then(|s| s.parse::<usize>().ok()) {
        Some(mb) => mb << 20,
        None => 2 << 20,
    }
}

/// Runs `f` on a thread with such a stack and gives its result.
pub fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(stack()).spawn_scoped(s, f).expect("HARNESS ERROR: thread").join().expect("HARNESS ERROR: thread")
    })
}

/// Catches a panic of the code under test alone.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default())
}

/// Result of running a case in a forked child.
#[derive(Clone, Debug)]
pub enum Iso {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
}

impl Iso {
    pub fn failed(&self) -> bool {
        matches!(self, Iso::Fail(_) | Iso::Crash(_))
    }
    pub fn hangs(&self) -> bool {
        matches!(self, Iso::Hang)
    }
    pub fn text(&self) -> String {
        match self {
            Iso::Pass => "pass".into(),
            Iso::Fail(s) => s.clone(),
            Iso::Crash(s) => format!("process crashed: {}", s),
            Iso::Hang => "no result within the time limit".into(),
        }
    }
}

struct SendPtr<T>(*mut T);
unsafe impl<T> Send for SendPtr<T> {}

pub struct Shared {
    pub tape: *mut u64,
    pub msg: *mut u8,
}

const MSG_MAX: usize = 1 << 20;

impl Shared {
    pub fn new() -> Self {
        unsafe {
            let a = libc::mmap(
                std::ptr::null_mut(),
                (MAX_TAPE + 2) * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            let b = libc::mmap(
                std::ptr::null_mut(),
                MSG_MAX * 2 + 32,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(a != libc::MAP_FAILED && b != libc::MAP_FAILED);
            Shared { tape: a as *mut u64, msg: b as *mut u8 }
        }
    }
    fn put(&self, slot: usize, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(MSG_MAX);
        unsafe {
            let base = self.msg.add(slot * (MSG_MAX + 16));
            *(base as *mut u64) = n as u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(8), n);
        }
    }
    fn get(&self, slot: usize) -> String {
        unsafe {
            let base = self.msg.add(slot * (MSG_MAX + 16));
            let n = *(base as *const u64) as usize;
            String::from_utf8_lossy(std::slice::from_raw_parts(base.add(8), n.min(MSG_MAX))).into_owned()
        }
    }
    pub fn recorded(&self) -> Vec<u64> {
        unsafe {
            let n = *self.tape as usize;
            std::slice::from_raw_parts(self.tape.add(1), n).to_vec()
        }
    }
    pub fn input(&self) -> String {
        self.get(1)
    }
}

/// Writes the case's description where the parent can read it even if the child dies.
static CUR_SHARED: Mutex<Option<usize>> = Mutex::new(None);
pub fn publish_input(s: &str) {
    if let Ok(g) = CUR_SHARED.lock() {
        if let Some(p) = *g {
            let sh = Shared { tape: std::ptr::null_mut(), msg: p as *mut u8 };
            sh.put(1, s);
        }
    }
}

/// Keeps a runaway allocation of the code under test from taking the machine with it: it then fails,
/// which aborts the process.
pub fn limit_memory() {
    // AddressSanitizer needs terabytes of addresses, and has a limit of its own.
    if crate::props::keep::watched() {
        return;
    }
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

pub fn abort_text() -> &'static str {
    if crate::props::keep::watched() {
        "SIGABRT (AddressSanitizer found an error; replay.sh shows its report)"
    } else {
        "SIGABRT (stack overflow, out of memory or abort)"
    }
}

/// Runs a case in a forked child.
pub fn run_isolated(f: CaseFn, mut src: Src, thorough: bool, sh: &Shared, timeout_s: u32) -> Iso {
    src.share(sh.tape);
    sh.put(0, "");
    sh.put(1, "");
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(timeout_s);
            limit_memory();
            *CUR_SHARED.lock().unwrap() = Some(sh.msg as usize);
            // The child's own messages (such as the runtime's about a stack overflow) are noise.
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if null >= 0 && std::env::var_os("OVERCHECK_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            let mut ctx = Ctx { tier_thorough: thorough, ..Ctx::default() };
            let r = {
                let (src, ctx) = (SendPtr(&mut src), SendPtr(&mut ctx));
                on_small_stack(move || {
                    let (src, ctx) = (src, ctx);
                    unsafe { run_case(f, &mut *src.0, &mut *ctx.0) }
                })
            };
            sh.put(1, &ctx.input);
            let code = match r {
                Ok(()) => 0,
                Err(m) => {
                    sh.put(0, &m);
                    1
                }
            };
            libc::_exit(code);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 => Iso::Pass,
                1 => Iso::Fail(sh.get(0)),
                c => Iso::Crash(format!("exit status {}", c)),
            }
        } else {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGALRM | libc::SIGKILL => Iso::Hang,
                libc::SIGSEGV => Iso::Crash("SIGSEGV".into()),
                libc::SIGABRT => Iso::Crash(abort_text().into()),
                s => Iso::Crash(format!("signal {}", s)),
            }
        }
    }
}

/// Shrinks a failing tape. Returns the smallest failing tape found, its failure and its input.
pub fn shrink(
    f: CaseFn,
    tape: Vec<u64>,
    thorough: bool,
    sh: &Shared,
    max_attempts: usize,
    max_secs: u64,
) -> (Vec<u64>, Iso, String, usize) {
    let t0 = std::time::Instant::now();
    let attempts = std::cell::Cell::new(0usize);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut best = tape;
    // What depends on timing may take several tries.
    let mut r = run_isolated(f, Src::replay(best.clone()), thorough, sh, 60);
    for _ in 0..8 {
        if r.failed() || r.hangs() {
            break;
        }
        r = run_isolated(f, Src::replay(best.clone()), thorough, sh, 60);
    }
    let mut best_res = r.clone();
    let mut best_in = sh.input();
    if !r.failed() {
        return (best, r, best_in, 0);
    }
    best = sh.recorded();

    let mut try_tape = |cand: Vec<u64>, best: &mut Vec<u64>, res: &mut Iso, inp: &mut String| -> bool {
        if attempts.get() >= max_attempts || t0.elapsed().as_secs() >= max_secs {
            return false;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        cand.hash(&mut h);
        if !seen.insert(h.finish()) {
            return false;
        }
        attempts.set(attempts.get() + 1);
        let r = run_isolated(f, Src::replay(cand), thorough, sh, 30);
        if r.failed() && !is_harness(&r.text()) {
            let rec = sh.recorded();
            if (rec.len(), &rec) < (best.len(), &*best) {
                *best = rec;
                *res = r;
                *inp = sh.input();
                return true;
            }
        }
        false
    };

    loop {
        let before = best.clone();
        // Delete chunks, big to small.
        let mut size = best.len().next_power_of_two().max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.len() {
                    let hi = i.min(best.len());
                    let mut c = best[..lo].to_vec();
                    c.extend_from_slice(&best[hi..]);
                    try_tape(c, &mut best, &mut best_res, &mut best_in);
                }
                i = lo;
            }
            size /= 2;
        }
        // Zero chunks.
        for size in [16usize, 4, 2] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    try_tape(c, &mut best, &mut best_res, &mut best_in);
                }
                i += size;
            }
        }
        // Lower single choices.
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_tape(c, &mut best, &mut best_res, &mut best_in) && i < best.len() {
                    let mut lo = 0;
                    let mut hi = best[i];
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_tape(c, &mut best, &mut best_res, &mut best_in) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if hi > *best.get(i).unwrap_or(&0) {
                            hi = *best.get(i).unwrap_or(&0);
                        }
                        if lo >= hi {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        // Lower one choice while deleting a following one (lengths and their elements).
        let mut i = 0;
        while i + 1 < best.len() && best.len() < 400 {
            if best[i] > 0 {
                for k in 1..=3usize {
                    if i + 1 + k <= best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        if try_tape(c, &mut best, &mut best_res, &mut best_in) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || attempts.get() >= max_attempts || t0.elapsed().as_secs() >= max_secs {
            break;
        }
    }
    (best, best_res, best_in, attempts.get())
}
