//! Runs the cases of a property on several processes, attributes failures and crashes to a case,
//! shrinks it, writes the replay file and the evidence.

use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
/// A worker that makes no progress for this long is in a case that does not end.
const STALL_S: u64 = 90;
/// How long such a case then gets on its own.
const ALONE_S: u32 = 90;
const STALLED: &str = "the case does not end";

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub only_sub: Option<String>,
    pub evidence: Option<PathBuf>,
    pub replays: PathBuf,
}

/// What each worker shares with the parent: `[sub, case, heartbeat]` per worker.
struct Board(*mut u64);
impl Board {
    fn new() -> Board {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Board(p as *mut u64)
        }
    }
    fn set(&self, w: usize, sub: u64, case: u64) {
        unsafe {
            std::ptr::write_volatile(self.0.add(w * 4), sub);
            std::ptr::write_volatile(self.0.add(w * 4 + 1), case);
            let h = std::ptr::read_volatile(self.0.add(w * 4 + 2));
            std::ptr::write_volatile(self.0.add(w * 4 + 2), h + 1);
        }
    }
    fn get(&self, w: usize) -> (u64, u64, u64) {
        unsafe {
            (
                std::ptr::read_volatile(self.0.add(w * 4)),
                std::ptr::read_volatile(self.0.add(w * 4 + 1)),
                std::ptr::read_volatile(self.0.add(w * 4 + 2)),
            )
        }
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    // DefaultHasher::new() is keyed with constants, so this is a pure function of its arguments.
    mix(&[seed, hash_str(prop), hash_str(sub), i])
}

pub fn counts(p: &Prop, o: &Opts) -> Vec<u64> {
    p.subs
        .iter()
        .map(|s| {
            if o.only_sub.as_ref().map_or(false, |n| n != s.name) {
                return 0;
            }
            let n = if o.thorough { s.thorough } else { s.quick };
            ((n as f64 * o.scale).ceil() as u64).max(if n > 0 { 1 } else { 0 })
        })
        .collect()
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c == '\u{2028}' || c == '\u{2029}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

struct WorkerOut {
    evals: Vec<u64>,
    nontrivial: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(usize, String)>,
    hashes: Vec<u64>,
    fail: Option<(usize, u64, String)>,
}

fn worker(p: &Prop, o: &Opts, w: usize, board: &Board, dir: &Path) -> WorkerOut {
    let n = counts(p, o);
    let mut out = WorkerOut {
        evals: vec![0; n.len()],
        nontrivial: vec![0; n.len()],
        labels: BTreeMap::new(),
        samples: vec![],
        hashes: vec![],
        fail: None,
    };
    std::env::set_current_dir(dir).expect("HARNESS ERROR: chdir");
    crate::gen::write_pantry(dir);
    let mut seen: HashSet<u64> = HashSet::new();
    for (k, sub) in p.subs.iter().enumerate() {
        let mut taken = 0;
        let mut i = w as u64;
        while i < n[k] {
            board.set(w, k as u64, i);
            let mut src = Src::random(case_seed(o.seed, p.id, sub.name, i));
            let mut ctx = Ctx { tier_thorough: o.thorough, ..Ctx::default() };
            let r = run_case(sub.run, &mut src, &mut ctx);
            out.evals[k] += 1;
            for (l, c) in &ctx.labels {
                *out.labels.entry(format!("{}/{}", sub.name, l)).or_insert(0) += (*c > 0) as u64;
            }
            if ctx.nontrivial {
                out.nontrivial[k] += 1;
                let h = mix(&[hash_str(sub.name), hash_str(&ctx.input)]);
                // Beyond a million the number of distinct cases is a lower bound.
                if seen.len() < 1_000_000 && seen.insert(h) {
                    out.hashes.push(h);
                }
                if taken < 2 && (w as u64 + i / 8) % 3 == 1 {
                    taken += 1;
                    out.samples.push((k, ctx.input.clone()));
                }
            }
            if let Err(m) = r {
                out.fail = Some((k, i, m));
                return out;
            }
            i += WORKERS as u64;
        }
    }
    out
}

fn save(out: &WorkerOut, path: &Path) {
    let mut t = String::new();
    let nums = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let _ = writeln!(t, "{}", nums(&out.evals));
    let _ = writeln!(t, "{}", nums(&out.nontrivial));
    let _ = writeln!(t, "{}", out.labels.len());
    for (l, c) in &out.labels {
        let _ = writeln!(t, "{} {}", c, l);
    }
    let _ = writeln!(t, "{}", out.samples.len());
    for (k, s) in &out.samples {
        let _ = writeln!(t, "{} {}", k, esc(&clip(s, 600)));
    }
    match &out.fail {
        Some((k, i, m)) => {
            let _ = writeln!(t, "fail {} {} {}", k, i, esc(&clip(m, 4000)));
        }
        None => {
            let _ = writeln!(t, "ok");
        }
    }
    let _ = writeln!(t, "{}", nums(&out.hashes));
    fs::write(path, t).expect("HARNESS ERROR: worker result");
}

static SCRATCH: std::sync::Mutex<Option<PathBuf>> = std::sync::Mutex::new(None);

/// Where cases may write.
pub fn scratch_dir() -> PathBuf {
    SCRATCH.lock().expect("HARNESS ERROR: lock").clone().expect("HARNESS ERROR: no scratch directory")
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::os::unix::fs::PermissionsExt;
        // A file system in memory, if there is one: most cases write files.
        let name = format!("overcheck.{}", std::process::id());
        let mut d = Path::new("/dev/shm").join(&name);
        if std::env::var_os("TMPDIR").is_some() || fs::create_dir_all(&d).is_err() || fs::write(d.join("probe"), "x").is_err() {
            d = std::env::temp_dir().join(&name);
        }
        fs::create_dir_all(&d).expect("HARNESS ERROR: scratch");
        let d = fs::canonicalize(d).expect("HARNESS ERROR: scratch");
        let _ = fs::set_permissions(&d, fs::Permissions::from_mode(0o755));
        *SCRATCH.lock().expect("HARNESS ERROR: lock") = Some(d.clone());
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let n = self.0.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        if n.starts_with("overcheck.") {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

/// Exit status of the check.
pub fn run(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let scratch = Scratch::new();
    let board = Board::new();
    let mut pids = vec![];
    for w in 0..WORKERS {
        let dir = scratch.0.join(format!("w{}", w));
        fs::create_dir_all(&dir).expect("HARNESS ERROR: scratch");
        let res = scratch.0.join(format!("r{}", w));
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                limit_memory();
                let err = scratch.0.join(format!("e{}", w));
                if let Ok(f) = fs::File::create(err) {
                    use std::os::unix::io::AsRawFd;
                    libc::dup2(f.as_raw_fd(), 2);
                }
                let b = board.0 as usize;
                let out = on_small_stack(|| worker(p, o, w, &Board(b as *mut u64), &dir));
                save(&out, &res);
                libc::_exit(if out.fail.is_some() { 1 } else { 0 });
            }
            pids.push(pid);
        }
    }

    // Wait for all of them, or for the first one that fails.
    let mut alive: Vec<bool> = vec![true; WORKERS];
    let mut beats: Vec<(u64, Instant)> = vec![(0, Instant::now()); WORKERS];
    let mut failed: Option<(usize, i32)> = None;
    let mut stalled = None;
    while alive.iter().any(|x| *x) && failed.is_none() && stalled.is_none() {
        std::thread::sleep(Duration::from_millis(3));
        for w in 0..WORKERS {
            if !alive[w] {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            if r == pids[w] {
                alive[w] = false;
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) && failed.is_none() {
                    failed = Some((w, st));
                }
            } else {
                let h = board.get(w).2;
                if h != beats[w].0 {
                    beats[w] = (h, Instant::now());
                } else if beats[w].1.elapsed().as_secs() > STALL_S {
                    stalled = Some(w);
                }
            }
        }
    }
    for w in 0..WORKERS {
        if alive[w] {
            unsafe {
                libc::kill(pids[w], libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(pids[w], &mut st, 0);
            }
        }
    }
    let mut evals = vec![0u64; p.subs.len()];
    let mut nontriv = vec![0u64; p.subs.len()];
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(usize, String)> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fail: Option<(usize, u64, String, bool, usize)> = None;
    for w in 0..WORKERS {
        let t = match fs::read_to_string(scratch.0.join(format!("r{}", w))) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let mut ls = t.split('\n');
        let nums = |l: Option<&str>| -> Vec<u64> {
            l.unwrap_or("").split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect()
        };
        for (k, n) in nums(ls.next()).into_iter().enumerate() {
            evals[k] += n;
        }
        for (k, n) in nums(ls.next()).into_iter().enumerate() {
            nontriv[k] += n;
        }
        let n: usize = ls.next().unwrap_or("0").parse().unwrap_or(0);
        for _ in 0..n {
            let l = ls.next().unwrap_or("");
            if let Some((c, l)) = l.split_once(' ') {
                *labels.entry(l.to_string()).or_insert(0) += c.parse().unwrap_or(0);
            }
        }
        let n: usize = ls.next().unwrap_or("0").parse().unwrap_or(0);
        for _ in 0..n {
            if let Some((k, s)) = ls.next().unwrap_or("").split_once(' ') {
                samples.push((k.parse().unwrap_or(0), s.to_string()));
            }
        }
        if let Some(r) = ls.next().unwrap_or("").strip_prefix("fail ") {
            let mut it = r.splitn(3, ' ');
            let k: usize = it.next().unwrap_or("0").parse().unwrap_or(0);
            let i: u64 = it.next().unwrap_or("0").parse().unwrap_or(0);
            let m = it.next().unwrap_or("").to_string();
            if fail.as_ref().map_or(true, |f| (k, i) < (f.0, f.1)) {
                fail = Some((k, i, m, false, w));
            }
        }
        for h in nums(ls.next()) {
            hashes.insert(h);
        }
    }
    if let (None, Some(w)) = (&fail, stalled) {
        let (k, i, _) = board.get(w);
        fail = Some((k as usize, i, STALLED.into(), true, w));
    }
    if let (None, Some((w, st))) = (&fail, failed) {
        // The worker died.
        let (k, i, _) = board.get(w);
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        let what = match sig {
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGABRT => abort_text(),
            libc::SIGBUS => "SIGBUS",
            libc::SIGILL => "SIGILL",
            libc::SIGFPE => "SIGFPE",
            _ => {
                println!("no answer: a worker ended with status {} in case {} of {}", st, i, p.subs[k as usize].name);
                let e = fs::read_to_string(scratch.0.join(format!("e{}", w))).unwrap_or_default();
                println!("{}", clip(&e, 1000));
                return 2;
            }
        };
        fail = Some((k as usize, i, format!("process crashed: {}", what), true, w));
    }

    let mut code = 0;
    let mut violations = 0;
    if let Some((k, i, msg, crash, w)) = fail {
        if is_harness(&msg) {
            println!("no answer: case {} of {}: {}", i, p.subs[k].name, msg);
            return 2;
        }
        violations = 1;
        code = report(p, o, k, i, &msg, crash, w, &scratch.0);
        if code == 2 {
            return 2;
        }
    }

    // Fewer than all workers report after a failure; the counts are of what was run.
    if let Some(path) = &o.evidence {
        let mut per: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
        for (k, s) in p.subs.iter().enumerate() {
            per.insert(s.name, (evals[k], nontriv[k]));
        }
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            esc(p.id),
            esc(if o.thorough { "thorough" } else { "quick" }),
            o.seed,
            esc(p.level),
            evals.iter().sum::<u64>(),
            hashes.len(),
            esc(p.rule)
        );
        let _ = write!(j, "  \"cases_by_check\": {{");
        for (n, (s, (e, t))) in per.iter().enumerate() {
            let _ = write!(j, "{}{}: {{\"evaluations\": {}, \"nontrivial\": {}}}", if n > 0 { ", " } else { "" }, esc(s), e, t);
        }
        let _ = write!(j, "}},\n  \"classes\": {{");
        for (n, (l, c)) in labels.iter().enumerate() {
            let _ = write!(j, "{}{}: {}", if n > 0 { ", " } else { "" }, esc(l), c);
        }
        let _ = write!(j, "}},\n  \"samples\": [");
        // A few of each check.
        let mut shown: BTreeMap<usize, usize> = BTreeMap::new();
        let mut first = true;
        for (k, s) in &samples {
            let c = shown.entry(*k).or_insert(0);
            if *c >= 3 {
                continue;
            }
            *c += 1;
            let _ = write!(j, "{}\n   {{\"check\": {}, \"case\": {}}}", if first { "" } else { "," }, esc(p.subs[*k].name), s);
            first = false;
        }
        let _ = write!(
            j,
            "\n  ]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            format!("[{}]", p.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", ")),
            t0.elapsed().as_secs_f64(),
            violations
        );
        if let Some(d) = path.parent() {
            let _ = fs::create_dir_all(d);
        }
        if fs::write(path, j).is_err() {
            println!("no answer: cannot write {}", path.display());
            return 2;
        }
    }
    if code == 0 {
        println!(
            "{}: {} cases, {} distinct non-trivial, {:.1} s",
            p.id,
            evals.iter().sum::<u64>(),
            hashes.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn report(p: &Prop, o: &Opts, k: usize, i: u64, msg: &str, crash: bool, w: usize, scratch: &Path) -> i32 {
    let sub = &p.subs[k];
    let sh = Shared::new();
    let dir = scratch.join("shrink");
    let _ = fs::create_dir_all(&dir);
    let _ = std::env::set_current_dir(&dir);
    crate::gen::write_pantry(&dir);
    let first = run_isolated(sub.run, Src::random(case_seed(o.seed, p.id, sub.name, i)), o.thorough, &sh, ALONE_S);
    if is_harness(&first.text()) {
        println!("no answer: case {} of {}: {}", i, sub.name, first.text());
        return 2;
    }
    let mut t = String::new();
    let _ = writeln!(t, "property: {}", p.id);
    let _ = writeln!(t, "check: {}", sub.name);
    let _ = writeln!(t, "seed: {}", o.seed);
    let _ = writeln!(t, "tier: {}", if o.thorough { "thorough" } else { "quick" });
    let message;
    if first.hangs() {
        // Too slow to shrink.
        let tape = sh.recorded();
        message = first.text();
        let _ = writeln!(t, "case: {}", i);
        let _ = writeln!(t, "tape: {}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(t, "message: {}", esc(&message));
        let _ = writeln!(t, "input: {}", esc(&sh.input()));
        println!("case: {}", clip(&sh.input(), 2000));
    } else if first.failed() {
        let tape = sh.recorded();
        let (best, res, input, tries) = shrink(sub.run, tape, o.thorough, &sh, 4000, 60);
        message = if res.failed() { res.text() } else { format!("{} (now and then)", first.text()) };
        let _ = writeln!(t, "case: {}", i);
        let _ = writeln!(t, "shrink_attempts: {}", tries);
        let _ = writeln!(t, "tape: {}", best.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(t, "message: {}", esc(&message));
        let _ = writeln!(t, "input: {}", esc(&input));
        println!("case: {}", clip(&input, 2000));
    } else if msg == STALLED {
        println!("no answer: case {} of {} was slow, but ends on its own", i, sub.name);
        return 2;
    } else {
        // It takes the cases before it, too.
        message = format!("{} (only after the cases before it)", msg);
        let _ = writeln!(t, "case: {}", i);
        let _ = writeln!(t, "history: worker {} of {}{}", w, WORKERS, if crash { ", crash" } else { "" });
        let _ = writeln!(t, "message: {}", esc(&message));
    }
    let _ = fs::create_dir_all(&o.replays);
    let path = o.replays.join(format!("{}-{}.replay", p.id, sub.name));
    if fs::write(&path, t).is_err() {
        println!("no answer: cannot write {}", path.display());
        return 2;
    }
    println!("{}: {}", sub.name, clip(&message, 3000));
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

/// Runs a replay file: exit status 1 if it still fails.
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let t = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).map(|s| s.to_string());
    let (id, check) = (get("property").unwrap_or_default(), get("check").unwrap_or_default());
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 2,
    };
    let k = match p.subs.iter().position(|s| s.name == check) {
        Some(k) => k,
        None => return 2,
    };
    let thorough = get("tier").as_deref() == Some("thorough");
    let scratch = Scratch::new();
    if let Some(tape) = get("tape").or_else(|| if t.contains("tape: ") || t.contains("tape:\n") { Some(String::new()) } else { None }) {
        let tape: Vec<u64> = tape.split(' ').filter_map(|x| x.parse().ok()).collect();
        let sh = Shared::new();
        let _ = std::env::set_current_dir(&scratch.0);
        crate::gen::write_pantry(&scratch.0);
        let r = run_isolated(p.subs[k].run, Src::replay(tape), thorough, &sh, 120);
        println!("case: {}", sh.input());
        println!("{}", r.text());
        return match r {
            Iso::Pass => 0,
            _ => {
                println!("VIOLATION property={} replay={}", id, path);
                1
            }
        };
    }
    // A failure which needs the cases before it: run that worker's share again.
    let seed = get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let o = Opts {
        seed,
        thorough,
        scale: 1.0,
        only_sub: None,
        evidence: None,
        replays: scratch.0.join("replays"),
    };
    run(p, &o)
}
