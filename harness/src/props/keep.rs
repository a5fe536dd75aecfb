//! Properties of what is left behind, and of how memory is used.

use super::files::{fresh_dir, gen_file, incs, make_dirs, Dir, Done, DIRS};
use super::robust::{file_text, random_bytes, FILES};
use super::*;
use crate::alloc::growth;
use num_bigint::BigInt;
use num_rational::BigRational;
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::ReferenceType;
use std::cell::Cell;
use std::fs;
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
    Prop {
        id: "C28",
        level: "exploration",
        rule: "texts (valid, mutated, token soup, with a planted fault), trees of files (valid, broken, cyclic, bytes that are no text) and values built with the API, each read or built, used in every way (getters that fit and that do not, copies, comparisons, display, writes that succeed and fail, reading back) and dropped in a random order; memory, open files, working directory and directory contents are compared before and after. Non-trivial: two containers, an error, or an include",
        assumptions: vec![
            PURE,
            "memory means what the Rust allocator hands out",
            "what is allocated once and for all at first use (up to 9 of 200 further inputs) is not counted",
        ],
        subs: vec![
            sub("texts", 900_000, 18_000_000, c28_texts),
            sub("files", 100_000, 2_000_000, c28_files),
            sub("values", 900_000, 18_000_000, c28_values),
        ],
    },
    Prop {
        id: "C29",
        level: "exploration",
        rule: "values built with and without sharing, read from text, read through references, from other layouts, from their own text and from files; and pairs of values with one difference. Non-trivial: two containers or more than one element",
        assumptions: vec![PURE, "fractions given to the API are reduced (BigRational::new)"],
        subs: vec![
            sub("same", 300_000, 6_000_000, c29_same),
            sub("layouts", 200_000, 4_000_000, c29_layouts),
            sub("changed", 500_000, 10_000_000, c29_changed),
        ],
    },
    Prop {
        id: "C30",
        level: "exploration",
        rule: "any text (valid, mutated, soup, planted faults, random UTF-8 with byte order marks, carriage returns and NUL), as a string, as a file under several spellings of its path, through a pipe (also while signals interrupt the reading), of up to 6 MB, and included by another document as an object, as values and as text. Non-trivial: two tokens or more",
        assumptions: vec![PURE],
        subs: vec![
            sub("load", 300_000, 6_000_000, c30_load),
            sub("include", 200_000, 4_000_000, c30_include),
            sub("values", 200_000, 4_000_000, c30_values),
            sub("bytes", 80_000, 1_600_000, c30_bytes),
            sub("large", 1_500, 30_000, c30_large),
            sub("interrupted", 15_000, 300_000, c30_interrupted),
        ],
    },
    Prop {
        id: "C32",
        level: "exploration",
        rule: "a pool of 2 to 8 values, most of them changed or rebuilt copies of others, and up to 80 operations on them in random order (display, write, compare, look up, take apart, wrap, ask for what is not there, read back, drop and replace), each answer compared with the model and with every earlier answer about the same content; and several threads which ask at once about values they share and make their own. Non-trivial: at least eight operations on a pool with a container",
        assumptions: vec![PURE, "thread interleavings are those the machine happens to produce"],
        subs: vec![
            sub("history", 120_000, 2_400_000, c32_history),
            sub("rebuilt", 250_000, 5_000_000, c32_rebuilt),
            sub("threads", 5_000, 100_000, c32_threads),
        ],
    },
    Prop {
        id: "C31",
        level: "exploration",
        rule: "the texts, trees of files, bytes, pipes, repetitions and values of C02 and C28, read and used in a build in which AddressSanitizer watches every access to memory. Non-trivial: as there",
        assumptions: vec![
            "memory errors are what AddressSanitizer sees: accesses outside of live blocks and stack variables, wrong and double frees",
        ],
        subs: vec![
            sub("texts", 120_000, 2_400_000, c31_texts),
            sub("sizes", 60_000, 1_200_000, c31_sizes),
            sub("files", 30_000, 600_000, c31_files),
            sub("values", 100_000, 2_000_000, c31_values),
            sub("bytes", 30_000, 600_000, c31_bytes),
            sub("odd_files", 30_000, 600_000, c31_odd),
            sub("repeat", 1_500, 30_000, c31_repeat),
        ],
    },
    ]
}

fn harness(e: impl std::fmt::Display) -> String {
    format!("{}{}", HARNESS, e)
}

// --------------------------------------------------------------------------------------------- C28

/// Something to do which should leave nothing behind.
struct Job {
    input: String,
    nontrivial: bool,
    /// Whether there was an error.
    run: Box<dyn Fn() -> bool>,
    dir: Option<Dir>,
}

type Maker = fn(&mut Src, &mut Ctx) -> Result<Job, String>;

fn measure(j: &Job) -> Result<(isize, isize, bool), String> {
    let (r, bytes, blocks) = growth(|| no_panic(|| (j.run)()));
    Ok((bytes, blocks, r?))
}

/// What `f` writes to standard output and error.
fn said<T>(f: impl FnOnce() -> T) -> Result<(T, String), String> {
    use std::io::{Read, Seek, Write};
    use std::os::unix::io::{AsRawFd, FromRawFd};
    thread_local! {
        static FILE: Cell<i32> = Cell::new(-1);
    }
    unsafe {
        if FILE.with(|f| f.get()) < 0 {
            let fd = libc::memfd_create(b"said\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
            ensure!(fd >= 0, "{}memfd", HARNESS);
            FILE.with(|f| f.set(fd));
        }
        let mem = std::mem::ManuallyDrop::new(fs::File::from_raw_fd(FILE.with(|f| f.get())));
        let old = [libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3), libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 3)];
        for fd in [1, 2] {
            libc::dup2(mem.as_raw_fd(), fd);
        }
        let r = f();
        let _ = std::io::stdout().flush();
        for (fd, o) in [(1, old[0]), (2, old[1])] {
            if o >= 0 {
                libc::dup2(o, fd);
                libc::close(o);
            } else {
                libc::close(fd);
            }
        }
        let mut text = String::new();
        if mem.metadata().map_err(harness)?.len() > 0 {
            let mut bytes = vec![];
            (&*mem).rewind().map_err(harness)?;
            (&*mem).read_to_end(&mut bytes).map_err(harness)?;
            text = String::from_utf8_lossy(&bytes).into_owned();
            mem.set_len(0).map_err(harness)?;
            (&*mem).rewind().map_err(harness)?;
        }
        Ok((r, text))
    }
}

thread_local! {
    static WARM: Cell<u64> = Cell::new(0);
}

/// Names of everything in a directory.
fn listing(p: &Path, out: &mut Vec<String>) {
    if let Ok(d) = fs::read_dir(p) {
        for e in d.flatten() {
            let at = e.path().to_string_lossy().into_owned();
            // What is in a folder is listed; what it is itself must stay as it was, except that
            // the file written may change (and with it, the time of its folder).
            use std::os::unix::fs::MetadataExt;
            match fs::symlink_metadata(e.path()) {
                Ok(m) if m.is_dir() => out.push(format!("{} {:o} {}", at, m.mode(), m.ino())),
                Ok(m) if !at.ends_with("/out.over") => out.push(format!("{} {:o} {} {} bytes of {}.{}", at, m.mode(), m.ino(), m.len(), m.mtime(), m.mtime_nsec())),
                _ => out.push(at),
            }
            if e.file_type().map_or(false, |t| t.is_dir()) {
                listing(&e.path(), out);
            }
        }
    }
    out.sort();
}
fn all_files(d: &Option<Dir>) -> Vec<String> {
    let mut v = vec![];
    if let Some(d) = d {
        listing(d.path(), &mut v);
    }
    v
}
fn open_files() -> usize {
    fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// What a process has that is not memory: its environment, its mask for new files, what it does
/// on signals.
fn settings() -> Vec<String> {
    let mut v: Vec<String> = std::env::vars_os().map(|x| format!("{:?}", x)).collect();
    let st = fs::read_to_string("/proc/thread-self/status").unwrap_or_default();
    v.extend(st.lines().filter(|l| ["Umask:", "SigBlk:", "SigIgn:", "SigCgt:"].iter().any(|k| l.starts_with(k))).map(String::from));
    v.sort();
    v
}
fn changed(set: &[String]) -> CaseResult {
    let now = settings();
    match set.iter().filter(|x| !now.contains(x)).chain(now.iter().filter(|x| !set.contains(x))).next() {
        Some(x) => Err(format!("a setting of the process changed: {}", x)),
        None => Ok(()),
    }
}
/// Where the panic hook is (and which one, as it may have no place of its own).
type Hook = dyn Fn(&std::panic::PanicHookInfo<'_>) + Sync + Send;
fn panic_hook() -> *const Hook {
    let h = std::panic::take_hook();
    let at: *const Hook = &*h;
    std::panic::set_hook(h);
    at
}
fn threads() -> usize {
    fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn leaves_nothing(s: &mut Src, ctx: &mut Ctx, which: u64, make: Maker) -> CaseResult {
    let first_hook = panic_hook();
    // What is set up at first use is set up here.
    if WARM.with(|w| w.get()) & (1 << which) == 0 {
        WARM.with(|w| w.set(w.get() | (1 << which)));
        let set = settings();
        for i in 0..40 {
            let j = make(&mut Src::random(mix(&[which, i])), &mut Ctx::default())?;
            let cwd = std::env::current_dir().map_err(harness)?;
            no_panic(|| (j.run)())?;
            std::env::set_current_dir(cwd).map_err(harness)?;
        }
        changed(&set)?;
        ensure!(std::ptr::eq(first_hook, panic_hook()), "the panic hook of the program was replaced");
    }
    let j = make(s, ctx)?;
    ctx.input = j.input.clone();
    publish_input(&ctx.input);
    let files = all_files(&j.dir);
    said(|| ())?;
    let fds = if j.dir.is_some() { open_files() } else { 0 };
    let set = if j.dir.is_some() { settings() } else { vec![] };
    let running = if j.dir.is_some() { threads() } else { 0 };
    let hook = panic_hook();
    let cwd = std::env::current_dir().map_err(harness)?;
    let (r, text) = said(|| measure(&j))?;
    let (bytes, blocks, failed) = r?;
    ensure!(text.is_empty(), "the library writes to standard output or error: {:?}", text);
    ctx.nontrivial = j.nontrivial || failed;
    ctx.label_if(failed, "an error");
    if j.dir.is_some() {
        let now = open_files();
        ensure!(now <= fds, "{} files are open that were not before", now - fds);
        let after = all_files(&j.dir);
        for f in &after {
            ensure!(files.contains(f) || f.ends_with("/out.over"), "there is a new file, or a changed one: {}", f);
        }
        for f in &files {
            ensure!(after.contains(f), "the file {} is gone, or changed", f);
        }
        changed(&set)?;
        // A thread that has been joined may be seen for a moment longer.
        let mut tries = 0;
        while threads() > running && tries < 100 {
            tries += 1;
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        ensure!(std::ptr::eq(hook, panic_hook()), "the panic hook of the program was replaced");
        ensure!(threads() <= running, "{} threads are running that were not before", threads() - running);
    }
    let here = std::env::current_dir();
    if here.as_ref().ok() != Some(&cwd) {
        std::env::set_current_dir(&cwd).map_err(harness)?;
        return Err(format!("the working directory is now {:?}", here));
    }
    if bytes <= 0 && blocks <= 0 {
        return Ok(());
    }
    // Every time the same is done?
    let (again, once_more) = (measure(&j)?, measure(&j)?);
    if (again.0 > 0 || again.1 > 0) && (once_more.0 > 0 || once_more.1 > 0) {
        return Err(format!("{} bytes in {} blocks are kept each time", once_more.0, once_more.1));
    }
    // Or only the first time: again for other inputs?
    ctx.label("kept once");
    let seed = s.bits();
    let mut grew = 0;
    for i in 0..240 {
        let j = make(&mut Src::random(mix(&[seed, i])), &mut Ctx::default())?;
        let (a, b, _) = measure(&j)?;
        if i >= 40 && (a > 0 || b > 0) {
            grew += 1;
        }
    }
    ensure!(grew < 10, "something is kept for each new input: {} bytes in {} blocks here, and for {} of 200 other inputs", bytes, blocks, grew);
    Ok(())
}

/// Uses a value, following the plan, and drops what came of it in an order of the plan.
fn use_value(s: &mut Src, v: &Value, kept: &mut Vec<Value>) {
    if s.below(3) > 0 {
        kept.push(v.clone());
    }
    match s.below(12) {
        0 => {
            let _ = v.get_type().to_string();
        }
        1 => {
            let _ = v.to_string();
        }
        2 => {
            let _ = (v.get_bool().is_ok(), v.get_int().is_ok(), v.get_frac().is_ok(), v.get_str().is_ok());
        }
        3 => {
            let _ = (v.get_arr().map_err(|e| e.to_string()), v.get_tup().map_err(|e| e.to_string()), v.get_obj().map_err(|e| e.to_string()));
        }
        4 => {
            let _ = *v == v.clone();
        }
        5 => {
            let _ = format!("{:?}", v).len();
        }
        6 => kept.push(Value::from(Tup::from_values(vec![v.clone(), Value::Null, v.clone()]))),
        7 => {
            let _ = Arr::from_values(vec![v.clone(), v.clone(), Value::Int(BigInt::from(1)), Value::Bool(true)]).map_err(|e| e.to_string());
        }
        8 => {
            let _ = Obj::from_pairs(vec![Pair("a".into(), v.clone()), Pair("b c".into(), v.clone())], None).map_err(|e| e.to_string());
        }
        9 => {
            if let Ok(o) = Obj::from_pairs(vec![Pair("a".into(), v.clone())], v.get_obj().ok()) {
                kept.push(Value::Obj(o));
            }
        }
        _ => {}
    }
    let few = |s: &mut Src, n: usize| if n <= 6 { (0..n).collect::<Vec<_>>() } else { (0..6).map(|_| s.usize(n)).collect() };
    match v {
        Value::Arr(a) => {
            let _ = (a.get(a.len()).is_err(), a.id(), a.num_references(), a.inner_type());
            for i in few(s, a.len()) {
                if let Ok(x) = a.get(i) {
                    use_value(s, &x, kept);
                }
            }
            a.with_each(|x| drop(x.clone()));
        }
        Value::Tup(a) => {
            let _ = (a.get(a.len()).is_err(), a.id(), a.num_references(), a.inner_type_vec());
            for i in few(s, a.len()) {
                if let Ok(x) = a.get(i) {
                    use_value(s, &x, kept);
                }
            }
            a.with_each(|x| drop(x.clone()));
        }
        Value::Obj(o) => {
            let _ = (o.get("no such field").is_none(), o.get_int("nor this").is_err(), o.id(), o.num_references());
            for i in few(s, o.len()) {
                let Pair(n, _) = &o.pairs_ref()[i];
                if let Some((x, from)) = o.get_with_source(n) {
                    use_value(s, &x, kept);
                    if s.bool() {
                        kept.push(Value::Obj(from));
                    }
                }
                let _ = (o.get_arr(n).is_ok(), o.get_str(n).is_ok(), o.contains(n));
            }
            o.with_each(|_, x| drop(x.clone()));
            if let Some(p) = o.get_parent() {
                use_value(s, &Value::Obj(p), kept);
            }
        }
        _ => {}
    }
}

fn use_obj(s: &mut Src, o: Obj, dir: Option<&str>) {
    let mut kept = vec![];
    use_value(s, &Value::Obj(o.clone()), &mut kept);
    let text = o.write_to_string();
    if s.bool() {
        if let Ok(again) = Obj::from_str(&text) {
            let _ = again == o;
            kept.push(Value::Obj(again));
        }
    }
    if let Some(d) = dir {
        for _ in 0..s.below(3) {
            let p = match s.below(7) {
                0 => format!("{}/out.over", d),
                1 => format!("{}/no/such/dir.over", d),
                2 => d.to_string(),
                3 => format!("{}/taken", d),
                4 => format!("{}/taken/x/", d),
                5 => "/dev/full".to_string(),
                _ => String::new(),
            };
            let _ = o.write_to_file(&p).map_err(|e| e.to_string());
        }
    }
    if s.bool() {
        drop(o);
    } else {
        kept.push(Value::Obj(o));
    }
    while !kept.is_empty() {
        let i = s.usize(kept.len());
        kept.swap_remove(i);
    }
}

fn use_result(plan: &[u64], r: Result<Obj, OverError>, dir: Option<&str>) -> bool {
    let mut s = Src::replay(plan.to_vec());
    match r {
        Ok(o) => {
            use_obj(&mut s, o, dir);
            false
        }
        Err(e) => {
            let _ = (e.to_string(), format!("{:?}", e));
            true
        }
    }
}

fn plan(s: &mut Src) -> Vec<u64> {
    let n = s.length(60);
    (0..n).map(|_| s.below(60)).collect()
}

fn any_text(s: &mut Src, ctx: &mut Ctx) -> String {
    match s.weighted(&[30, 40, 20, 10]) {
        0 => {
            let mut c = Cfg::basic(s);
            with_pantry(s, &mut c);
            ctx.label("valid");
            gen_doc(s, ctx, c, None).0
        }
        1 => {
            ctx.label("mutated");
            super::text::mutated(s, ctx, None)
        }
        2 => {
            ctx.label("soup");
            format!("x: {}", soup(s, 40))
        }
        _ => {
            ctx.label("planted");
            super::text::plant(s, true).0
        }
    }
}

fn text_job(s: &mut Src, ctx: &mut Ctx) -> Result<Job, String> {
    let text = any_text(s, ctx);
    let plan = plan(s);
    let containers = text.chars().filter(|c| "[{(<".contains(*c)).count();
    Ok(Job {
        input: text.clone(),
        nontrivial: containers >= 2,
        run: Box::new(move || use_result(&plan, Obj::from_str(&text), None)),
        dir: None,
    })
}

fn c28_texts(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    leaves_nothing(s, ctx, 0, text_job)
}

fn file_job(s: &mut Src, ctx: &mut Ctx) -> Result<Job, String> {
    let root = fresh_dir();
    let mut log = String::new();
    let path;
    match s.below(4) {
        0 | 1 => {
            // Fine, mostly.
            make_dirs(&root)?;
            let mut done: Vec<Done> = vec![];
            for k in 0..s.range(1, 4) {
                let d = gen_file(s, &root, k, &done, &mut log)?;
                done.push(d);
            }
            let dir = *s.pick(&DIRS);
            let mut c = Cfg::basic(s);
            c.budget = c.budget.min(40);
            c.includes = incs(s, &root, dir, &done);
            let mut g = TG::new(c);
            g.doc(s);
            if s.chance(1, 3) {
                ctx.label("tree with a fault");
                for _ in 0..s.range(1, 2) {
                    mutate_toks(s, &mut g.toks);
                }
            } else {
                ctx.label("tree");
            }
            let st = pick_style(s);
            let mut text = render(s, &g.toks, st);
            if s.chance(1, 24) {
                // A large file, whatever is in it.
                ctx.label("large");
                text.push_str("\n# ");
                text.push_str(&"long ".repeat(s.range(2_000, 60_000)));
            }
            let rel = if dir.is_empty() { "main.over".to_string() } else { format!("{}/main.over", dir) };
            root.write(&rel, text.as_bytes())?;
            log.push_str(&format!("--- {}\n{}", rel, text.get(..20_000).unwrap_or(&text)));
            path = root.str(&rel);
        }
        2 => {
            ctx.label("graph");
            for (i, f) in FILES.iter().enumerate() {
                let t = file_text(s, &root, i);
                root.write(f, t.as_bytes())?;
                log.push_str(&format!("--- {}\n{}\n", f, t));
            }
            path = root.str(FILES[0]);
        }
        _ => {
            ctx.label("bytes");
            let b = random_bytes(s);
            root.write("b.over", &b)?;
            let kind = *s.pick(&["Obj", "Arr", "Tup", "Str"]);
            let at = *s.pick(&["b.over", "b.over", "b.over", ".", "none", "b.over/x"]);
            let text = format!("a: [1] @b: (a a)\nx: <{} \"{}\">\ny: @b", kind, at);
            root.write("m.over", text.as_bytes())?;
            log = format!("{:?} read by {}", String::from_utf8_lossy(&b), text);
            path = root.str(s.pick(&["m.over", "m.over", "m.over", "b.over", ".", "none"]));
        }
    }
    let plan = plan(s);
    fs::create_dir_all(root.path().join("taken")).map_err(harness)?;
    let dir = root.str("");
    let p = path.clone();
    Ok(Job {
        input: format!("{}\n--- {}", log, path),
        nontrivial: log.contains('<'),
        run: Box::new(move || use_result(&plan, Obj::from_file(&p), Some(&dir))),
        dir: Some(root),
    })
}

fn c28_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    leaves_nothing(s, ctx, 1, file_job)
}

fn value_job(s: &mut Src, _ctx: &mut Ctx) -> Result<Job, String> {
    let m = VG::new(s).value(s, 1, None);
    let plan = plan(s);
    let share = s.bool();
    Ok(Job {
        input: show_mv(&m),
        nontrivial: m.size() > 2,
        run: Box::new(move || {
            let mut s = Src::replay(plan.clone());
            let mut b = Builder::default();
            b.share = share;
            let v = b.val(&m).unwrap_or(Value::Null);
            if s.bool() {
                drop(b);
            }
            let mut kept = vec![];
            use_value(&mut s, &v, &mut kept);
            let o = Obj::from_pairs(vec![Pair("v".into(), v)], None).expect("HARNESS ERROR: a valid name");
            use_obj(&mut s, o, None);
            let _ = Type::most_specific(&Type::Tup(vec![Type::Any, Type::Int]), &Type::Tup(vec![Type::Obj, Type::Str]));
            let _ = Value::Frac(BigRational::new(BigInt::from(s.below(9)), BigInt::from(7))) == Value::Null;
            false
        }),
        dir: None,
    })
}

fn c28_values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    leaves_nothing(s, ctx, 2, value_job)
}

// --------------------------------------------------------------------------------------------- C29

/// The ways a value is written, which must agree with each other.
fn written(what: &str, v: &Value) -> Result<(String, Option<String>), String> {
    let t = no_panic(|| v.to_string())?;
    ensure!(t == no_panic(|| v.to_string())?, "{}: displayed twice, it differs: {:?}", what, t);
    let inner = match v {
        Value::Arr(a) => no_panic(|| a.to_string())?,
        Value::Tup(a) => no_panic(|| a.to_string())?,
        Value::Obj(o) => no_panic(|| o.to_string())?,
        _ => t.clone(),
    };
    // Inside, the text may be indented otherwise; on its own it must read the same.
    let whole = match v {
        Value::Obj(o) => {
            let w = no_panic(|| o.write_to_string())?;
            ensure!(w == no_panic(|| o.write_to_string())?, "{}: written twice, it differs: {:?}", what, w);
            Some(w)
        }
        _ => None,
    };
    Ok((format!("{}\u{0}{}", t, inner), whole))
}

fn c29_same(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).value(s, 1, None);
    ctx.input = show_mv(&m);
    publish_input(&ctx.input);
    ctx.nontrivial = m.size() > 2;
    let a = build(&m)?;
    let mut all = vec![("built", a.clone()), ("built without sharing", build_unshared(&m)?)];
    let read = |t: &str| -> Result<Value, String> { parse(t)?.map_err(|e| format!("{:?} is rejected: {}", t, e))?.get("r").ok_or("no field r".into()) };
    all.push(("read", read(&format!("r: {}", plain(&m)))?));
    all.push(("read back", read(&format!("r: {}", no_panic(|| a.to_string())?))?));
    match &m {
        MV::Arr(x) if !x.vals.is_empty() => {
            all.push(("by reference", super::values::refs(&x.vals, '[', ']')?));
            let i = s.usize(x.vals.len() + 1);
            let part = |v: &[MV]| v.iter().map(plain).collect::<Vec<_>>().join(" ");
            all.push(("a sum", read(&format!("r: [{}]+[{}]", part(&x.vals[..i]), part(&x.vals[i..])))?));
        }
        MV::Tup(x) if !x.is_empty() => all.push(("by reference", super::values::refs(x, '(', ')')?)),
        MV::Obj(o) if !m_reserved(o) => {
            let t = no_panic(|| a.get_obj().map(|o| o.write_to_string()))?.map_err(|e| e.to_string())?;
            let o = parse(&t)?.map_err(|e| format!("{:?} is rejected: {}", t, e))?;
            all.push(("loaded", Value::Obj(o)));
        }
        MV::Int(i) => {
            let k = BigInt::from(s.below(1000));
            all.push(("a sum", Value::Int(i - &k + k)));
            all.push(("a sum read", read(&format!("r: {}+1", i - BigInt::from(1)))?));
        }
        MV::Frac(f) => {
            let (n, d) = (f.numer() * BigInt::from(6), f.denom() * BigInt::from(6));
            all.push(("not reduced", Value::Frac(BigRational::new(n.clone(), d.clone()))));
            all.push(("a quotient", read(&format!("r: {}/{}", n, d))?));
        }
        _ => {}
    }
    // How often it is referred to must not matter.
    let held: Vec<Value> = (0..[0, 3, 40, 300][s.usize(4)]).map(|_| a.clone()).collect();
    let parents: Vec<Obj> = match &a {
        Value::Obj(o) => (0..[0, 1, 5, 100][s.usize(4)]).filter_map(|_| o.get_parent()).collect(),
        _ => vec![],
    };
    // One of them inside and beside another one, which must not matter either.
    let holder = Value::from(Tup::from_values(vec![all[0].1.clone(), all[0].1.clone()]));
    let mut first = None;
    for (n, v) in &all {
        let w = written(n, v)?;
        match &first {
            None => first = Some(w),
            Some(f) => ensure!(*f == w, "{}: it is written as {:?}, otherwise as {:?}", n, w, f),
        }
    }
    let twice = Value::from(Tup::from_values(vec![all[1].1.clone(), all[all.len() - 1].1.clone()]));
    ensure!(
        no_panic(|| holder.to_string())? == no_panic(|| twice.to_string())?,
        "a pair of the same instance is written as {:?}, a pair of equal ones as {:?}",
        holder.to_string(),
        twice.to_string()
    );
    drop((held, parents));
    Ok(())
}

fn m_reserved(o: &MObj) -> bool {
    o.pairs.iter().any(|(n, _)| reserved(n))
}

fn c29_layouts(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    with_pantry(s, &mut c);
    let mut g = TG::new(c);
    g.doc(s);
    let (x, y) = super::text::two_layouts(s, &g.toks, false);
    ctx.input = format!("{}\n---\n{}", x, y);
    publish_input(&ctx.input);
    ctx.nontrivial = x != y && g.toks.len() > 2;
    let a = parse(&x)?.map_err(|e| format!("{:?} is rejected: {}", x, e))?;
    let b = parse(&y)?.map_err(|e| format!("{:?} is rejected: {}", y, e))?;
    let w = written("the first", &Value::Obj(a.clone()))?;
    let v = written("the second", &Value::Obj(b))?;
    ensure!(w == v, "two layouts of one document are written as {:?} and {:?}", w, v);
    // And written and read until nothing can change any more.
    let t = w.1.unwrap_or_default();
    let again = parse(&t)?.map_err(|e| format!("what was written is rejected: {:?}: {}", t, e))?;
    ensure!(no_panic(|| again.write_to_string())? == t, "read back, {:?} is written as {:?}", t, again.write_to_string());
    let mut f = build_obj(&reify_obj(&a))?;
    ensure!(no_panic(|| f.write_to_string())? == t, "built anew, {:?} is written as {:?}", t, f.write_to_string());
    if s.chance(1, 4) {
        ctx.label("file");
        let d = fresh_dir();
        let p = d.str("x.over");
        f.write_to_file(&p).map_err(|e| e.to_string())?;
        ensure!(fs::read_to_string(&p).map_err(harness)? == t, "the file has something else than the text {:?}", t);
        f = no_panic(|| Obj::from_file(&p))?.map_err(|e| e.to_string())?;
        ensure!(no_panic(|| f.write_to_string())? == t, "read from its file, {:?} is written as {:?}", t, f.write_to_string());
    }
    Ok(())
}

fn c29_changed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).value(s, 1, None);
    let mut l = "";
    let c = match super::values::change(s, &m, &mut l) {
        Some(c) if !c.same(&m) => c,
        _ => {
            ctx.label("no change");
            return Ok(());
        }
    };
    ctx.input = format!("{}  /  {}", show_mv(&m), show_mv(&c));
    publish_input(&ctx.input);
    ctx.label(l);
    ctx.nontrivial = m.size() > 1;
    let mut b = Builder::default();
    b.share = s.bool();
    let (x, y) = (b.val(&m)?, b.val(&c)?);
    let (a, b) = (written("the first", &x)?, written("the second", &y)?);
    ensure!(a.0 != b.0, "values that differ are displayed alike: {:?}", a.0);
    ensure!(a.1.is_none() || a.1 != b.1, "objects that differ are written alike: {:?}", a.1);
    Ok(())
}

// --------------------------------------------------------------------------------------------- C30

fn some_text(s: &mut Src, ctx: &mut Ctx, deep: bool) -> String {
    if s.chance(1, 8) {
        ctx.label("any UTF-8");
        let mut t = String::from(*s.pick(&["\u{feff}", "", "a: \"", "\r", "a: 1\r", "\0", "a: 1 \u{85}"]));
        t.push_str(&gen_string(s));
        t.push_str(s.pick(&["\r\n", "", "\"", "\r", "\n\r", "\0", "\u{feff}", "\u{1a}"]));
        return t;
    }
    if deep && s.chance(1, 12) {
        ctx.label("about as deep as it may be");
        return deep_text(s);
    }
    any_text(s, ctx)
}

/// Containers nested about as deep as they may be.
fn deep_text(s: &mut Src) -> String {
    let n = s.range(58, 68) as usize;
    let uniform = s.bool();
    let first = s.usize(4);
    let (mut open, mut close) = (String::from("a: "), String::new());
    for _ in 0..n {
        let (o, c) = [("[", "]"), ("(", ")"), ("{a: ", "}"), ("{^: {a: 1} b: (", ")}")][if uniform { first } else { s.weighted(&[3, 3, 3, 1]) }];
        open.push_str(o);
        close.insert_str(0, c);
    }
    open.push_str(s.pick(&["", "1", " ", "\"x\"", "<Str \"zz7\">", "{}", "+1"]));
    open + &close
}

/// Without what only says where.
fn about(e: &OverError) -> String {
    match e {
        OverError::ParseError(m) => m.clone(),
        e => format!("{:?}", e),
    }
}

fn same_result(what: &str, path: &str, a: &Result<Obj, OverError>, b: &Result<Obj, OverError>) -> CaseResult {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            let (p, q) = (reify_obj(x), reify_obj(y));
            ensure!(p.same(&q), "{}: read as {}, the text as {}", what, show_mv(&MV::Obj(q)), show_mv(&MV::Obj(p)));
            Ok(())
        }
        (Err(x), Err(y)) => {
            // The same, and in which file; an included file has its own name.
            let (x, y) = (about(x), about(y));
            ensure!(
                y == x || y == format!("{}: {}", path, x),
                "{}: the error is {:?}, that of the text {:?}",
                what,
                y,
                x
            );
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("{}: rejected ({}), the text is not", what, e)),
        (Err(e), Ok(_)) => Err(format!("{}: accepted, the text is not ({})", what, e)),
    }
}

fn c30_load(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = some_text(s, ctx, true);
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = text.chars().count() >= 3;
    if text.len() < 60_000 && !text.contains('<') && s.chance(1, 30) {
        ctx.label("pipe");
        return c30_pipe(&text);
    }
    let name = if s.chance(1, 12) {
        // Names which mean something elsewhere.
        s.pick(&["-", "-", "--", "-i", "~", "$HOME", "%66", "*", "stdin", "stdout", "null", "file:zz", "zz zz", " zz", "zz ", "zz\n", "@zz", "#", "a: 1", "{}", "CON", "zz\\zz", "0", "1", "2", "&1", "|zz", ">zz", "..."]).to_string()
    } else {
        format!("{}{}", s.pick(&["zz", "zz é", "zz.over", "zz.txt", "zz."]), s.usize(3))
    };
    if !text.contains('<') && s.chance(1, 12) {
        // A directory whose name means something elsewhere.
        ctx.label("odd directory");
        let dir = *s.pick(&["file:", "file:", "http:", "~", "-", "$HOME", "%66", " ", "...", "C:", "zz.over", "@zz", "#", "null"]);
        fs::create_dir_all(dir).map_err(harness)?;
        fs::write(format!("{}/{}", dir, name), &text).map_err(harness)?;
        let path = match s.below(4) {
            0 => format!("{}//{}", dir, name),
            1 => format!("{}///{}", dir, name),
            2 => format!("./{}/./{}", dir, name),
            _ => format!("{}/{}", dir, name),
        };
        let b = no_panic(|| Obj::from_file(&path));
        let _ = fs::remove_dir_all(dir);
        return same_result(&path, &path, &parse(&text)?, &b?);
    }
    // In the working directory, where what the text includes is.
    fs::write(&name, &text).map_err(harness)?;
    let cwd = std::env::current_dir().map_err(harness)?;
    let path = match s.below(40) {
        0 => "./".repeat(s.near(2, 1_500) as usize) + &name,
        1 => format!("{}/{}{}", cwd.display(), "pan/../".repeat(s.range(1, 300)), name),
        2..=8 => format!("./{}", name),
        9..=16 => format!("pan/../{}", name),
        17..=24 => format!("{}/{}", cwd.display(), name),
        _ => name.clone(),
    };
    let a = parse(&text)?;
    let b = no_panic(|| Obj::from_file(&path));
    let _ = fs::remove_file(&name);
    let b = b?;
    ctx.label(if a.is_ok() { "accepted" } else { "rejected" });
    if path != name && text.contains('<') && a.is_err() {
        // An included file is named as it was found.
        ensure!(b.is_err(), "{}: accepted, the text is not", path);
        return Ok(());
    }
    same_result(&path, &path, &a, &b)?;
    if let (Err(x), false) = (&b, text.contains('<')) {
        ensure!(about(x).starts_with(&format!("{}: ", path)), "the error does not name the file {:?}: {}", path, about(x));
    }
    Ok(())
}

/// Through a pipe, which does not say how long it is.
fn c30_pipe(text: &str) -> CaseResult {
    use std::io::Write;
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let mut fds = [0; 2];
    ensure!(unsafe { libc::pipe(fds.as_mut_ptr()) } == 0, "{}pipe", HARNESS);
    let (r, mut w) = unsafe { (fs::File::from_raw_fd(fds[0]), fs::File::from_raw_fd(fds[1])) };
    let path = format!("/proc/self/fd/{}", r.as_raw_fd());
    let b = if text.len() < 60_000 {
        w.write_all(text.as_bytes()).map_err(harness)?;
        drop(w);
        no_panic(|| Obj::from_file(&path))?
    } else {
        // More than the pipe holds.
        std::thread::scope(|t| {
            t.spawn(move || {
                let _ = w.write_all(text.as_bytes());
            });
            let b = no_panic(|| Obj::from_file(&path));
            drop(r);
            b
        })?
    };
    same_result("through a pipe", &path, &parse(text)?, &b)
}

/// Through a pipe, while signals come.
fn c30_interrupted(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::io::Write;
    use std::os::unix::io::{AsRawFd, FromRawFd};
    // (An include would be relative to /proc/self/fd.)
    let text = some_text(s, ctx, false).replace('<', "[");
    ctx.input = text.clone();
    publish_input(&text);
    let mut fds = [0; 2];
    ensure!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "{}pipe", HARNESS);
    let (r, mut w) = unsafe { (fs::File::from_raw_fd(fds[0]), fs::File::from_raw_fd(fds[1])) };
    let path = format!("/proc/self/fd/{}", r.as_raw_fd());
    let pieces: Vec<(usize, bool)> = (0..s.range(1, 4)).map(|_| (s.usize(text.len() + 1), s.chance(3, 4))).collect();
    let last = s.bool();
    let me = super::files::Kick::me();
    let kicked = std::sync::atomic::AtomicUsize::new(0);
    let b = std::thread::scope(|t| {
        let (kicked, text) = (&kicked, &text);
        t.spawn(move || {
            let mut rest = text.as_bytes();
            for (n, kick) in pieces {
                let (a, b) = rest.split_at(n.min(rest.len()));
                // (If the reader is gone, the result tells.)
                if w.write_all(a).is_err() {
                    return;
                }
                rest = b;
                if kick && me.kick() {
                    kicked.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            }
            let _ = w.write_all(rest);
            if last && me.kick() {
                kicked.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
        });
        let b = no_panic(|| Obj::from_file(&path));
        drop(r);
        b
    })?;
    ctx.nontrivial = kicked.into_inner() > 0;
    same_result("through a pipe, with signals", &path, &parse(&text)?, &b)
}

/// What is no text is not read as one, whatever text it may be in another encoding.
fn c30_bytes(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = if s.bool() { some_text(s, ctx, false) } else { format!("a: 1 {}: \"{}\"", gen_name(s), gen_char(s)) };
    let bytes: Vec<u8> = match s.below(6) {
        0 => super::robust::random_bytes(s),
        1 => {
            let le = s.bool();
            let bom = if s.chance(3, 4) { "\u{feff}" } else { "" };
            format!("{}{}", bom, text).encode_utf16().flat_map(|u| if le { u.to_le_bytes() } else { u.to_be_bytes() }).collect()
        }
        2 => text.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { 0xe9 }).collect(),
        3 => {
            let mut b = text.clone().into_bytes();
            let i = s.usize(b.len() + 1);
            // Cut, surrogates, overlong forms, beyond Unicode, stray.
            let bad: &[u8] = *s.pick(&[
                &[0xff][..],
                &[0x80],
                &[0xed, 0xa0, 0x80],
                &[0xed, 0xb0, 0x80],
                &[0xc0, 0x80],
                &[0xc1, 0xbf],
                &[0xe0, 0x80, 0xa0],
                &[0xf4, 0x90, 0x80, 0x80],
                &[0xf8, 0x88, 0x80, 0x80, 0x80],
                &[0xe6, 0xbc],
                &[0xf0, 0x9f, 0x98],
                &[0xc3],
                &[0xfe],
            ]);
            b.splice(i..i, bad.iter().copied());
            b
        }
        4 => {
            let mut b = text.clone().into_bytes();
            b.push(*s.pick(&[0xff, 0xc3, 0xe2, 0x80, 0x1a]));
            b
        }
        _ => {
            let mut b = vec![0xff, 0xfe];
            b.extend(text.bytes());
            b
        }
    };
    ctx.input = format!("{:?}", String::from_utf8_lossy(&bytes));
    publish_input(&ctx.input);
    fs::write("zz8", &bytes).map_err(harness)?;
    let a = no_panic(|| Obj::from_file("zz8"));
    let kind = *s.pick(&["", "Obj ", "Str ", "Arr ", "Tup "]);
    let b = no_panic(|| Obj::from_str(&format!("x: <{}\"zz8\">", kind)));
    let _ = fs::remove_file("zz8");
    let (a, b) = (a?, b?);
    match std::str::from_utf8(&bytes) {
        Ok(t) => {
            ctx.label("text after all");
            if kind == "Str " {
                ensure!(b.map_err(|e| e.to_string())?.get_str("x").map_err(|e| e.to_string())? == t, "included as Str, the text is another");
            }
            same_result("zz8", "zz8", &parse(t)?, &a)
        }
        Err(_) => {
            ctx.nontrivial = true;
            ensure!(a.is_err(), "a file that is no text is loaded as {}", show_mv(&MV::Obj(reify_obj(a.as_ref().unwrap()))));
            ensure!(b.is_err(), "a file that is no text can be included ({:?})", kind);
            Ok(())
        }
    }
}
/// Texts of many sizes, around those which buffers have.
fn c30_large(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = match s.weighted(&[30, 30, 20]) {
        0 => s.near(1_000, 6 << 20) as usize,
        1 => (1usize << s.range(12, 22)) + s.usize(5) - 2,
        _ => s.range(60_000, 3_000_000),
    };
    let (a, b) = (gen_name(s), gen_string(s));
    let (b, fault) = (quote(s, &b), s.chance(1, 4));
    let head = format!("{}: {} ", if reserved(&a) { "a" } else { &a }, b);
    let tail = if fault { " zz_y: @" } else { " zz_z: [1 2]" };
    let fill = size.saturating_sub(head.len() + tail.len());
    let text = match s.below(5) {
        0 => format!("{}{}{}", head, " ".repeat(fill), tail),
        1 => format!("{}#{}\n{}", head, "c".repeat(fill.saturating_sub(2)), tail),
        2 => format!("{}zz_s: \"{}\"{}", head, "x".repeat(fill.saturating_sub(8)), tail),
        // Characters of several bytes, so that some lie across the end of any buffer.
        3 => format!("{}zz_s: \"{}{}\"{}", head, "y".repeat(s.usize(4)), s.pick(&["é", "漢", "😀"]).repeat(fill.saturating_sub(11) / 4), tail),
        _ => format!("{}zz_s: [{}]{}", head, "1234567 ".repeat(fill / 8), tail),
    };
    ctx.input = format!("{}... {} bytes ...{}", head, text.len(), tail);
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    ctx.label(if text.len() > 1 << 20 { "more than a MB" } else { "up to a MB" });
    let want = parse(&text)?;
    ensure!(want.is_err() == fault || reserved(&a), "{}", if fault { "accepted" } else { "rejected" });
    let n = *s.pick(&[0, 1, 2]);
    if n == 0 {
        ctx.label("pipe");
        return c30_pipe(&text);
    }
    fs::write("zz9", &text).map_err(harness)?;
    let (x, y) = if n == 1 {
        (no_panic(|| Obj::from_file("zz9")), None)
    } else {
        (
            no_panic(|| Obj::from_str("x: <\"zz9\">").and_then(|o| o.get_obj("x"))),
            Some(no_panic(|| Obj::from_str("x: <Str \"zz9\">").and_then(|o| o.get_str("x")))),
        )
    };
    let _ = fs::remove_file("zz9");
    if let Some(y) = y {
        let y = y?.map_err(|e| e.to_string())?;
        ensure!(y == text, "included as Str, the text is another: {} bytes, not {}", y.len(), text.len());
    }
    same_result("zz9", "zz9", &want, &x?)
}

fn c30_include(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = some_text(s, ctx, false);
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = text.chars().count() >= 3;
    let a = parse(&text)?;
    ctx.label(if a.is_ok() { "accepted" } else { "rejected" });
    if a.as_ref().map_or(false, |o| MV::Obj(reify_obj(o)).nesting() > 60) {
        ctx.label("too deep to include");
        return Ok(());
    }
    fs::write("zz7", &text).map_err(harness)?;
    let r = no_panic(|| Obj::from_str("g: [] x: <Str \"zz7\"> y: 1").and_then(|o| o.get_str("x")));
    let (pre, post) = *s.pick(&[("x: <\"", "\">"), ("x: < Obj \"", "\" >"), ("@g: 1 z: ({^: <\"", "\">}) x: <\"zz7\">"), ("@x: <\"./", "\"> x: @x"), ("x: [<\"", "\">]")]);
    let outer = format!("{}zz7{}", pre, post);
    let b = no_panic(|| Obj::from_str(&outer));
    let _ = fs::remove_file("zz7");
    ensure!(r?.map_err(|e| e.to_string())? == text, "included as Str, the text is another");
    let b = b?.and_then(|o| match o.get("x") {
        Some(Value::Arr(v)) => v.get(0)?.get_obj(),
        Some(v) => v.get_obj(),
        None => Err(OverError::FieldNotFound("x".into())),
    });
    // Only the included file's name may be added.
    if outer.contains("./zz7") && text.contains('<') && a.is_err() {
        // A file it includes is named as it was found.
        ensure!(b.is_err(), "{}: accepted, the text is not", outer);
        return Ok(());
    }
    let path = if outer.contains("./zz7") { "./zz7" } else { "zz7" };
    same_result(&outer, path, &a, &b)
}

/// A list of values in a file, and in brackets.
fn c30_values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.budget = c.budget.min(60);
    with_pantry(s, &mut c);
    let t = gen_type(s, 2);
    let one_type = s.bool();
    let mut g = TG::new(c);
    let n = s.length(8);
    for i in 0..n {
        let ws = if i == 0 { Ws::Opt } else { Ws::Req };
        g.value(s, ws, &vec![], 1, if one_type { Some(&t) } else { None });
    }
    let broken = s.bool();
    if broken {
        for _ in 0..s.range(1, 2) {
            mutate_toks(s, &mut g.toks);
        }
    }
    let st = pick_style(s);
    let list = render(s, &g.toks, st);
    ctx.input = list.clone();
    publish_input(&list);
    ctx.nontrivial = n >= 2;
    fs::write("zz8", &list).map_err(harness)?;
    let mut r = vec![];
    for (k, a, b) in [("Arr", '[', ']'), ("Tup", '(', ')')] {
        let file = no_panic(|| Obj::from_str(&format!("x: <{} \"zz8\">", k)));
        let inline = no_panic(|| Obj::from_str(&format!("x: {}{}\n{}", a, list, b)));
        r.push((k, file, inline));
    }
    let _ = fs::remove_file("zz8");
    for (k, file, inline) in r {
        match (file?, inline?) {
            (Ok(x), Ok(y)) => {
                ctx.label("accepted");
                let (p, q) = (reify_obj(&x), reify_obj(&y));
                ensure!(p.same(&q), "as a file of {}: {}, in brackets: {}", k, show_mv(&MV::Obj(p)), show_mv(&MV::Obj(q)));
            }
            (Err(_), Err(_)) => ctx.label("rejected"),
            (Ok(_), Err(e)) => return Err(format!("as a file of {} it is accepted, in brackets it is not: {}", k, e)),
            // A bracket in it can close the one around it.
            (Err(e), Ok(_)) => ensure!(broken, "as a file of {} it is rejected ({}), in brackets it is not", k, e),
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C31

/// Whether AddressSanitizer watches this process: build.sh says so, and it knows a freed block.
#[cfg(overcheck_asan)]
pub fn watched() -> bool {
    extern "C" {
        fn __asan_address_is_poisoned(p: *const u8) -> i32;
    }
    let b = std::hint::black_box(Box::new([1u8; 64]));
    let p = b.as_ptr();
    drop(b);
    unsafe { __asan_address_is_poisoned(p) != 0 }
}
#[cfg(not(overcheck_asan))]
pub fn watched() -> bool {
    false
}

fn watch(s: &mut Src, ctx: &mut Ctx, make: Maker) -> CaseResult {
    ensure!(watched(), "{}nothing watches the memory", HARNESS);
    let j = make(s, ctx)?;
    ctx.input = j.input.clone();
    publish_input(&ctx.input);
    let failed = no_panic(|| (j.run)())?;
    ctx.nontrivial = j.nontrivial || failed;
    ctx.label_if(failed, "an error");
    Ok(())
}

fn c31_texts(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    watch(s, ctx, text_job)
}
fn c31_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    watch(s, ctx, file_job)
}
fn c31_values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    watch(s, ctx, value_job)
}
fn c31_bytes(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ensure!(watched(), "{}nothing watches the memory", HARNESS);
    super::robust::c02_bytes(s, ctx)
}
fn c31_odd(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ensure!(watched(), "{}nothing watches the memory", HARNESS);
    super::robust::c02_odd(s, ctx)
}
fn c31_repeat(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ensure!(watched(), "{}nothing watches the memory", HARNESS);
    super::robust::c02_repeat(s, ctx)
}

/// Texts of every size around those at which buffers grow, of characters of every width, from
/// strings, files and included files.
fn c31_sizes(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ensure!(watched(), "{}nothing watches the memory", HARNESS);
    let unit = *s.pick(&["a", "é", "漢", "𝒳", " ", "\n", "1", "\\n", "\r\n"]);
    let top = [20, 70, 300, 5_000, 70_000][s.weighted(&[30, 30, 20, 15, 5])];
    let want = match s.below(3) {
        0 => s.usize(top),
        _ => ((1usize << s.range(2, 16)).min(top) + s.usize(7)).saturating_sub(3),
    };
    let (pre, post) = *s.pick(&[("a: \"", "\""), ("# ", "\na: 1"), ("a: \"", ""), ("", ""), ("", "a: 1"), ("a: 1", ""), ("", ": 1"), ("a: ", ""), ("\u{feff}", "a: 1"), ("a: [1 \"", "\"]")]);
    let k = want.saturating_sub(pre.len() + post.len()) / unit.len();
    let mut text = format!("{}{}{}", pre, unit.repeat(k), post);
    // A byte more or less.
    text.push_str(s.pick(&["", " ", "\n", "  ", "é", "#", "\r", "\\", "\"", "@", "<", "'", ".", "-", "\u{0}", "😀", "\r\n", "a", "}"]));
    ctx.input = format!("{:?} {:?}*{} {:?}", pre, unit, k, post);
    publish_input(&ctx.input);
    ctx.nontrivial = text.len() > 8;
    let how = s.usize(5);
    let plan = plan(s);
    if how == 0 {
        use_result(&plan, no_panic(|| Obj::from_str(&text))?, None);
        return Ok(());
    }
    fs::write("zz9", &text).map_err(harness)?;
    let kind = *s.pick(&["Obj", "Arr", "Tup", "Str"]);
    let r = if how == 1 { no_panic(|| Obj::from_str(&format!("x: <{} \"zz9\"> y: x", kind)))? } else { no_panic(|| Obj::from_file("zz9"))? };
    use_result(&plan, r, None);
    Ok(())
}

// --------------------------------------------------------------------------------------------- C32

/// All that one can ask about a value without changing anything, as text.
fn answers(v: &Value) -> String {
    let e = |r: Result<(), OverError>| r.err().map_or(String::new(), |e| format!("{} {:?}", e, e));
    let mut t = format!(
        "{} | {} | {}{}{}{}{}{}{}",
        v,
        v.get_type(),
        e(v.get_bool().map(drop)),
        e(v.get_int().map(drop)),
        e(v.get_frac().map(drop)),
        e(v.get_str().map(drop)),
        e(v.get_arr().map(drop)),
        e(v.get_tup().map(drop)),
        e(v.get_obj().map(drop))
    );
    match v {
        Value::Arr(a) => t.push_str(&format!(" | {} {} {}", a, a.len(), e(a.get(a.len()).map(drop)))),
        Value::Tup(a) => t.push_str(&format!(" | {} {} {}", a, a.len(), e(a.get(a.len()).map(drop)))),
        Value::Obj(o) => {
            t.push_str(&format!(" | {} {} {} {}", o, o.write_to_string(), o.len(), o.has_parent()));
            t.push_str(&e(o.get_int("no such").map(drop)));
            for Pair(n, x) in o.iter().take(4) {
                t.push_str(&format!(" {} {:?} {}", n, o.get(n).as_ref() == Some(x), e(o.get_bool(n).map(drop))));
            }
        }
        _ => {}
    }
    t
}

#[derive(Clone)]
struct Entry {
    m: MV,
    v: Value,
}
/// Made in one of the ways there are.
fn made(s: &mut Src, m: MV) -> Result<Entry, String> {
    let v = match s.below(3) {
        0 => build(&m)?,
        1 => build_unshared(&m)?,
        _ => parse(&format!("r: {}", plain(&m)))?.map_err(|e| format!("rejected: {}", e))?.get("r").ok_or("no field r")?,
    };
    Ok(Entry { m, v })
}
fn pool(s: &mut Src) -> Result<Vec<Entry>, String> {
    let mut g = VG::new(s);
    // Only such as can be written and read.
    let m = g.value(s, 1, None);
    let mut p = vec![made(s, m)?];
    for _ in 0..s.range(1, 7) {
        let from = s.pick(&p).m.clone();
        let m = other(s, from);
        p.push(made(s, m)?);
    }
    Ok(p)
}
fn other(s: &mut Src, m: MV) -> MV {
    match s.below(8) {
        0 | 1 => m,
        2 => VG::new(s).value(s, 2, None),
        3 => MV::tup(vec![m.clone(), MV::Null, m]),
        4 => MV::obj(vec![("a".into(), m.clone())], if let MV::Obj(o) = &m { Some(o.clone()) } else { None }),
        _ => super::values::change(s, &m, &mut "").unwrap_or(m),
    }
}
/// A part of it, anywhere.
fn part(s: &mut Src, e: &Entry) -> Result<Entry, String> {
    let mut e = e.clone();
    for _ in 0..s.range(1, 4) {
        let next = match (&e.m, &e.v) {
            (MV::Arr(m), Value::Arr(v)) if !m.vals.is_empty() => {
                let i = s.usize(m.vals.len());
                Entry { m: m.vals[i].clone(), v: v.get(i).map_err(|e| e.to_string())? }
            }
            (MV::Tup(m), Value::Tup(v)) if !m.is_empty() => {
                let i = s.usize(m.len());
                Entry { m: m[i].clone(), v: v.get(i).map_err(|e| e.to_string())? }
            }
            (MV::Obj(m), Value::Obj(v)) => match (&m.parent, s.usize(m.pairs.len() + 1)) {
                (Some(p), i) if i == m.pairs.len() => Entry { m: MV::Obj(p.clone()), v: Value::Obj(v.get_parent().ok_or("no parent")?) },
                (None, i) if i == m.pairs.len() => break,
                (_, i) => Entry { m: m.pairs[i].1.clone(), v: v.get(&m.pairs[i].0).ok_or("a field is missing")? },
            },
            _ => break,
        };
        e = next;
    }
    Ok(e)
}

fn c32_history(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut p = pool(s)?;
    let mut log: Vec<String> = p.iter().map(|e| show_mv(&e.m)).collect();
    ctx.input = log.join("\n");
    let mut seen: std::collections::HashMap<String, String> = Default::default();
    let mut ask = |e: &Entry, what: &str| -> CaseResult {
        let key = plain(&e.m);
        let now = no_panic(|| answers(&e.v))?;
        let first = seen.entry(key).or_insert_with(|| now.clone());
        ensure!(*first == now, "{}: it answers {:?}, but {:?} before", what, now, first);
        Ok(())
    };
    let n = s.range(4, 80);
    let mut held: Vec<Value> = vec![];
    let mut done = 0;
    for _ in 0..n {
        let i = s.usize(p.len());
        let k = s.below(10);
        log.push(format!("{} {}", k, i));
        ctx.input = log.join("\n");
        match k {
            0 | 1 => ask(&p[i], "asked again")?,
            2 => {
                let j = s.usize(p.len());
                let same = p[i].m.same(&p[j].m);
                // The order of fields is left open.
                if same || !super::values::same_unordered(&p[i].m, &p[j].m) {
                    let (x, y) = (&p[i].v, &p[j].v);
                    let got = no_panic(|| (x == y, y == x))?;
                    ensure!(got == (same, same), "equal is {:?}, expected {}: {} and {}", got, same, show_mv(&p[i].m), show_mv(&p[j].m));
                }
            }
            3 => cmp_val(&p[i].m, &p[i].v)?,
            4 => {
                let e = part(s, &p[i])?;
                ask(&e, "a part")?;
                cmp_val(&e.m, &e.v)?;
                if s.chance(1, 3) {
                    p.push(e);
                }
            }
            5 => {
                // Something else, perhaps in the same place of memory.
                let m = other(s, p[i].m.clone());
                log.push(format!("becomes {}", show_mv(&m)));
                p.remove(i);
                let e = made(s, m)?;
                p.insert(i, e);
                ask(&p[i], "made anew")?;
            }
            6 => {
                let t = no_panic(|| format!("r: {}", p[i].v))?;
                let r = parse(&t)?.map_err(|e| format!("what is displayed is rejected: {}: {}", e, t))?;
                let e = Entry { m: p[i].m.clone(), v: r.get("r").ok_or("no field r")? };
                ask(&e, "read back")?;
                cmp_val(&e.m, &e.v)?;
                if s.bool() {
                    p[i] = e;
                }
            }
            7 => {
                let e = Entry { m: MV::tup(vec![p[i].m.clone(), MV::Null]), v: Tup::from_values(vec![p[i].v.clone(), Value::Null]).into() };
                ask(&e, "wrapped")?;
            }
            8 => {
                if let (MV::Obj(m), Value::Obj(o)) = (&p[i].m, &p[i].v) {
                    let names: Vec<String> = (0..3).map(|_| gen_name(s)).chain(m.pairs.iter().take(4).map(|x| x.0.clone())).collect();
                    for n in &names {
                        match (m.lookup(n), no_panic(|| o.get(n))?) {
                            (Some((m, _)), Some(v)) => cmp_val(m, &v)?,
                            (None, None) => {}
                            (m, v) => return Err(format!("field {} is {:?}, expected {:?}", n, v, m)),
                        }
                    }
                }
            }
            _ => {
                // Things that fail.
                let bad = format!("r: {} x: ]", plain(&p[i].m));
                ensure!(parse(&bad)?.is_err(), "a stray bracket is accepted");
                let _ = no_panic(|| Arr::from_values(vec![p[i].v.clone(), Value::Null, Value::Bool(true)]).map_err(|e| e.to_string()))?;
                let _ = no_panic(|| Obj::from_pairs(vec![Pair("".into(), p[i].v.clone())], None).map_err(|e| e.to_string()))?;
                // And the same value held in many places, for a while.
                if s.chance(1, 4) {
                    let top = [8, 80, 600][s.usize(3)];
                    held = (0..s.usize(top)).map(|_| p[i].v.clone()).collect();
                    ask(&p[i], "held often")?;
                    let e = made(s, p[i].m.clone())?;
                    ensure!(no_panic(|| p[i].v == e.v && e.v == p[i].v)?, "a value held {} times is unequal to one made like it", held.len());
                }
            }
        }
        done += 1;
    }
    ctx.nontrivial = done >= 8 && p.iter().any(|e| e.m.nesting() > 0);
    for e in &p {
        ask(e, "at the end")?;
        cmp_val(&e.m, &e.v)?;
    }
    Ok(())
}

/// Containers alike, built and dropped one after the other (so, where the last one was in memory):
/// each is asked a few things, which those before it were asked as well.
fn c32_rebuilt(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let all = ["a", "b", "c", "d", "e", "f"];
    let names: Vec<&str> = all[..s.range(2, 6)].to_vec();
    let size = s.range(1, names.len());
    let kind = s.below(4);
    let mut keep: Vec<(MV, Value)> = vec![];
    let mut log = String::new();
    let n = s.range(4, 40);
    let val = |s: &mut Src, k: u64| match k % 4 {
        0 => MV::Int(BigInt::from(s.below(6))),
        1 => MV::Str((*s.pick(&["", "a", "b", "ab"])).into()),
        2 => MV::Bool(s.bool()),
        _ => MV::tup(vec![MV::Int(BigInt::from(s.below(3)))]),
    };
    for _ in 0..n {
        let len = if s.chance(1, 6) { s.usize(size + 1) } else { size };
        let k = s.below(4);
        let m = match kind {
            0 | 1 => {
                let mut left = names.clone();
                let mut pairs = vec![];
                for i in 0..len {
                    let f = left.remove(s.usize(left.len()));
                    let mixed = if s.bool() { k } else { k + i as u64 };
                    pairs.push((f.to_string(), val(s, mixed)));
                }
                let parent = if kind == 0 || s.bool() {
                    None
                } else {
                    let f = s.pick(&names).to_string();
                    let v = val(s, k);
                    match MV::obj(vec![(f, v)], None) {
                        MV::Obj(o) => Some(o),
                        _ => None,
                    }
                };
                MV::obj(pairs, parent)
            }
            2 => {
                let vs: Vec<MV> = (0..len).map(|_| val(s, k)).collect();
                MV::arr(vs).ok_or(format!("{}mixed", HARNESS))?
            }
            _ => {
                let vs: Vec<MV> = (0..len).map(|i| val(s, k + i as u64)).collect();
                MV::tup(vs)
            }
        };
        log.push_str(&show_mv(&m));
        log.push('\n');
        ctx.input = log.clone();
        let v = build(&m)?;
        for _ in 0..s.range(1, 4) {
            let q = s.below(9);
            let f = *s.pick(&names);
            let i = s.usize(size + 1);
            let bad = |got: String| format!("asked {} (name {}, index {}): {} for {}", q, f, i, got, show_mv(&m));
            match (&m, &v) {
                (MV::Obj(o), Value::Obj(x)) => {
                    let own = o.pairs.iter().any(|p| p.0 == f);
                    match q {
                        0 => match (o.lookup(f), no_panic(|| x.get(f))?) {
                            (Some((m, _)), Some(v)) => cmp_val(m, &v)?,
                            (None, None) => {}
                            (_, v) => return Err(bad(format!("{:?}", v))),
                        },
                        1 => ensure!(x.contains(f) == own, "{}", bad("contains".into())),
                        2 => ensure!(x.len() == o.pairs.len() && x.is_empty() == o.pairs.is_empty(), "{}", bad(x.len().to_string())),
                        3 => {
                            let got = no_panic(|| x.get_with_source(f))?;
                            match (o.lookup(f), got) {
                                (Some((m, _)), Some((v, from))) => {
                                    cmp_val(m, &v)?;
                                    ensure!(from.contains(f), "{}", bad("the object it is said to come from has no such field".into()));
                                }
                                (None, None) => {}
                                (_, v) => return Err(bad(format!("{:?}", v))),
                            }
                        }
                        4 => {
                            let got = no_panic(|| x.get_int(f))?;
                            match (o.lookup(f), got) {
                                (Some((MV::Int(m), _)), Ok(v)) => ensure!(*m == v, "{}", bad(v.to_string())),
                                (Some((MV::Int(_), _)), Err(e)) => return Err(bad(e.to_string())),
                                (_, Ok(v)) => return Err(bad(v.to_string())),
                                _ => {}
                            }
                        }
                        5 => ensure!(x.iter().map(|p| p.0.clone()).eq(o.pairs.iter().map(|p| p.0.clone())), "{}", bad("names".into())),
                        6 => ensure!(x.has_parent() == o.parent.is_some() && x.get_parent().is_some() == o.parent.is_some(), "{}", bad("parent".into())),
                        _ => {}
                    }
                }
                (MV::Arr(o), Value::Arr(x)) => match q {
                    0..=2 => match (o.vals.get(i), no_panic(|| x.get(i))?) {
                        (Some(m), Ok(v)) => cmp_val(m, &v)?,
                        (None, Err(_)) => {}
                        (_, v) => return Err(bad(format!("{:?}", v))),
                    },
                    3 => ensure!(x.len() == o.vals.len(), "{}", bad(x.len().to_string())),
                    4 | 5 => ensure!(MT::from_over(&x.inner_type()) == o.t, "{}", bad(x.inner_type().to_string())),
                    _ => {}
                },
                (MV::Tup(o), Value::Tup(x)) => match q {
                    0..=2 => match (o.get(i), no_panic(|| x.get(i))?) {
                        (Some(m), Ok(v)) => cmp_val(m, &v)?,
                        (None, Err(_)) => {}
                        (_, v) => return Err(bad(format!("{:?}", v))),
                    },
                    3 => ensure!(x.len() == o.len(), "{}", bad(x.len().to_string())),
                    4 | 5 => ensure!(x.inner_type_vec().len() == o.len(), "{}", bad("types".into())),
                    _ => {}
                },
                _ => return Err(bad("another kind".into())),
            }
            match q {
                6 => ensure!(MT::from_over(&v.get_type()) == m.ty(), "{}", bad(v.get_type().to_string())),
                7 => {
                    let t = no_panic(|| format!("r: {}", v))?;
                    let r = parse(&t)?.map_err(|e| bad(format!("what is displayed is rejected: {}: {}", e, t)))?;
                    cmp_val(&m, &r.get("r").ok_or("no field r")?)?;
                }
                8 => {
                    if let Some((km, kv)) = keep.last() {
                        let same = km.same(&m);
                        if same || !super::values::same_unordered(km, &m) {
                            ensure!(no_panic(|| (*kv == v, v == *kv))? == (same, same), "{}", bad(format!("equality with {}", show_mv(km))));
                        }
                    }
                }
                _ => {}
            }
        }
        if s.chance(1, 5) {
            keep.push((m, v));
        }
        if s.chance(1, 6) {
            keep.clear();
        }
    }
    ctx.nontrivial = size > 1 && n >= 6;
    for (m, v) in &keep {
        cmp_val(m, v)?;
    }
    Ok(())
}

fn c32_threads(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut p = pool(s)?;
    for _ in 0..s.usize(4) {
        let i = s.usize(p.len());
        let e = part(s, &p[i])?;
        p.push(e);
    }
    ctx.input = p.iter().map(|e| show_mv(&e.m)).collect::<Vec<_>>().join("\n");
    publish_input(&ctx.input);
    ctx.nontrivial = p.iter().any(|e| e.m.nesting() > 0);
    // What each answers when it is asked alone.
    struct Known {
        v: Value,
        text: String,
        plain: String,
        wrapped: String,
        equal: Vec<Option<bool>>,
    }
    let mut known = vec![];
    for e in &p {
        let wrap = Value::from(Tup::from_values(vec![e.v.clone(), Value::Null]));
        known.push(Known {
            v: e.v.clone(),
            text: no_panic(|| answers(&e.v))?,
            plain: format!("r: {}", plain(&e.m)),
            wrapped: no_panic(|| answers(&wrap))?,
            equal: p.iter().map(|o| if e.m.same(&o.m) { Some(true) } else if super::values::same_unordered(&e.m, &o.m) { None } else { Some(false) }).collect(),
        });
    }
    let refs = |v: &Value| match v {
        Value::Arr(a) => a.num_references(),
        Value::Tup(a) => a.num_references(),
        Value::Obj(a) => a.num_references(),
        _ => 0,
    };
    let before: Vec<usize> = p.iter().map(|e| refs(&e.v)).collect();
    let plans: Vec<Vec<(u8, usize, usize)>> = (0..s.range(2, 6))
        .map(|_| (0..s.range(4, 60)).map(|_| (s.below(6) as u8, s.usize(p.len()), s.usize(p.len()))).collect())
        .collect();
    let barrier = std::sync::Barrier::new(plans.len());
    let (known, barrier) = (&known, &barrier);
    let results: Vec<CaseResult> = std::thread::scope(|t| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                t.spawn(move || -> CaseResult {
                    over::verif::set_fuel(FUEL);
                    barrier.wait();
                    for (k, i, j) in plan {
                        let e = &known[*i];
                        let check = |what: &str, v: &Value, want: &str| -> CaseResult {
                            let now = no_panic(|| answers(v))?;
                            ensure!(now == *want, "in a thread, {} answers {:?}, alone {:?}", what, now, want);
                            Ok(())
                        };
                        match k {
                            0 | 1 => check("a shared value", &e.v, &e.text)?,
                            2 => {
                                let got = no_panic(|| e.v == known[*j].v)?;
                                ensure!(e.equal[*j].unwrap_or(got) == got, "in a thread, equal is {} for {} and {}", got, e.text, known[*j].text);
                            }
                            3 => {
                                let o = no_panic(|| Obj::from_str(&e.plain))?.map_err(|x| format!("in a thread, rejected: {}: {}", x, e.plain))?;
                                let v = o.get("r").ok_or("no field r")?;
                                drop(o);
                                check("a value read there", &v, &e.text)?;
                                ensure!(no_panic(|| v == e.v)?, "in a thread, what is read there is unequal: {}", e.text);
                            }
                            4 => {
                                let w = Value::from(Tup::from_values(vec![e.v.clone(), Value::Null]));
                                check("a value around a shared one", &w, &e.wrapped)?;
                            }
                            _ => {
                                let c: Vec<Value> = (0..8).map(|_| e.v.clone()).collect();
                                drop(c);
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("{}thread", HARNESS)))).collect()
    });
    for r in results {
        r?;
    }
    for ((e, k), b) in p.iter().zip(known).zip(&before) {
        ensure!(no_panic(|| answers(&e.v))? == k.text, "after the threads, it answers otherwise: {}", k.text);
        cmp_val(&e.m, &e.v)?;
        ensure!(refs(&e.v) == *b, "after the threads, it has {} references, {} before", refs(&e.v), b);
    }
    Ok(())
}
