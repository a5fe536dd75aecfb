//! Properties of files: includes, include cycles, writing.

use super::*;
use std::collections::{HashMap, HashSet};
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            level: "exploration",
            rule: "sets of 1 to 6 files in up to 4 directories, each an object, array, tuple or string file made bottom-up by the document generator (so its value is known), including earlier files under random spellings (relative, absolute, through '..', './', '//' and symbolic links; names with spaces, backslashes, percent signs and the like), and sets with a single fault. Non-trivial: a file includes another, or there is a fault",
            assumptions: vec![PURE],
            subs: vec![
                sub("trees", 67_000, 1_340_000, c11_trees),
                sub("shared", 47_000, 940_000, c11_shared),
                sub("apart", 180_000, 3_600_000, c11_apart),
                sub("elsewhere", 60_000, 1_200_000, c11_elsewhere),
                sub("exact", 40_000, 800_000, c11_exact),
                sub("broken", 60_000, 1_200_000, c11_broken),
                sub("many", 1_500, 30_000, c11_many),
            ],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "random include graphs over 1 to 8 files (objects, tuples, arrays, and reads as text), with edges under random spellings and through symbolic links, half of them forced to be acyclic; the oracle is a depth-first search. Non-trivial: at least two edges are followed",
            assumptions: vec![PURE],
            subs: vec![sub("graphs", 190_000, 3_800_000, c12_graphs), sub("diamonds", 43_000, 860_000, c12_diamonds), sub("many", 2_000, 40_000, c12_many)],
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "objects of 0 bytes to 1 MB of text written over nothing, shorter and longer files, through symbolic and hard links, into pipes (also while signals interrupt the writing), and into targets that fail at the start or after a random number of bytes (file size limit, full device, missing directory, directory, no permission); and loads of files that cannot be read. Non-trivial: something was there before, or the write has to fail",
            assumptions: vec![PURE, "failures are the ones RLIMIT_FSIZE, /dev/full, permissions and missing paths produce"],
            subs: vec![
                sub("overwrite", 8_900, 178_000, c21_overwrite),
                sub("limit", 18_000, 360_000, c21_limit),
                sub("pipe", 20_000, 400_000, c21_pipe),
                sub("interrupted", 15_000, 300_000, c21_interrupted),
                sub("refused", 30_000, 600_000, c21_refused),
                sub("unreadable", 34_000, 680_000, c21_unreadable),
            ],
        },
    ]
}

fn harness(e: impl std::fmt::Display) -> String {
    format!("{}{}", HARNESS, e)
}

/// A directory of its own, removed with its contents.
pub struct Dir(PathBuf);
impl Dir {
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn write(&self, rel: &str, bytes: &[u8]) -> Result<(), String> {
        let p = self.0.join(rel);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).map_err(harness)?;
        }
        fs::write(p, bytes).map_err(harness)
    }
    pub fn str(&self, rel: &str) -> String {
        self.0.join(rel).to_str().expect("HARNESS ERROR: path").to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if self.0.to_string_lossy().contains("/overcheck.") {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

static NEXT_DIR: AtomicUsize = AtomicUsize::new(0);

pub fn fresh_dir() -> Dir {
    let base = crate::runner::scratch_dir();
    let d = base.join(format!("d{}.{}", std::process::id(), NEXT_DIR.fetch_add(1, Ordering::Relaxed)));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("HARNESS ERROR: scratch directory");
    Dir(d)
}

/// Changes the working directory for a while.
pub struct Cwd(PathBuf);
impl Cwd {
    pub fn enter(p: &Path) -> Cwd {
        let old = std::env::current_dir().expect("HARNESS ERROR: no working directory");
        std::env::set_current_dir(p).expect("HARNESS ERROR: chdir");
        Cwd(old)
    }
}
impl Drop for Cwd {
    fn drop(&mut self) {
        std::env::set_current_dir(&self.0).expect("HARNESS ERROR: chdir back");
    }
}

/// The directories files are put in.
pub const DIRS: [&str; 7] = ["", "sub", "sub/deep", "é x", "deep", "bus", "file:"];

/// A path from directory `from` to `dir/name` (both relative to the root), in some spelling.
pub fn spell(s: &mut Src, root: &Dir, from: &str, dir: &str, name: &str) -> String {
    let up: String = if from.is_empty() { String::new() } else { "../".repeat(from.split('/').count()) };
    let down = if dir.is_empty() { String::new() } else { format!("{}/", dir) };
    let plain = if from == dir { name.to_string() } else { format!("{}{}{}", up, down, name) };
    // Into a directory below, straight.
    let below = match dir.strip_prefix(from).and_then(|d| if from.is_empty() { Some(d) } else { d.strip_prefix('/') }) {
        Some(d) if !d.is_empty() => Some(format!("{}/{}", d, name)),
        _ => None,
    };
    match s.weighted(&[40, 10, 10, 10, 10, 10, 10, if below.is_some() { 40 } else { 0 }, 4]) {
        8 => {
            // The long way (not too long for one path when many files include each other this way).
            let n = s.near(2, 140) as usize;
            match s.below(4) {
                0 => format!("{}{}", "./".repeat(n), plain),
                1 => format!("{}{}{}{}", up, "sub/../".repeat(n / 3 + 1), down, name),
                2 => format!("{}{}/{}", if from == dir { "./".to_string() } else { format!("{}{}", up, down) }, "/".repeat(n), name),
                _ => root.str(&format!("{}{}{}", "deep/../".repeat(n / 3 + 1), down, name)),
            }
        }
        7 => below.unwrap_or(plain),
        1 => format!("./{}", plain),
        2 => format!("{}./{}{}", up, down, name),
        3 => format!("{}sub/../{}{}", up, down, name),
        4 => root.str(&format!("{}{}", down, name)),
        5 if from == dir => format!(".//{}", name),
        5 => format!("{}{}/{}", up, down, name),
        6 => {
            // Through a link to the file or to its directory.
            if s.bool() {
                // Beside the file, so that the paths in it mean the same through the link.
                let at = root.path().join(dir).join(format!("ln-{}", name));
                if !at.exists() {
                    let _ = symlink(name, &at);
                }
                format!("{}{}ln-{}", up, down, name)
            } else {
                let l = format!("dl-{}", dir.replace('/', "-"));
                let at = root.path().join(from).join(&l);
                if !at.exists() {
                    let _ = symlink(root.path().join(dir), &at);
                }
                format!("{}/{}", l, name)
            }
        }
        _ => plain,
    }
}

pub fn make_dirs(root: &Dir) -> CaseResult {
    for d in DIRS.iter() {
        fs::create_dir_all(root.path().join(d)).map_err(harness)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C11

/// A file which is done: where it is, and as what it can be read.
#[derive(Clone)]
pub struct Done {
    pub dir: &'static str,
    name: String,
    /// Kind, value, levels.
    reads: Vec<(&'static str, MV, usize)>,
}

pub fn incs(s: &mut Src, root: &Dir, from: &str, done: &[Done]) -> Vec<Inc> {
    let mut v = vec![];
    for d in done {
        for (kind, val, levels) in &d.reads {
            for _ in 0..s.range(1, 2) {
                v.push(Inc { path: spell(s, root, from, d.dir, &d.name), kind, val: val.clone(), levels: *levels });
            }
        }
    }
    v
}

pub fn file_cfg(s: &mut Src, includes: Vec<Inc>) -> Cfg {
    let mut c = Cfg::basic(s);
    c.budget = [6, 15, 40][s.weighted(&[40, 40, 20])];
    c.includes = includes;
    c
}

/// Adds the addresses of all instances in a value.
fn instances(v: &MV, out: &mut HashSet<usize>) {
    let seen = match v {
        MV::Arr(a) => !out.insert(Rc::as_ptr(a) as usize),
        MV::Tup(a) => !out.insert(Rc::as_ptr(a) as usize),
        MV::Obj(a) => !out.insert(Rc::as_ptr(a) as usize),
        _ => true,
    };
    if seen {
        return;
    }
    match v {
        MV::Arr(a) => a.vals.iter().for_each(|v| instances(v, out)),
        MV::Tup(a) => a.iter().for_each(|v| instances(v, out)),
        MV::Obj(a) => {
            a.pairs.iter().for_each(|(_, v)| instances(v, out));
            if let Some(p) = &a.parent {
                instances(&MV::Obj(p.clone()), out);
            }
        }
        _ => {}
    }
}

/// The value as another read of the same text gives it: instances shared inside it stay shared, those
/// from other files (`keep`) are the same ones.
fn reread(v: &MV, keep: &HashSet<usize>, memo: &mut HashMap<usize, MV>) -> MV {
    let id = match v {
        MV::Arr(a) => Rc::as_ptr(a) as usize,
        MV::Tup(a) => Rc::as_ptr(a) as usize,
        MV::Obj(a) => Rc::as_ptr(a) as usize,
        _ => return v.clone(),
    };
    if keep.contains(&id) {
        return v.clone();
    }
    if let Some(v) = memo.get(&id) {
        return v.clone();
    }
    let n = match v {
        MV::Arr(a) => MV::Arr(Rc::new(MArr { vals: a.vals.iter().map(|v| reread(v, keep, memo)).collect(), t: a.t.clone() })),
        MV::Tup(a) => MV::Tup(Rc::new(a.iter().map(|v| reread(v, keep, memo)).collect())),
        MV::Obj(a) => {
            let pairs = a.pairs.iter().map(|(n, v)| (n.clone(), reread(v, keep, memo))).collect();
            let parent = a.parent.as_ref().map(|p| match reread(&MV::Obj(p.clone()), keep, memo) {
                MV::Obj(o) => o,
                _ => unreachable!(),
            });
            MV::Obj(Rc::new(MObj { pairs, parent }))
        }
        _ => unreachable!(),
    };
    memo.insert(id, n.clone());
    n
}

/// Generates one file and says as what it can be read.
pub fn gen_file(s: &mut Src, root: &Dir, k: usize, done: &[Done], log: &mut String) -> Result<Done, String> {
    let dir = *s.pick(&DIRS);
    // Mostly names which other directories have, too.
    let name = format!("{}{}", s.pick(&["f", "f", "g h", "é"]), s.pick(&[".over", ".over", "", ".txt", ".over.over"]));
    let name = if s.chance(1, 10) {
        // Names which mean something elsewhere.
        s.pick(&["f ", " f", "f\\g", "f\\", "%66", "f%20g", "~", "$f", "*", "f?", "a\nb", "f\t", "'f'", "\"f\"", "#f", "-f", "f.", "...", "f:g", "file:f", "f;", "F", "f\u{301}", "f\u{a0}", "{}", "<f>", "f,g", "null", "Obj", "@f"])
            .to_string()
    } else {
        name
    };
    let name = if s.chance(1, 4) || root.path().join(dir).join(&name).exists() { format!("{}{}", k, name) } else { name };
    let includes = incs(s, root, dir, done);
    let mut keep = HashSet::new();
    includes.iter().for_each(|i| instances(&i.val, &mut keep));
    let mut reads: Vec<(&'static str, MV, usize)> = vec![];
    let text;
    match s.weighted(&[50, 15, 15, 15, 5]) {
        0 => {
            let mut g = TG::new(file_cfg(s, includes));
            let m = g.doc(s);
            let st = pick_style(s);
            text = render(s, &g.toks, st);
            reads.push(("Obj", MV::Obj(m), g.levels));
        }
        1 => {
            let t = gen_type(s, 2);
            let mut g = TG::new(file_cfg(s, includes));
            let n = s.length(8);
            let mut vals = vec![];
            for i in 0..n {
                let ws = if i == 0 { Ws::Opt } else { Ws::Req };
                vals.push(g.value(s, ws, &vec![], 1, Some(&t)));
            }
            let st = pick_style(s);
            text = render(s, &g.toks, st);
            let again = reread(&MV::tup(vals.clone()), &keep, &mut HashMap::new());
            reads.push(("Arr", MV::arr(vals).expect("HARNESS ERROR: one type"), g.levels));
            reads.push(("Tup", again, g.levels));
        }
        2 => {
            let mut g = TG::new(file_cfg(s, includes));
            let n = s.length(8);
            let mut vals = vec![];
            for i in 0..n {
                let ws = if i == 0 { Ws::Opt } else { Ws::Req };
                vals.push(g.value(s, ws, &vec![], 1, None));
            }
            let st = pick_style(s);
            text = render(s, &g.toks, st);
            let again = reread(&MV::tup(vals.clone()), &keep, &mut HashMap::new());
            if let Some(a) = MV::arr(vals) {
                reads.push(("Arr", a, g.levels));
            }
            reads.push(("Tup", again, g.levels));
        }
        3 => text = gen_string(s),
        _ => {
            text = s.pick(&["", "\n", "# nothing", " \r\n\t# x\n"]).to_string();
            reads.push(("Obj", MV::obj(vec![], None), 1));
            reads.push(("Arr", MV::arr(vec![]).unwrap(), 1));
            reads.push(("Tup", MV::tup(vec![]), 1));
        }
    }
    reads.push(("Str", MV::str(&text), 1));
    root.write(&if dir.is_empty() { name.clone() } else { format!("{}/{}", dir, name) }, text.as_bytes())?;
    log.push_str(&format!("--- {}/{}\n{}\n", dir, name, text));
    Ok(Done { dir, name, reads })
}

/// Loads a main file (or text) and compares it with what it has to be.
fn load_main(s: &mut Src, ctx: &mut Ctx, root: &Dir, text: &str, dir: &str, m: &Rc<MObj>) -> Result<Obj, String> {
    let (outcome, got);
    if s.chance(1, 3) {
        ctx.label("from text");
        let _cwd = Cwd::enter(&root.path().join(dir));
        outcome = refparse::read_text(text);
        got = no_panic(|| Obj::from_str(text))?;
    } else {
        let rel = if dir.is_empty() { "main.over".to_string() } else { format!("{}/main.over", dir) };
        root.write(&rel, text.as_bytes())?;
        let p = match s.below(3) {
            0 => root.str(&rel),
            1 => rel.clone(),
            _ => format!("./{}", rel),
        };
        let _cwd = Cwd::enter(root.path());
        outcome = refparse::read_file(&p);
        got = no_panic(|| Obj::from_file(&p))?;
    }
    match outcome {
        Outcome::Ok(r) if r.same(m) => {}
        o => return Err(format!("{}generator and reference reader disagree: {:?}", HARNESS, o)),
    }
    let o = got.map_err(|e| format!("a well-formed set of files is rejected: {}", e))?;
    cmp_obj(m, &o)?;
    Ok(o)
}

fn c11_trees(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    let mut log = String::new();
    let mut done: Vec<Done> = vec![];
    for k in 0..s.range(1, 5) {
        let d = gen_file(s, &root, k, &done, &mut log)?;
        done.push(d);
    }
    let dir = *s.pick(&DIRS);
    let includes = incs(s, &root, dir, &done);
    let mut g = TG::new(file_cfg(s, includes));
    let m = g.doc(s);
    let st = pick_style(s);
    let text = render(s, &g.toks, st);
    log.push_str(&format!("--- main in {}\n{}", dir, text));
    ctx.input = log;
    publish_input(&ctx.input);
    ctx.nontrivial = g.labels.contains("include");
    ctx.label_if(ctx.nontrivial, "includes");
    load_main(s, ctx, &root, &text, dir, &m).map(|_| ())
}

/// The same files included again and again: one value per file and kind.
fn c11_shared(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    let mut log = String::new();
    let mut done: Vec<Done> = vec![];
    for k in 0..s.range(1, 2) {
        let d = gen_file(s, &root, k, &[], &mut log)?;
        done.push(d);
    }
    // Two files in the middle may include them too.
    for k in 0..s.usize(3) {
        let dir = *s.pick(&DIRS);
        let name = format!("mid{}", k);
        let (text, m, levels) = repeat_includes(s, &root, dir, &done);
        root.write(&if dir.is_empty() { name.clone() } else { format!("{}/{}", dir, name) }, text.as_bytes())?;
        log.push_str(&format!("--- {}/{}\n{}\n", dir, name, text));
        done.push(Done { dir, name, reads: vec![("Obj", MV::Obj(m), levels)] });
    }
    let dir = *s.pick(&DIRS);
    let (text, m, _) = repeat_includes(s, &root, dir, &done);
    log.push_str(&format!("--- main in {}\n{}", dir, text));
    ctx.input = log;
    publish_input(&ctx.input);
    let o = load_main(s, ctx, &root, &text, dir, &m)?;
    super::values::check_sharing(&m, &o, ctx)
}

/// Many files, some of them large, included once or more.
fn c11_many(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    let n = match s.below(3) {
        0 => s.range(2, 20),
        1 => s.near(9, 300) as usize,
        _ => s.range(20, 200),
    };
    let mut files: Vec<(&'static str, String, Vec<(&'static str, MV)>)> = vec![];
    let mut total = 0;
    for i in 0..n {
        let large = if s.chance(1, 4) && total < 20_000 { s.near(9, 3_000) as usize } else { s.usize(4) };
        total += large;
        let d = if s.chance(1, 3) { *s.pick(&DIRS) } else { "" };
        let name = format!("n{}", i);
        let at = if d.is_empty() { name.clone() } else { format!("{}/{}", d, name) };
        let ints: Vec<MV> = (0..large).map(|k| MV::int((i + k) as i64)).collect();
        let (text, mut reads) = if s.bool() {
            let pairs: Vec<(String, MV)> = ints.into_iter().enumerate().map(|(k, v)| (format!("x{}", k), v)).collect();
            let mut t = String::new();
            plain_fields(&MObj { pairs: pairs.clone(), parent: None }, &mut t);
            (t, vec![("Obj", MV::obj(pairs, None))])
        } else {
            let t: String = ints.iter().map(|v| plain(v) + " ").collect();
            (t, vec![("Arr", MV::arr(ints.clone()).expect("HARNESS ERROR: ints")), ("Tup", MV::tup(ints))])
        };
        reads.push(("Str", MV::str(&text)));
        root.write(&at, text.as_bytes())?;
        files.push((d, name, reads));
    }
    // All of them, and some of them again.
    let mut text = String::new();
    let mut pairs = vec![];
    let again = s.range(1, 30);
    for j in 0..n + again {
        let i = match j {
            _ if j < n => j,
            _ if j == n => 0,
            _ => s.usize(n),
        };
        let (d, name, reads) = &files[i];
        let (kind, v) = if j == n { reads[0].clone() } else { s.pick(reads).clone() };
        let p = spell(s, &root, "", d, name);
        text.push_str(&format!("v{}: <{} {}>\n", j, kind, quote(s, &p)));
        pairs.push((format!("v{}", j), v));
    }
    ctx.input = format!("{} files, {} elements\n{}", n, total, text);
    publish_input(&ctx.input);
    ctx.nontrivial = n >= 10 || total > 30;
    ctx.label_if(n > 100, "over 100 files");
    ctx.label_if(total > 100, "over 100 elements");
    let m = Rc::new(MObj { pairs, parent: None });
    let o = load_main(s, ctx, &root, &text, "", &m)?;
    super::values::check_sharing(&m, &o, ctx)
}

fn repeat_includes(s: &mut Src, root: &Dir, from: &str, done: &[Done]) -> (String, Rc<MObj>, usize) {
    let mut text = String::new();
    let mut pairs = vec![];
    let mut levels = 1;
    for i in 0..s.range(1, 8) {
        let d = s.pick(done).clone();
        let (kind, v, l) = s.pick(&d.reads).clone();
        let p = spell(s, root, from, d.dir, &d.name);
        let inc = if kind == "Obj" && s.bool() { format!("<{}>", quote(s, &p)) } else { format!("<{} {}>", kind, quote(s, &p)) };
        levels = levels.max(1 + l);
        match s.below(4) {
            0 => {
                text.push_str(&format!("v{}: ({} {})\n", i, inc, inc));
                pairs.push((format!("v{}", i), MV::tup(vec![v.clone(), v])));
                levels = levels.max(2 + l);
            }
            1 => {
                text.push_str(&format!("v{}: {{a: {}}}\n", i, inc));
                pairs.push((format!("v{}", i), MV::obj(vec![("a".into(), v)], None)));
                levels = levels.max(2 + l);
            }
            _ => {
                text.push_str(&format!("v{}: {}\n", i, inc));
                pairs.push((format!("v{}", i), v));
            }
        }
    }
    (text, Rc::new(MObj { pairs, parent: None }), levels)
}

/// Neither fields nor globals pass between files, in either direction.
fn c11_apart(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    ctx.nontrivial = true;
    // Names defined in the includer before and after the include, and in the included files.
    let leak = s.below(10);
    let inc2 = "<\"b.over\">";
    let (main, a, b, l): (String, String, String, &'static str) = match leak {
        0 => ("@g: 1\nx: <\"a.over\">".into(), "y: @g".into(), "z: 1".into(), "global into the file"),
        1 => ("x: <\"a.over\">\ny: @g".into(), "@g: 1".into(), "z: 1".into(), "global out of the file"),
        2 => ("g: 1\nx: <\"a.over\">".into(), "y: g".into(), "z: 1".into(), "field into the file"),
        3 => ("x: <\"a.over\">\ny: g".into(), "g: 1".into(), "z: 1".into(), "field out of the file"),
        4 => (format!("x: <\"a.over\">\nz: {}", inc2), "@g: 1 q: 2".into(), "y: @g".into(), "global to the next file"),
        5 => (format!("x: <\"a.over\">\nz: {}", inc2), "g: 1 q: 2".into(), "y: g".into(), "field to the next file"),
        6 => ("@g: 1\nx: <Arr \"a.over\">".into(), "1 2 @g".into(), "".into(), "global into an array file"),
        7 => ("g: 1\nx: <Tup \"a.over\">".into(), "1 2 g".into(), "".into(), "field into a tuple file"),
        8 => ("x: <Tup \"a.over\">\ny: @g".into(), "{@g: 1}".into(), "".into(), "global out of a tuple file"),
        _ => ("@g: 1\nx: { y: <\"a.over\"> }".into(), format!("z: {}", inc2), "w: @g".into(), "global into a file of the file"),
    };
    ctx.label(l);
    // The same with the name defined where it is used, which must be fine: no clash between files.
    let fixed = s.bool();
    let fix = |t: &str| -> String {
        let glob = t.contains("@g") && !t.contains("@g:");
        let field = !glob && (t.ends_with(": g") || t.ends_with(" g"));
        if t.contains("1 2 ") && (glob || field) {
            return t.replace("@g", "{@g: 5}").replace(" g", " {g: 5}").replace("1 2", "{} {}");
        }
        if glob && !t.contains("@g:") {
            format!("@g: 5 {}", t)
        } else if field {
            format!("g: 5 {}", t)
        } else {
            t.to_string()
        }
    };
    let pad = |s: &mut Src, t: String| {
        let p = *s.pick(&["", "# c\n", "\n\n", " "]);
        format!("{}{}", p, t)
    };
    let (main, a, b) = if fixed { (fix(&main), fix(&a), fix(&b)) } else { (main, a, b) };
    let (main, a, b) = (pad(s, main), pad(s, a), pad(s, b));
    root.write("a.over", a.as_bytes())?;
    root.write("b.over", b.as_bytes())?;
    root.write("main.over", main.as_bytes())?;
    ctx.input = format!("{}\n--- a\n{}\n--- b\n{}", main, a, b);
    let p = root.str("main.over");
    let v = judge_file(&p, ctx, false)?;
    match (&v.want, fixed) {
        (Outcome::Ok(_), true) | (Outcome::Err(_), false) => Ok(()),
        (w, _) => Err(format!("{}{:?}", HARNESS, w)),
    }
}

/// A file of the right name, but in another directory than the one the path is relative to.
fn c11_elsewhere(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    ctx.nontrivial = true;
    let join = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{}/{}", d, f) };
    // Directories of the main file, of a file between or not, and where the process is.
    let (main, mid, cwd) = (*s.pick(&DIRS), *s.pick(&DIRS), *s.pick(&DIRS));
    let two = s.bool();
    let from = if two { mid } else { main };
    let path = join(s.pick(&["", "", "deep", "sub"]), s.pick(&["f.over", "f", "é"]));
    let right = join(from, &path);
    // Everywhere, or everywhere else.
    let there = s.bool();
    let kind = *s.pick(&["", "Obj ", "Str ", "Arr ", "Tup "]);
    for d in DIRS.iter().chain(["sub/sub", "sub/deep/deep", "sub/deep/sub", "deep/deep", "deep/sub", "é x/deep", "é x/sub"].iter()) {
        let p = join(d, path.rsplit('/').next().unwrap_or(""));
        if p == right {
            continue;
        }
        root.write(&p, if kind.len() < 4 || kind == "Obj " || kind == "Str " { "a: \"wrong\"" } else { "\"wrong\"" }.as_bytes())?;
    }
    if there {
        root.write(&right, if kind.is_empty() || kind == "Obj " || kind == "Str " { "a: \"right\"" } else { "\"right\"" }.as_bytes())?;
    }
    let inc = format!("{}x: <{}\"{}\">", s.pick(&["", "k: 1\n"]), kind, path);
    let text = if two {
        root.write(&join(mid, "mid"), inc.as_bytes())?;
        format!("m: <\"{}\">", spell(s, &root, main, mid, "mid"))
    } else {
        inc.clone()
    };
    ctx.input = format!("in {:?} (between: {:?}), run in {:?}, there: {}: {}\n--- {}", main, if two { mid } else { main }, cwd, there, text, inc);
    publish_input(&ctx.input);
    ctx.label(if there { "there" } else { "elsewhere only" });
    root.write(&join(main, "main.over"), text.as_bytes())?;
    let v = match s.below(3) {
        0 => {
            let _cwd = Cwd::enter(&root.path().join(main));
            judge(&text, ctx, false)?
        }
        1 => {
            let _cwd = Cwd::enter(&root.path().join(cwd));
            judge_file(&root.str(&join(main, "main.over")), ctx, false)?
        }
        _ => {
            let _cwd = Cwd::enter(&root.path().join(cwd));
            let up = if cwd.is_empty() { String::new() } else { "../".repeat(cwd.split('/').count()) };
            judge_file(&format!("{}{}", up, join(main, "main.over")), ctx, false)?
        }
    };
    match (&v.want, there) {
        (Outcome::Err(_), false) => Ok(()),
        (Outcome::Ok(m), true) => {
            let shown = show_mv(&MV::Obj(m.clone()));
            ensure!(shown.contains("right"), "{}{}", HARNESS, shown);
            Ok(())
        }
        (w, _) => Err(format!("{}{:?} for {:?}", HARNESS, w, ctx.input)),
    }
}

/// What a careless or helpful reader might take the path for.
fn near_paths(path: &str, home: &str) -> Vec<String> {
    let mut v = vec![];
    for e in [".over", ".txt", ".OVER", ".over.over", "/index.over", "~", ".bak", " ", ".", "*"] {
        v.push(format!("{}{}", path, e));
    }
    let base = path.rsplit('/').next().unwrap_or("").to_string();
    let dir = path[..path.len() - base.len()].to_string();
    v.push(base.clone());
    for d in ["sub", "include", "lib", "over", ".over", "etc", "..", "a"] {
        v.push(format!("{}/{}", d, base));
        v.push(format!("{}/{}", d, path));
    }
    v.push(format!("{}/{}", home, base));
    v.push(format!("{}/{}", home, path));
    if let Some(i) = base.rfind('.') {
        v.push(format!("{}{}", dir, &base[..i]));
        v.push(format!("{}{}.over", dir, &base[..i]));
    }
    v.push(path.to_lowercase());
    v.push(path.to_uppercase());
    v.push(path.trim().to_string());
    v.push(path.trim_end_matches(|c| c == '.' || c == ' ').to_string());
    v.push(path.trim_start_matches("file:").trim_start_matches("//").to_string());
    v.push(path.trim_matches(|c| c == '"' || c == '\'' || c == '<' || c == '>').to_string());
    for (a, b) in [
        ("%20", " "),
        ("%66", "f"),
        ("+", " "),
        ("\\", "/"),
        ("/", "\\"),
        ("\\", ""),
        (" ", "_"),
        (" ", ""),
        ("~", home),
        ("$HOME", home),
        ("${HOME}", home),
        ("%HOME%", home),
        ("$PWD", "."),
        ("$HOME", ""),
        ("e\u{301}", "é"),
        ("é", "e\u{301}"),
        ("é", "e"),
        ("*", "f"),
        ("?", "f"),
        ("[f]", "f"),
        ("#x", ""),
        ("?x", ""),
        ("\u{a0}", " "),
        ("\t", " "),
        ("\n", " "),
        ("\n", ""),
        ("..", "."),
        ("\0", ""),
    ] {
        if path.contains(a) {
            v.push(path.replace(a, b));
        }
    }
    for (i, c) in [('\0', ""), ('#', ""), ('?', ""), (':', ""), (',', ""), (';', ""), ('|', "")].iter().filter_map(|(c, t)| path.find(*c).map(|i| (i, t))) {
        v.push(format!("{}{}", &path[..i], c));
        v.push(path[i + 1..].to_string());
    }
    v
}

/// A path names what it says and nothing else.
fn c11_exact(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    let home = root.str("home");
    ctx.nontrivial = true;
    let parts = [
        "f", "f", "f.over", "f.txt", "g h", "é", "e\u{301}", "~", "~", "~root", "$HOME", "${HOME}", "%HOME%", "$PWD", ".f", "*", "f*", "?", "[f]", "f%20g", "%66", "f+g", "file:", "f#x", "f?x", "f\\g", "f ", " f", "f.", "F", "f\u{a0}g", "f\tg",
        "f\ng", "f:g", "f,g", "f;g", "f|g", "-", "-f", "f.over.over", "\"f\"", "'f'", "<f>", "...", "f..", "@f", "null", "&f", "!f", "(f)", "{f}", "CON", "f~1", "a", "f.OVER",
    ];
    let n = s.weighted(&[0, 50, 35, 15]);
    let mut path = (0..n).map(|_| s.pick(&parts).to_string()).collect::<Vec<_>>().join("/");
    if s.chance(1, 25) {
        // No file is named like this.
        path.insert(s.pick(&[0, path.len()]).to_owned(), '\0');
    }
    let there = s.chance(2, 3) && !path.contains('\0');
    let kind = *s.pick(&["", "Obj ", "Str ", "Arr ", "Tup "]);
    let content = |v: &str| if kind.is_empty() || kind == "Obj " || kind == "Str " { format!("a: \"{}\"", v) } else { format!("\"{}\"", v) };
    let from = *s.pick(&["", "", "sub", "~", "home"]);
    let join = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{}/{}", d, f) };
    fs::create_dir_all(&home).map_err(harness)?;
    fs::create_dir_all(root.path().join(from)).map_err(harness)?;
    let right = join(from, &path);
    if there {
        root.write(&right, content("right").as_bytes())?;
    }
    let inside = |p: &Path| p.starts_with(root.path()) && !p.components().any(|c| c == std::path::Component::ParentDir);
    // Not often a directory of that name.
    let dirs = s.chance(1, 4);
    let mut wrong = 0;
    for p in near_paths(&path, &home) {
        let at = if p.starts_with('/') { PathBuf::from(&p) } else { root.path().join(join(from, &p)) };
        if !dirs && at.starts_with(root.path().join(&right)) {
            continue;
        }
        if p.is_empty() || p.contains('\0') || !inside(&at) || at.exists() || at == root.path().join(&right) {
            continue;
        }
        // (Where a directory would have to be a file or the other way round, there is none.)
        if at.parent().map_or(false, |d| fs::create_dir_all(d).is_ok()) && fs::write(&at, content("wrong")).is_ok() {
            wrong += 1;
        }
    }
    ensure!(wrong > 0, "{}no decoys for {:?}", HARNESS, path);
    // One of them may be what the path means after all (a directory's name, say): the reference reader opens it itself.
    let text = format!("x: <{}{}>", kind, quote(s, &path));
    ctx.input = format!("in {:?}, there: {}: {}", from, there, text);
    publish_input(&ctx.input);
    ctx.label(if there { "there" } else { "not there" });
    root.write(&join(from, "main.over"), text.as_bytes())?;
    let was = std::env::var_os("HOME");
    std::env::set_var("HOME", &home);
    let v = if s.bool() {
        let _cwd = Cwd::enter(&root.path().join(from));
        judge(&text, ctx, false)
    } else {
        judge_file(&root.str(&join(from, "main.over")), ctx, false)
    };
    match was {
        Some(h) => std::env::set_var("HOME", h),
        None => std::env::remove_var("HOME"),
    }
    match (&v?.want, there) {
        (Outcome::Ok(m), true) => {
            let shown = show_mv(&MV::Obj(m.clone()));
            ensure!(shown.contains("right"), "{}{}", HARNESS, shown);
            Ok(())
        }
        (Outcome::Err(_), false) => Ok(()),
        (w, _) => Err(format!("{}{:?} for {:?}", HARNESS, w, ctx.input)),
    }
}

fn c11_broken(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    ctx.nontrivial = true;
    root.write("ok.over", b"a: 1 b: (2 3)")?;
    root.write("vals.over", b"1 2 3")?;
    root.write("mixed.over", b"1 \"2\" {}")?;
    root.write("bad.over", b"a: ")?;
    root.write("junk.over", b"a: 1 }")?;
    root.write("bin.over", b"a: \"\xff\xfe\"")?;
    let _ = symlink("nowhere", root.path().join("dangling"));
    let _ = symlink("loop", root.path().join("loop"));
    // The first are fine; the rest each have one fault.
    let good = ["<\"ok.over\">", "<Obj \"ok.over\">", "<Str \"ok.over\">", "<Arr \"vals.over\">", "<Tup \"vals.over\">", "<Tup \"mixed.over\">", "<Str \"bad.over\">", "<Str \"junk.over\">", "< # c\n Str\n\"ok.over\" # d\n>"];
    let bad = [
        ("<\"none.over\">", "missing file"),
        ("<Str \"none.over\">", "missing file"),
        ("<Arr \"none.over\">", "missing file"),
        ("<Tup \"sub/none\">", "missing file"),
        ("<\"none/ok.over\">", "missing directory"),
        ("<\"ok.over/x\">", "file as a directory"),
        ("<\"OK.over\">", "other case"),
        ("<\"ok.over \">", "space in the path"),
        ("<\"dangling\">", "dangling link"),
        ("<\"loop\">", "link loop"),
        ("<\"sub\">", "directory"),
        ("<Str \"sub\">", "directory"),
        ("<Arr \"sub\">", "directory"),
        ("<Tup \".\">", "directory"),
        ("<\"..\">", "directory"),
        ("<\"\">", "empty path"),
        ("<Str \"\">", "empty path"),
        ("<1>", "not a string"),
        ("<Str 1>", "not a string"),
        ("<Obj null>", "not a string"),
        ("<true>", "not a string"),
        ("<{}>", "not a string"),
        ("<[\"ok.over\"]>", "not a string"),
        ("<Str (\"ok.over\")>", "not a string"),
        ("<1.5>", "not a string"),
        ("<Int \"ok.over\">", "keyword"),
        ("<Frac \"vals.over\">", "keyword"),
        ("<str \"ok.over\">", "keyword"),
        ("<OBJ \"ok.over\">", "keyword"),
        ("<Any \"ok.over\">", "keyword"),
        ("<Objx \"ok.over\">", "keyword"),
        ("<null \"ok.over\">", "keyword"),
        ("<Str Str \"ok.over\">", "keyword"),
        ("<\"ok.over\" Str>", "keyword"),
        ("<\"ok.over\" \"ok.over\">", "too much"),
        ("<Str \"ok.over\" 1>", "too much"),
        ("<>", "no path"),
        ("<Str>", "no path"),
        ("<Obj >", "no path"),
        ("<\"ok.over\"", "not closed"),
        ("<Str \"ok.over\"", "not closed"),
        ("<\"ok.over\"}", "wrong bracket"),
        ("<\"ok.over\"]", "wrong bracket"),
        ("\"ok.over\">", "not opened"),
        ("<\"ok.over>", "quote"),
        ("<ok.over>", "no quotes"),
        ("<Arr \"mixed.over\">", "mixed array"),
        ("<\"vals.over\">", "values as an object"),
        ("<Arr \"ok.over\">", "fields as an array"),
        ("<Tup \"ok.over\">", "fields as a tuple"),
        ("<\"bad.over\">", "fault in the file"),
        ("<Tup \"bad.over\">", "fault in the file"),
        ("<\"junk.over\">", "fault in the file"),
        ("<Str \"bin.over\">", "not UTF-8"),
        ("<\"bin.over\">", "not UTF-8"),
        ("<nope>", "unknown variable"),
        ("<@nope>", "unknown global"),
        ("<Str nope>", "unknown variable"),
        ("<\"./\">", "directory"),
    ];
    let ok = s.chance(1, 6);
    let (inc, l) = if ok { (*s.pick(&good), "fine") } else { *s.pick(&bad) };
    ctx.label(l);
    let pre = *s.pick(&["", "k: 1\n", "k: <\"ok.over\">\n", "k: <Str \"bad.over\">\n", "@k: <Tup \"vals.over\">\n", "# x\n\n"]);
    let text = match s.below(5) {
        0 => format!("{}x: {}", pre, inc),
        1 => format!("{}x: {} y: 2", pre, inc),
        2 => format!("{}x: {{ y: {} }}", pre, inc),
        3 => format!("{}x: ( {} 1 )", pre, inc),
        _ => format!("{}@x: {} y: 1", pre, inc),
    };
    ctx.input = text.clone();
    let v = if s.chance(1, 3) {
        let _cwd = Cwd::enter(root.path());
        judge(&text, ctx, false)?
    } else {
        root.write("main.over", text.as_bytes())?;
        let p = root.str("main.over");
        judge_file(&p, ctx, false)?
    };
    match (&v.want, ok) {
        (Outcome::Ok(_), true) | (Outcome::Err(_), false) => Ok(()),
        (w, _) => Err(format!("{}{:?} for {:?}", HARNESS, w, text)),
    }
}

// --------------------------------------------------------------------------------------------- C12

struct Graph {
    kinds: Vec<&'static str>,
    dirs: Vec<&'static str>,
    /// Target and the kind of the include.
    edges: Vec<Vec<(usize, &'static str)>>,
}

/// Whether reading file `n` fails for a cycle.
fn cyclic(g: &Graph, n: usize, stack: &mut Vec<usize>, fine: &mut Vec<(usize, &'static str)>) -> bool {
    stack.push(n);
    for (t, kind) in &g.edges[n] {
        if stack.contains(t) {
            return true;
        }
        if fine.contains(&(*t, *kind)) {
            continue;
        }
        if *kind != "Str" && cyclic(g, *t, stack, fine) {
            return true;
        }
        fine.push((*t, *kind));
    }
    stack.pop();
    false
}

fn file_name(i: usize) -> String {
    format!("f{}.over", i)
}

fn c12_graphs(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    let n = s.range(1, 8);
    let acyclic = s.bool();
    let few = s.bool();
    let mut names: Vec<String> = vec![];
    let mut g = Graph { kinds: vec![], dirs: vec![], edges: vec![] };
    for i in 0..n {
        g.kinds.push(if i == 0 { "Obj" } else { *s.pick(&["Obj", "Obj", "Tup", "Arr"]) });
        let d = *s.pick(&DIRS);
        // Often the name of a file in another directory.
        let mut name = file_name(i);
        if s.chance(1, 3) {
            // Or one which begins or goes on like another.
            let n = s.pick(&["f0.over", "a.over", "m", "f", "f0", "f0.ove", "f0.over2", "f1.over.over", "f2"]).to_string();
            if (0..i).all(|j| g.dirs[j] != d || names[j] != n) && (i == 0 || n != "f0.over" || d != g.dirs[0]) {
                name = n;
            }
        }
        g.dirs.push(d);
        names.push(name);
        g.edges.push(vec![]);
    }
    for i in 0..n {
        let k = if few { s.usize(3) } else { s.usize(5) };
        for _ in 0..k {
            let t = if acyclic {
                if i + 1 == n {
                    break;
                }
                s.range(i + 1, n - 1)
            } else if s.chance(1, 2) {
                (i + 1) % n
            } else {
                s.usize(n)
            };
            let kind = if s.chance(1, 8) { "Str" } else { g.kinds[t] };
            g.edges[i].push((t, kind));
        }
    }
    let mut log = String::new();
    let mut followed = 0;
    for i in 0..n {
        let mut parts = vec![];
        for (t, kind) in g.edges[i].clone() {
            let p = spell(s, &root, g.dirs[i], g.dirs[t], &names[t]);
            let q = quote(s, &p);
            let inc = if kind == "Obj" && s.bool() { format!("<{}>", q) } else { format!("<{} {}>", kind, q) };
            parts.push(inc);
            followed += 1;
        }
        let text = match g.kinds[i] {
            "Obj" => parts.iter().enumerate().map(|(k, p)| match s.below(4) {
                0 => format!("a{}: {}\n", k, p),
                1 => format!("a{}: {{ x: {} }}\n", k, p),
                2 => format!("@a{}: ({} 1)\n", k, p),
                _ => format!("a{}: {} # {}\n", k, p, k),
            }).collect::<String>(),
            "Arr" => parts.iter().map(|p| format!("{{ x: {} }}\n", p)).collect::<String>(),
            _ => parts.join(" "),
        };
        let d = g.dirs[i];
        root.write(&if d.is_empty() { names[i].clone() } else { format!("{}/{}", d, names[i]) }, text.as_bytes())?;
        log.push_str(&format!("--- {}/{} ({})\n{}\n", d, names[i], g.kinds[i], text));
    }
    let main = spell(s, &root, "", g.dirs[0], &names[0]);
    ctx.input = format!("load {}\n{}", main, log);
    publish_input(&ctx.input);
    ctx.nontrivial = followed >= 2 && !g.edges[0].is_empty();
    let want = cyclic(&g, 0, &mut vec![], &mut vec![]);
    ctx.label(if want { "cyclic" } else { "acyclic" });
    let text_start = s.chance(1, 5);
    let _cwd = Cwd::enter(root.path());
    let (outcome, got) = if text_start {
        // From text which includes the first file.
        ctx.label("from text");
        let t = format!("r: <{}>", quote(s, &main));
        (refparse::read_text(&t), no_panic(|| Obj::from_str(&t))?)
    } else {
        (refparse::read_file(&main), no_panic(|| Obj::from_file(&main))?)
    };
    match (&outcome, want) {
        (Outcome::Ok(_), false) | (Outcome::Err(_), true) => {}
        (o, _) => return Err(format!("{}the search and the reference reader disagree: {} {:?}", HARNESS, want, o)),
    }
    match (want, got) {
        (true, Err(_)) => Ok(()),
        (false, Ok(o)) => match outcome {
            Outcome::Ok(m) => cmp_obj(&m, &o),
            _ => Ok(()),
        },
        (true, Ok(_)) => Err("a file which includes itself, directly or through others, is loaded".into()),
        (false, Err(e)) => Err(format!("an acyclic set of files is rejected: {}", e)),
    }
}

/// Many ways lead to the same files: layers, each file of which includes several of the next.
/// Many files included one after the other, or each by the one before it.
fn c12_many(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    let n = if s.chance(1, 3) { s.near(9, 600) as usize } else { s.range(2, 200) };
    // A file of the star may go on for a few files.
    let tail = s.usize(12);
    // Which one leads back, and to what.
    let back = if s.bool() { Some((s.usize(n), s.bool(), s.usize(tail + 1))) } else { None };
    let names: Vec<String> = (0..n).map(|i| if i % 3 == 2 { format!("s{}", i / 3) } else { format!("t{}.over", i) }).collect();
    let dir = |i: usize| if i % 3 == 2 { DIRS[i / 3 % DIRS.len()] } else { "" };
    let mut main = String::new();
    let mut cyclic = false;
    for i in 0..n {
        let kind = *s.pick(&["", "", "Obj ", "Tup ", "Arr "]);
        let p = spell(s, &root, "", dir(i), &names[i]);
        main.push_str(&format!("f{}: <{}{}>\n", i, kind, quote(s, &p)));
        let mut text = match s.below(4) {
            0 => String::new(),
            1 => format!("k: <\"{}\">", root.str("leaf")),
            2 => format!("k: <\"{}\">", root.str("tail0")),
            _ => format!("@a: <\"{}\"> b: @a", root.str("leaf")),
        };
        if let Some((k, to_main, t)) = back {
            if k == i {
                cyclic = to_main || t <= tail;
                let to = if to_main { "main".to_string() } else { names[i].clone() };
                text = format!("z: <\"{}\">", root.str(&if to_main || dir(i).is_empty() { to } else { format!("{}/{}", dir(i), to) }));
            }
        }
        if !kind.is_empty() && kind != "Obj " {
            text = format!("{{ {} }} {{}}", text);
        }
        let d = dir(i);
        root.write(&if d.is_empty() { names[i].clone() } else { format!("{}/{}", d, names[i]) }, text.as_bytes())?;
    }
    root.write("leaf", b"v: 1")?;
    for i in 0..=tail {
        let t = if i < tail { format!("n: <\"tail{}\">", i + 1) } else { "n: <Str \"leaf\"> m: <\"leaf\">".into() };
        root.write(&format!("tail{}", i), t.as_bytes())?;
    }
    root.write("main", main.as_bytes())?;
    ctx.input = format!("{} files, leading back: {:?}, tail {}\n{}", n, back, tail, main);
    publish_input(&ctx.input);
    ctx.nontrivial = n > 8;
    ctx.label(if cyclic { "cyclic" } else { "acyclic" });
    ctx.label_if(n > 100, "over 100 files");
    let p = root.str("main");
    match (cyclic, no_panic(|| Obj::from_file(&p))?) {
        (true, Err(_)) => Ok(()),
        (false, Ok(o)) => {
            ensure!(o.len() == n, "{} fields", o.len());
            match refparse::read_file(&p) {
                Outcome::Ok(m) => cmp_obj(&m, &o),
                o => Err(format!("{}{:?}", HARNESS, o)),
            }
        }
        (true, Ok(_)) => Err("a file which includes itself, directly or through others, is loaded".into()),
        (false, Err(e)) => Err(format!("an acyclic set of files is rejected: {}", e)),
    }
}

fn c12_diamonds(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    make_dirs(&root)?;
    let layers = s.range(2, 12);
    let width = s.range(1, 3);
    let back = s.chance(1, 3);
    let mut log = String::new();
    let (bl, bw, to) = (s.usize(layers), s.usize(width), s.usize(layers));
    let mut cycle = false;
    for l in 0..layers {
        for w in 0..width {
            let mut text = String::new();
            if l + 1 < layers {
                for (k, x) in (0..width).chain(0..1).enumerate() {
                    let p = spell(s, &root, DIRS[l % DIRS.len()], DIRS[(l + 1) % DIRS.len()], &format!("n{}_{}", l + 1, x));
                    text.push_str(&format!("a{}: <{}>\n", k, quote(s, &p)));
                }
            }
            if back && l == bl && w == bw && to <= l {
                // Reached from every file of every earlier layer, if it is reached at all.
                let p = spell(s, &root, DIRS[l % DIRS.len()], DIRS[to % DIRS.len()], &format!("n{}_{}", to, if to == l { w } else { 0 }));
                text.push_str(&format!("z: <{}>\n", quote(s, &p)));
                cycle = true;
            }
            let d = DIRS[l % DIRS.len()];
            root.write(&if d.is_empty() { format!("n{}_{}", l, w) } else { format!("{}/n{}_{}", d, l, w) }, text.as_bytes())?;
            if log.len() < 2000 {
                log.push_str(&format!("--- {} n{}_{}\n{}", d, l, w, text));
            }
        }
    }
    ctx.input = log;
    ctx.nontrivial = true;
    // The first layer is entered through its first file only.
    if cycle && bl == 0 && bw != 0 {
        cycle = false;
    }
    ctx.label(if cycle { "cyclic" } else { "acyclic" });
    let p = root.str("n0_0");
    match (cycle, no_panic(|| Obj::from_file(&p))?) {
        (true, Err(_)) => Ok(()),
        (false, Ok(o)) => {
            ensure!(o.len() == if layers > 1 { width + 1 } else { 0 }, "{} fields", o.len());
            Ok(())
        }
        (true, Ok(_)) => Err("a cyclic set of files is loaded".into()),
        (false, Err(e)) => Err(format!("an acyclic set of files is rejected: {}", e)),
    }
}

// --------------------------------------------------------------------------------------------- C21

/// An object whose text is about as long as wanted.
fn sized_obj(s: &mut Src) -> Rc<MObj> {
    match s.weighted(&[50, 20, 20, 10]) {
        0 => VG::new(s).obj(s, 1),
        1 => {
            let n = s.usize(20_000);
            let c = gen_char(s);
            Rc::new(MObj { pairs: vec![("s".into(), MV::str(&std::iter::repeat(c).take(n).collect::<String>()))], parent: None })
        }
        2 => {
            let n = s.usize(2_000);
            Rc::new(MObj { pairs: (0..n).map(|i| (format!("f{}", i), MV::int(i as i64))).collect(), parent: None })
        }
        _ => {
            // Around buffer sizes.
            let base = if s.chance(1, 3) { s.near(16, 300_000) as usize } else { *s.pick(&[512usize, 1024, 4096, 8192, 16384, 65536, 131072, 262144]) };
            let n = base - 10 + s.usize(20);
            Rc::new(MObj { pairs: vec![("s".into(), MV::str(&"x".repeat(n)))], parent: None })
        }
    }
}

fn check_written(m: &Rc<MObj>, o: &Obj, p: &str) -> CaseResult {
    let text = o.write_to_string();
    let bytes = fs::read(p).map_err(|e| format!("the file written cannot be read: {}", e))?;
    ensure!(
        bytes == text.as_bytes(),
        "the file holds {} bytes, the text has {}; they first differ at {:?}",
        bytes.len(),
        text.len(),
        bytes.iter().zip(text.as_bytes()).position(|(a, b)| a != b)
    );
    let r = Obj::from_file(p).map_err(|e| format!("what was written cannot be loaded: {}", e))?;
    cmp_obj(m, &r)?;
    ensure!(r == *o, "loading gives an unequal object");
    Ok(())
}

fn c21_overwrite(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = fresh_dir();
    let name = *s.pick(&[
        "a.over", "b", "é x.over", "-n", ".a", "a\nb", "-", "--", "~", "$HOME", "%61", "*", "stdout", "null", "1", "&1", "|cat", ">a", "a b", " a", "a ", "a\\b", "file:a", "CON", "...", "a~", "#a", "a.tmp", "@a", "{}",
    ]);
    let p = d.str(name);
    // What else names the file.
    let mut also = None;
    match s.below(6) {
        0 => ctx.label("nothing there"),
        1 => {
            ctx.label("garbage there");
            let n = s.usize(300_000);
            fs::write(&p, vec![*s.pick(&[b'x', b'}', 0, b'\n', 0xff]); n]).map_err(harness)?;
            ctx.nontrivial = true;
        }
        2 => {
            ctx.label("link");
            fs::write(d.path().join("target"), vec![b'y'; s.usize(5_000)]).map_err(harness)?;
            symlink("target", &p).map_err(harness)?;
            ctx.nontrivial = true;
            also = Some("target");
        }
        3 => {
            ctx.label("dangling link");
            symlink("target", &p).map_err(harness)?;
            also = Some("target");
        }
        4 => {
            ctx.label("hard link");
            fs::write(d.path().join("target"), vec![b'y'; s.usize(5_000)]).map_err(harness)?;
            fs::hard_link(d.path().join("target"), &p).map_err(harness)?;
            ctx.nontrivial = true;
            also = Some("target");
        }
        _ => {
            ctx.label("empty file");
            fs::write(&p, b"").map_err(harness)?;
        }
    }
    let n = s.range(1, 4);
    let mut log = String::new();
    for i in 0..n {
        let m = sized_obj(s);
        let o = build_obj(&m)?;
        if log.len() < 3000 {
            log.push_str(&format!("{:?}: {}\n", name, show_mv(&MV::Obj(m.clone()))));
        }
        ctx.input = log.clone();
        ctx.nontrivial = ctx.nontrivial || i > 0;
        let r = if s.bool() {
            no_panic(|| o.write_to_file(&p))?
        } else {
            let _cwd = Cwd::enter(d.path());
            no_panic(|| o.write_to_file(name))?
        };
        r.map_err(|e| format!("writing fails: {}", e))?;
        check_written(&m, &o, &p)?;
        if let Some(f) = also {
            check_written(&m, &o, &d.str(f)).map_err(|e| format!("under the other name of the file: {}", e))?;
        }
    }
    // Nothing else is left there.
    let mut left: Vec<String> = fs::read_dir(d.path()).map_err(harness)?.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    left.retain(|f| f != name && f != "target");
    ensure!(left.is_empty(), "writing leaves other files behind: {:?}", left);
    Ok(())
}

/// Runs `f` in a forked child, which gives a message if something is wrong.
fn in_child(f: impl FnOnce() -> Result<(), String>) -> CaseResult {
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err(harness("pipe"));
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err(harness("fork"));
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(60);
            let r = match no_panic(f) {
                Ok(r) => r,
                Err(m) => Err(m),
            };
            let m = match r {
                Ok(()) => String::new(),
                Err(m) => m,
            };
            let b = m.as_bytes();
            let b = &b[..b.len().min(3000)];
            libc::write(fds[1], b.as_ptr() as *const _, b.len());
            libc::_exit(if m.is_empty() { 0 } else { 1 });
        }
        libc::close(fds[1]);
        let mut msg = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            msg.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(())
        } else if libc::WIFEXITED(st) {
            Err(String::from_utf8_lossy(&msg).into_owned())
        } else {
            Err(format!("the process died of signal {}", libc::WTERMSIG(st)))
        }
    }
}

extern "C" fn nothing(_: libc::c_int) {}

/// A thread to interrupt.
#[derive(Clone, Copy)]
pub struct Kick {
    thread: libc::pthread_t,
    tid: i64,
}
impl Kick {
    /// This thread. Signals interrupt it from now on.
    pub fn me() -> Kick {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
            // (Without SA_RESTART.)
            libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
            Kick { thread: libc::pthread_self(), tid: libc::syscall(libc::SYS_gettid) as i64 }
        }
    }
    /// Sends a signal when the thread waits for something, and says whether it did. The thread has to live on.
    pub fn kick(&self) -> bool {
        for _ in 0..200 {
            let stat = fs::read_to_string(format!("/proc/self/task/{}/stat", self.tid)).unwrap_or_default();
            if stat.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')) {
                return unsafe { libc::pthread_kill(self.thread, libc::SIGUSR2) } == 0;
            }
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
        false
    }
}

/// Into a pipe that fills up, while signals come.
fn c21_interrupted(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::io::Read;
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let n = s.range(4_000, 40_000);
    let m = Rc::new(MObj { pairs: vec![("a".into(), MV::str(&s.pick(&["x", "é", "漢\n", "\"\\"]).repeat(n / 2))), ("b".into(), MV::int(n))], parent: None });
    let o = build_obj(&m)?;
    let want = o.write_to_string();
    ctx.input = format!("{} bytes", want.len());
    publish_input(&ctx.input);
    let mut fds = [0; 2];
    ensure!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "{}pipe", HARNESS);
    let (mut r, w) = unsafe { (fs::File::from_raw_fd(fds[0]), fs::File::from_raw_fd(fds[1])) };
    unsafe { libc::fcntl(w.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
    let path = format!("/proc/self/fd/{}", w.as_raw_fd());
    let pieces: Vec<(usize, bool)> = (0..s.range(1, 5)).map(|_| (s.range(1, 6_000), s.chance(3, 4))).collect();
    let me = Kick::me();
    let t = std::thread::spawn(move || -> Result<(Vec<u8>, usize), std::io::Error> {
        let mut all = vec![];
        let mut kicked = 0;
        for (n, kick) in pieces {
            if kick && me.kick() {
                kicked += 1;
            }
            let mut buf = vec![0; n];
            let k = r.read(&mut buf)?;
            all.extend_from_slice(&buf[..k]);
        }
        r.read_to_end(&mut all)?;
        Ok((all, kicked))
    });
    let res = no_panic(|| o.write_to_file(&path));
    drop(w);
    let (got, kicked) = t.join().map_err(|_| harness("thread"))?.map_err(harness)?;
    ctx.nontrivial = kicked > 0;
    res?.map_err(|e| format!("writing fails: {}", e))?;
    ensure!(got == want.as_bytes(), "{} bytes come out of the pipe, the text has {}", got.len(), want.len());
    Ok(())
}

/// Into a pipe, which cannot be rewound, cut or replaced.
fn c21_pipe(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::io::Read;
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let m = sized_obj(s);
    let o = build_obj(&m)?;
    let want = o.write_to_string();
    ctx.input = show_mv(&MV::Obj(m.clone()));
    publish_input(&ctx.input);
    ctx.nontrivial = want.len() > 2;
    ctx.label(if want.len() > 65_536 { "more than a pipe holds" } else { "fits the pipe" });
    let mut fds = [0; 2];
    ensure!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "{}pipe", HARNESS);
    let (mut r, w) = unsafe { (fs::File::from_raw_fd(fds[0]), fs::File::from_raw_fd(fds[1])) };
    let path = format!("/proc/self/fd/{}", w.as_raw_fd());
    let piece = *s.pick(&[1usize << 16, 4096, 1000, 7777]);
    let t = std::thread::spawn(move || {
        let mut all = vec![];
        let mut buf = vec![0; piece];
        loop {
            match r.read(&mut buf) {
                Ok(0) => return Ok(all),
                Ok(n) => all.extend_from_slice(&buf[..n]),
                Err(e) => return Err(e),
            }
        }
    });
    let res = no_panic(|| o.write_to_file(&path));
    drop(w);
    let got = t.join().map_err(|_| harness("thread"))?.map_err(harness)?;
    res?.map_err(|e| format!("writing fails: {}", e))?;
    ensure!(got == want.as_bytes(), "{} bytes come out of the pipe, the text has {}", got.len(), want.len());
    Ok(())
}

fn c21_limit(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = fresh_dir();
    let p = d.str("a.over");
    let m = sized_obj(s);
    let o = build_obj(&m)?;
    let len = o.write_to_string().len();
    let limit = match s.weighted(&[50, 20, 20, 10]) {
        0 => s.usize(len + 1),
        1 => len.saturating_sub(s.range(1, 3)),
        2 => len + s.usize(3),
        _ => *s.pick(&[0usize, 1, 4096, 8192, 65536]),
    };
    if s.bool() {
        let n = s.usize(limit.min(50_000) + 1);
        fs::write(&p, vec![b'x'; n]).map_err(harness)?;
    }
    ctx.input = format!("limit {} of {} bytes: {}", limit, len, show_mv(&MV::Obj(m.clone())));
    publish_input(&ctx.input);
    ctx.nontrivial = limit < len;
    ctx.label(if limit < len { "cut off" } else { "enough" });
    let r = in_child(|| {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: limit as u64, rlim_max: limit as u64 };
            if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                return Err(harness("setrlimit"));
            }
        }
        match o.write_to_file(&p) {
            Ok(()) if limit < len => Err(format!("writing {} bytes reports success although only {} fit", len, limit)),
            Err(e) if limit >= len => Err(format!("writing {} bytes fails although {} fit: {}", len, limit, e)),
            _ => Ok(()),
        }
    });
    r?;
    if limit >= len {
        check_written(&m, &o, &p)?;
    }
    Ok(())
}

/// Becomes an unprivileged user (in a child).
fn drop_privileges() -> CaseResult {
    unsafe {
        if libc::geteuid() == 0 && (libc::setgid(65534) != 0 || libc::setuid(65534) != 0) {
            return Err(harness("cannot become an unprivileged user"));
        }
    }
    Ok(())
}

fn c21_refused(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::os::unix::fs::PermissionsExt;
    let d = fresh_dir();
    let m = if s.chance(1, 8) { Rc::new(MObj { pairs: vec![("a".into(), MV::Null)], parent: None }) } else { VG::new(s).obj(s, 1) };
    let o = build_obj(&m)?;
    ctx.nontrivial = true;
    fs::create_dir(d.path().join("dir")).map_err(harness)?;
    d.write("file", b"old")?;
    fs::set_permissions(d.path(), fs::Permissions::from_mode(0o755)).map_err(harness)?;
    fs::set_permissions(d.path().join("file"), fs::Permissions::from_mode(0o444)).map_err(harness)?;
    let (p, l): (String, &'static str) = match s.below(11) {
        0 => (d.str("none/a.over"), "missing directory"),
        1 => (d.str("dir"), "directory"),
        2 => (String::new(), "empty path"),
        3 => (d.str("file/a.over"), "file as a directory"),
        4 => (d.str(&"n".repeat(300)), "name too long"),
        5 => (d.str("a\0b"), "NUL in the path"),
        6 => {
            let _ = symlink("loop", d.path().join("loop"));
            (d.str("loop"), "link loop")
        }
        7 => {
            let _ = symlink("none/x", d.path().join("ln"));
            (d.str("ln"), "dangling link")
        }
        8 => (d.str("file"), "read-only file"),
        9 => (d.str("new"), "read-only directory"),
        _ => {
            let _ = symlink("/dev/full", d.path().join("full"));
            (d.str("full"), "full device")
        }
    };
    ctx.label(l);
    ctx.input = format!("{}: {:?}: {}", l, p, show_mv(&MV::Obj(m.clone())));
    if l != "read-only directory" && s.bool() {
        // Whoever it is may do anything there.
        ctx.label("open to all");
        for at in [d.path(), &d.path().join("dir")] {
            fs::set_permissions(at, fs::Permissions::from_mode(0o777)).map_err(harness)?;
        }
    }
    let empty = o.write_to_string().is_empty();
    in_child(|| {
        drop_privileges()?;
        match o.write_to_file(&p) {
            Err(_) => Ok(()),
            // Nothing is to be written, so nothing can fail.
            Ok(()) if l == "full device" && empty => Ok(()),
            Ok(()) => Err(format!("writing to {:?} ({}) reports success", p, l)),
        }
    })?;
    if l == "read-only file" {
        ensure!(fs::read(d.path().join("file")).map_err(harness)? == b"old", "a refused write changed the file");
    }
    Ok(())
}

fn c21_unreadable(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::os::unix::fs::PermissionsExt;
    let d = fresh_dir();
    ctx.nontrivial = true;
    fs::create_dir(d.path().join("dir")).map_err(harness)?;
    d.write("secret", b"a: 1")?;
    d.write("ok", b"a: 1")?;
    d.write("locked/x", b"a: 1")?;
    d.write("bytes", &[b"a: \"" as &[u8], &[0xc3, 0x28], b"\""].concat())?;
    d.write("bytes2", &[b"a: 1 # " as &[u8], &[0xff], b"\n"].concat())?;
    d.write("bytes3", &[0xfe, 0xff, 0, b'a', 0, b':'])?;
    d.write("cut", &[b"a: \"" as &[u8], &"é".as_bytes()[..1]].concat())?;
    let perm = |f: &str, m: u32| fs::set_permissions(d.path().join(f), fs::Permissions::from_mode(m)).map_err(harness);
    perm("secret", 0o000)?;
    perm("locked", 0o000)?;
    fs::set_permissions(d.path(), fs::Permissions::from_mode(0o755)).map_err(harness)?;
    let _ = symlink("loop", d.path().join("loop"));
    let _ = symlink("none", d.path().join("dangling"));
    let (f, bad): (&str, bool) = *s.pick(&[
        ("none", true),
        ("none/x", true),
        ("dir", true),
        ("ok/x", true),
        ("secret", true),
        ("locked/x", true),
        ("bytes", true),
        ("bytes2", true),
        ("bytes3", true),
        ("cut", true),
        ("loop", true),
        ("dangling", true),
        ("ok", false),
    ]);
    // Directly or through an include of any kind.
    let via = s.below(6);
    let body = match via {
        1 => Some(format!("x: <\"{}\">", f)),
        2 => Some(format!("x: <Str \"{}\">", f)),
        3 => Some(format!("y: 1 x: <Arr \"{}\">", f)),
        4 => Some(format!("x: (1 <Tup \"{}\">)", f)),
        _ => None,
    };
    // Values do not fit the one that is fine.
    let bad = bad || via == 3 || via == 4;
    let p = match &body {
        Some(b) => {
            d.write("main", b.as_bytes())?;
            d.str("main")
        }
        None => d.str(f),
    };
    ctx.label(f);
    ctx.input = format!("{}: {:?}", f, body);
    let r = in_child(|| {
        drop_privileges()?;
        match (bad, Obj::from_file(&p)) {
            (true, Err(_)) => Ok(()),
            (false, Ok(o)) => {
                if o.len() == 1 {
                    Ok(())
                } else {
                    Err("something else was loaded".into())
                }
            }
            (true, Ok(o)) => Err(format!("loading {:?} ({}) gives {}", p, f, show_mv(&MV::Obj(reify_obj(&o))))),
            (false, Err(e)) => Err(format!("loading {:?} fails: {}", p, e)),
        }
    });
    perm("locked", 0o755)?;
    r
}
