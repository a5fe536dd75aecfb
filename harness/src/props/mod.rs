//! The properties, and what their checks have in common.

pub mod api;
pub mod cost;
pub mod files;
pub mod keep;
pub mod robust;
pub mod text;
pub mod values;

use crate::engine::*;
use crate::gen::*;
use crate::mval::*;
use crate::refparse::{self, Outcome, RErr};
use over::obj::Obj;
use over::OverError;
use std::str::FromStr;

pub const PURE: &str = "the model of values and the reference reader in /verif/harness are right; num-bigint and num-rational compute exactly";

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(text::props());
    v.extend(api::props());
    v.extend(values::props());
    v.extend(files::props());
    v.extend(keep::props());
    v.extend(cost::props());
    v.extend(robust::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn sub(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Sub {
    Sub { name, quick, thorough, run }
}

pub fn parse(text: &str) -> Result<Result<Obj, OverError>, String> {
    no_panic(|| Obj::from_str(text))
}

/// The line and column an error message names first.
pub fn err_pos(msg: &str) -> Option<(usize, Option<usize>)> {
    let mut from = 0;
    while let Some(k) = msg[from..].find("line ") {
        let rest = &msg[from + k + 5..];
        let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(line) = n.parse() {
            let rest = &rest[n.len()..];
            let col = rest
                .strip_prefix(", column ")
                .or_else(|| rest.strip_prefix(", col "))
                .and_then(|r| r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok());
            return Some((line, col));
        }
        from += k + 5;
    }
    None
}

/// Whether an error names the right file and place.
pub fn check_pos(e: &OverError, want: &RErr) -> CaseResult {
    let msg = match e {
        OverError::ParseError(m) => m.clone(),
        e => return Err(format!("the error is not a parse error: {:?}", e)),
    };
    let body: &str = match &want.file {
        Some(f) => match msg.strip_prefix(&format!("{}: ", f)) {
            Some(b) => b,
            None => return Err(format!("the message does not begin with the path {:?} of the faulty file: {:?}", f, msg)),
        },
        None => &msg,
    };
    let (line, col) = match err_pos(body) {
        Some(p) => p,
        None => return Err(format!("the message names no line: {:?} (expected {:?})", msg, want)),
    };
    if want.newline {
        if line != want.line && line != want.line + 1 {
            return Err(format!("the message names line {}, expected {} or the next: {:?}, {:?}", line, want.line, msg, want));
        }
        return Ok(());
    }
    if line != want.line {
        return Err(format!("the message names line {}, expected {}: {:?}, {:?}", line, want.line, msg, want));
    }
    if let (Some(c), Some(w)) = (col, want.col) {
        if c != w {
            return Err(format!("the message names column {}, expected {}: {:?}, {:?}", c, w, msg, want));
        }
    }
    Ok(())
}

/// What a document has to be, and is.
pub struct Verdict {
    pub want: Outcome,
    pub got: Option<Result<Obj, OverError>>,
}

/// Compares reading a text with the reference reader. With `positions`, errors must name the place.
pub fn judge(text: &str, ctx: &mut Ctx, positions: bool) -> Result<Verdict, String> {
    let want = refparse::read_text(text);
    let got = parse(text)?;
    compare(want, got, ctx, positions)
}

pub fn judge_file(path: &str, ctx: &mut Ctx, positions: bool) -> Result<Verdict, String> {
    let want = refparse::read_file(path);
    let got = no_panic(|| Obj::from_file(path))?;
    compare(want, got, ctx, positions)
}

fn compare(want: Outcome, got: Result<Obj, OverError>, ctx: &mut Ctx, positions: bool) -> Result<Verdict, String> {
    match (&want, &got) {
        (Outcome::Unspec(_), _) => ctx.label("unspecified"),
        (Outcome::Ok(m), Ok(o)) => {
            ctx.label("accepted");
            cmp_obj(m, o).map_err(|e| format!("read as something else: {}", e))?;
        }
        (Outcome::Err(w), Err(e)) => {
            ctx.label("rejected");
            ctx.label(w.what);
            if positions && w.line > 0 {
                check_pos(e, w)?;
            }
        }
        (Outcome::Ok(_), Err(e)) => return Err(format!("a well-formed document is rejected: {}", e)),
        (Outcome::Err(w), Ok(o)) => {
            return Err(format!("an ill-formed document ({:?}) is accepted as {}", w, show_mv(&MV::Obj(reify_obj(o)))))
        }
    }
    Ok(Verdict { want, got: Some(got) })
}

/// A generated document: its text and what it denotes, double-checked by the reference reader.
pub fn gen_doc(s: &mut Src, ctx: &mut Ctx, cfg: Cfg, style: Option<Style>) -> (String, std::rc::Rc<MObj>, TG) {
    let mut g = TG::new(cfg);
    let m = g.doc(s);
    let style = match style {
        Some(st) => st,
        None => pick_style(s),
    };
    let text = render(s, &g.toks, style);
    for l in &g.labels {
        ctx.label(l);
    }
    ctx.input = text.clone();
    publish_input(&text);
    (text, m, g)
}

/// The reference reader and the generator must agree on a document: otherwise the harness is wrong.
pub fn self_check(text: &str, m: &MObj) -> CaseResult {
    match refparse::read_text(text) {
        Outcome::Ok(o) => {
            if o.same(m) {
                Ok(())
            } else {
                Err(format!(
                    "{}generator and reference reader disagree on {:?}: {} / {}",
                    HARNESS,
                    text,
                    show_mv(&MV::Obj(std::rc::Rc::new(MObj { pairs: m.pairs.clone(), parent: m.parent.clone() }))),
                    show_mv(&MV::Obj(o))
                ))
            }
        }
        o => Err(format!("{}the reference reader rejects a generated document {:?}: {:?}", HARNESS, text, o)),
    }
}
