use crate::choice::Src;
use crate::gen::*;
use crate::lsp::*;
use crate::runner::Case;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub mod agree;
pub mod scale;
pub mod diag;
pub mod edit;
pub mod hints;
pub mod nav;
pub mod proto;
pub mod robust;
pub mod structure;
pub mod sync;

pub type CheckFn = fn(&mut Src, &mut Case) -> Res<()>;

pub struct Check {
    pub id: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub known: &'static [crate::runner::Known],
}

pub const URI: &str = "file:///w/doc.hir";

/// Canonical list of (uri, range) of a definition / declaration / references result.
pub fn locs(v: &Value) -> Res<Vec<(String, String)>> {
    let arr = match v {
        Value::Null => return Ok(vec![]),
        Value::Array(a) => a.clone(),
        o => vec![o.clone()],
    };
    let mut out = vec![];
    for l in arr {
        let (u, r) = if l.get("targetUri").is_some() {
            (l["targetUri"].clone(), l["targetSelectionRange"].clone())
        } else {
            (l["uri"].clone(), l["range"].clone())
        };
        if let Some(tr) = l.get("targetRange") {
            // the target range has to contain the selection range
            if !range_contains(tr, &r) {
                return viol(format!("targetRange {tr} does not contain targetSelectionRange {r}"));
            }
        }
        out.push((u.as_str().unwrap_or("?").to_string(), rs(&r)));
    }
    out.sort();
    Ok(out)
}

fn pv(p: &Value) -> (u64, u64) {
    (p["line"].as_u64().unwrap_or(u64::MAX), p["character"].as_u64().unwrap_or(u64::MAX))
}
pub fn range_contains(outer: &Value, inner: &Value) -> bool {
    pv(&outer["start"]) <= pv(&inner["start"]) && pv(&inner["end"]) <= pv(&outer["end"])
}

/// Readable canonical form of a range
pub fn rs(r: &Value) -> String {
    format!(
        "{}:{}-{}:{}",
        r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]
    )
}

pub fn expect_locs(d: &Doc, uri: &str, toks: &[usize]) -> Vec<(String, String)> {
    let mut v: Vec<_> = toks.iter().map(|t| (uri.to_string(), rs(&d.range(*t)))).collect();
    v.sort();
    v
}

pub fn random_cfg(s: &mut Src) -> Cfg {
    let mut c = Cfg { messy: s.chance(1, 2), unicode: s.chance(1, 4), ..Cfg::default() };
    if s.chance(1, 40) {
        c.max_stmts = 40;
        c.avg_stmts = 25;
    }
    c
}

pub struct Setup {
    pub m: Module,
    pub d: Doc,
    pub model: Model,
}

pub fn make(s: &mut Src, c: &mut Case, cfg: &Cfg) -> Setup {
    let lc = LCfg::random(s, cfg.unicode);
    let m = module(s, cfg);
    let d = layout(s, &m, &lc);
    let model = Model::new(&m);
    c.doc(&d.text);
    if cfg.messy {
        c.label("messy");
    }
    if !d.text.is_ascii() {
        c.label("non-ascii");
    }
    if d.text.contains('\r') {
        c.label("crlf");
    }
    if m.funcs.len() >= 2 {
        c.label("several functions");
    }
    Setup { m, d, model }
}

/// Occurrences to look at: all of them in small documents, a random sample in larger ones.
pub fn sample_occs(s: &mut Src, occs: &[Occ], max: usize) -> Vec<Occ> {
    if occs.len() <= max {
        return occs.to_vec();
    }
    let mut v = occs.to_vec();
    let mut out = vec![];
    for _ in 0..max {
        let i = s.idx(v.len());
        out.push(v.swap_remove(i));
    }
    out
}

/// Offsets which neither lie in nor touch the end of a symbol.
pub fn non_symbol_offsets(st: &Setup) -> Vec<usize> {
    let n = st.d.map.chars.len();
    let mut free = vec![true; n + 1];
    for o in &st.model.occs {
        let (a, b) = st.d.span[o.tok];
        for f in free.iter_mut().take(b + 1).skip(a) {
            *f = false;
        }
    }
    // positions inside of line ends are no positions of their own
    (0..=n)
        .filter(|o| {
            free[*o]
                && !(*o > 0 && st.d.map.chars.get(*o) == Some(&'\n') && st.d.map.chars[*o - 1] == '\r')
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum DK {
    Undefined,
    Duplicate,
    Extract,
    Syntax,
}

/// Classifies a published diagnostic; symbol diagnostics also yield the symbol name.
pub fn classify(d: &Value) -> (DK, String) {
    let m = d["message"].as_str().unwrap_or("");
    let name = m.split('`').nth(1).unwrap_or("").to_string();
    if m.contains("undefined symbol") {
        (DK::Undefined, name)
    } else if m.contains("already defined") {
        (DK::Duplicate, name)
    } else if m.contains("Failed to extract") {
        (DK::Extract, name)
    } else {
        (DK::Syntax, m.to_string())
    }
}

pub fn describe_tok(st: &Setup, t: usize) -> String {
    let p = st.d.pos(t);
    format!("`{}` at {}:{}", st.m.toks[t].s, p.0, p.1)
}

pub fn last_line(d: &Doc) -> u64 {
    d.map.line_count() as u64
}

pub fn as_arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

/// Text edits of a WorkspaceEdit, which may only concern the given document.
pub fn edits_of(v: &Value, uri: &str) -> Res<Vec<Value>> {
    let mut out = vec![];
    if let Some(ch) = v.get("changes").and_then(|c| c.as_object()) {
        for (u, e) in ch {
            if u != uri && !as_arr(e).is_empty() {
                return viol(format!("edit of another document: {u}"));
            }
            out.extend(as_arr(e));
        }
    }
    if let Some(dc) = v.get("documentChanges").and_then(|c| c.as_array()) {
        for c in dc {
            if c["textDocument"]["uri"] != uri {
                return viol(format!("edit of another document: {}", c["textDocument"]));
            }
            // clients drop edits of another version than theirs
            if !matches!(c["textDocument"]["version"].as_i64(), None | Some(1)) {
                return viol(format!("edit of another version of the document: {}", c["textDocument"]));
            }
            out.extend(as_arr(&c["edits"]));
        }
    }
    Ok(out)
}

/// The text after replacing the given tokens.
pub fn replaced(st: &Setup, repl: &BTreeMap<usize, String>) -> String {
    let edits: Vec<Value> =
        repl.iter().map(|(t, n)| json!({"range": st.d.range(*t), "newText": n})).collect();
    st.d.map.apply(&edits).expect("model edits")
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(robust::checks());
    v.extend(nav::checks());
    v.extend(edit::checks());
    v.extend(diag::checks());
    v.extend(structure::checks());
    v.extend(hints::checks());
    v.extend(sync::checks());
    v.extend(agree::checks());
    v.extend(scale::checks());
    v.extend(proto::checks());
    v.sort_by_key(|c| c.id);
    v
}
