//! Inlay hints: incoming edges, end of function, backtraces; external definitions.
use super::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C17", f: c17, quick: 6000, thorough: 60000, known: &[], rule: "generated module with several functions and all branch forms; non-trivial = some labelled block has at least two incoming blocks, or two functions share a label; distinct by document" },
        Check { id: "C18", f: c18, quick: 6000, thorough: 50000, known: &[], rule: "generated module whose annotations hold generated backtraces (plus non-backtrace JSON and other values), with workspace roots containing some of the files; non-trivial = at least one instruction with a backtrace of at least two frames; distinct by document" },
        Check { id: "C19", f: c19, quick: 5000, thorough: 50000, known: &[], rule: "generated declarations with annotations of all forms (path:line, missing or overflowing line, other values), one to three roots containing overlapping files; non-trivial = some declaration has a resolvable annotation and some other one has not; distinct by document and roots" },
        Check { id: "C23", f: c23, quick: 6000, thorough: 50000, known: &[], rule: "backtraces with symbols drawn from Markdown-relevant fragments, control characters and arbitrary Unicode; non-trivial = at least one symbol with a character that has to be replaced; distinct by document" },
    ]
}

fn all_hints(srv: &mut Server, d: &Doc) -> Res<Vec<Value>> {
    let id = srv.hints_req(URI, last_line(d));
    Ok(as_arr(&srv.result(id)?))
}

fn hint_pos(h: &Value) -> (u64, u64) {
    (h["position"]["line"].as_u64().unwrap_or(u64::MAX), h["position"]["character"].as_u64().unwrap_or(u64::MAX))
}

/// (text, location as (uri, range)) of the label parts with a location
pub fn linked_parts(h: &Value) -> Vec<(String, String, String)> {
    as_arr(&h["label"])
        .iter()
        .filter(|p| p.get("location").map_or(false, |l| !l.is_null()))
        .map(|p| {
            (
                p["value"].as_str().unwrap_or("?").to_string(),
                p["location"]["uri"].as_str().unwrap_or("?").to_string(),
                rs(&p["location"]["range"]),
            )
        })
        .collect()
}

fn c17(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg {
        messy: s.chance(1, 2),
        unicode: s.chance(1, 4),
        irregular: s.chance(1, 3),
        w: [1, 1, 7, 0, 2, 0],
        ..Cfg::default()
    };
    let st = make(s, c, &cfg);
    // expected: position -> linked parts
    let mut exp: BTreeMap<(u64, u64), Vec<(String, String, String)>> = BTreeMap::new();
    let mut labels_of: Vec<BTreeSet<String>> = vec![];
    for f in &st.m.funcs {
        let mut names = BTreeSet::new();
        for b in &f.blocks {
            let Some((l, colon)) = b.label else { continue };
            let name = &st.m.toks[l].s;
            names.insert(name.clone());
            let mut inc = vec![];
            for src in &f.blocks {
                let Some((sl, _)) = src.label else { continue };
                let hits = src.instrs.iter().any(|i| i.branching && i.refs.iter().any(|r| st.m.toks[*r].s == *name));
                if hits {
                    inc.push((st.m.toks[sl].s.clone(), URI.to_string(), rs(&st.d.range(sl))));
                }
            }
            inc.sort();
            if inc.len() >= 2 {
                c.nontrivial = true;
                c.label("several incoming blocks");
            }
            if !inc.is_empty() {
                exp.insert(st.d.map.pos(st.d.span[colon].1), inc);
            }
        }
        if labels_of.iter().any(|o| o.intersection(&names).next().is_some()) {
            c.nontrivial = true;
            c.label("shared label");
        }
        labels_of.push(names);
        exp.insert(
            st.d.map.pos(st.d.span[f.close].1),
            vec![(st.m.toks[f.name].s.clone(), URI.to_string(), rs(&st.d.range(f.name)))],
        );
    }
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let hints = all_hints(&mut srv, &st.d)?;
    let mut seen = BTreeSet::new();
    for h in &hints {
        let p = hint_pos(h);
        if !seen.insert(p) {
            return viol(format!("two hints at {}:{}", p.0, p.1));
        }
        let Some(e) = exp.get(&p) else {
            return viol(format!("unexpected hint at {}:{}: {}", p.0, p.1, h["label"]));
        };
        let mut g = linked_parts(h);
        g.sort();
        if g != *e {
            return viol(format!("hint at {}:{} links to {g:?}, expected {e:?}", p.0, p.1));
        }
    }
    for (p, e) in &exp {
        if !seen.contains(p) {
            return viol(format!("no hint at {}:{}, expected {e:?}", p.0, p.1));
        }
    }
    c.add("hints", hints.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Backtraces

pub fn percent_decode(t: &str) -> String {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let Ok(v) = u8::from_str_radix(&t[i + 1..i + 3], 16) {
                out.push(v);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).to_string()
}

/// The local path of a file URI, with doubled slashes removed
pub fn uri_path(u: &str) -> Option<PathBuf> {
    let p = u.strip_prefix("file://")?;
    Some(Path::new(&percent_decode(p)).components().collect())
}

pub fn file_uri(p: &Path) -> String {
    let mut out = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) {
            out.push(b as char);
        } else {
            out.push_str(&format!("%{b:02X}"));
        }
    }
    out
}

fn allowed(c: char) -> bool {
    c.is_alphanumeric() || ".,:+-=/*<>_ ".contains(c)
}

/// Characters whose classification might depend on the version of the Unicode tables (ours might
/// differ from the server's): marks and everything but a few old alphabets.
fn unsettled(c: char) -> bool {
    !c.is_ascii() && !matches!(c, 'à'..='ö' | 'Α'..='Ρ' | 'α'..='ω' | 'А'..='я' | '一'..='龥' | '\u{1d400}'..='\u{1d454}' | '\u{80}'..='\u{a0}' | '\u{2000}'..='\u{206f}')
}

/// Whether `got` shows the symbol: allowed characters unchanged, others replaced by something harmless.
fn shows(got: &str, symbol: &str) -> bool {
    let (g, w): (Vec<char>, Vec<char>) = (got.chars().collect(), symbol.chars().collect());
    g.len() == w.len()
        && g.iter().zip(&w).all(|(g, w)| {
            if allowed(*w) && !unsettled(*w) {
                g == w
            } else {
                (g != w || unsettled(*w)) && *g != '`' && *g != '\n' && *g != '\r' && !g.is_control() && !"\u{2028}\u{2029}\u{85}".contains(*g)
            }
        })
}

#[derive(Clone, Debug)]
struct Fr {
    json: String,
    symbol: String,
    file: Option<(String, u32)>,
}

fn json_str(s: &mut Src, t: &str) -> String {
    // no quote may appear inside of a Hyper IR string
    let mut out = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\u0022"),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || matches!(c, '\u{7f}' | '\u{85}' | '\u{2028}' | '\u{2029}') => out.push_str(&format!("\\u{:04x}", c as u32)),
            c if s.chance(1, 40) && (c as u32) < 0x10000 => out.push_str(&format!("\\u{:04X}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn short(p: &str) -> &str {
    match p.rfind(|c| c == '/' || c == '\\') {
        Some(i) => &p[i + 1..],
        None => p,
    }
}

const SYMS: &[&str] = &[
    "main", " ", "  ", "operator new", "hyper::TableScan", "foo(int, char*)", "std::vector<int>::push_back", "f", "Translator", "consume",
    "Translator:consume", "translator::consume", "a_b=c-d/e+f", "naïve::λ", "变量::函数", "🦀::crab",
    "a::very::long::name::that::does::not::fit::into::the::hint::at::all::and::goes::on", "日本語日本語日本語日本語日本語日本語日本語日本語日本語日本語",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaéb", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaéb", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "deriveValue", "SubTranslator::x::drivePipelineX",
];
const CATS: &[&str] = &[
    "hyper::MapTranslator::consume", "X::JoinTranslator::produceMaterializedResult", "ScanTranslator::drivePipeline(a)", "ExprTranslator::deriveValue",
    "GroupByTranslator::helper", "Translator::", "Translator::consumeAll", "Translator::produce",
];
const FILES: &[&str] = &[
    "src/a.cpp", "./src/a.cpp", "hyper/ir/Builder.cpp", "hyper/codegen/Gen.cpp", "./hyper/ir/Builder.cpp", "hyper/codegenerator.cpp", "hyper/irx/Y.cpp",
    "src/with space.cpp", "src/ünï.cpp", "b.hpp", "missing/no.cpp", "c\\win\\file.cpp", "src/deep/er/file.cc", "src/a+b,c.cpp", "src/hash#q.cpp", "hyper/ir_x.cpp",
];
const EXISTING: &[&str] = &[
    "src/a.cpp", "hyper/ir/Builder.cpp", "hyper/codegen/Gen.cpp", "hyper/codegenerator.cpp", "src/with space.cpp", "src/ünï.cpp", "b.hpp",
    "src/deep/er/file.cc", "src/a+b,c.cpp", "src/hash#q.cpp", "hyper/irx/Y.cpp",
];

/// File names that mean something in Markdown
const NASTY: &[&str] = &[
    "src/a)b.cpp", "src/(x).cpp", "src/a(b.cpp", "src/a]b[c.cpp", "src/[l](m).cpp", "src/`t`.cpp", "src/__i__.cpp", "src/*s*.cpp", "src/**b**", "src/<b>.cpp", "src/&lt;.cpp", "src/a&amp;b", "src/~~x~~",
    "src/my_file_1.cpp", "src/!x.cpp", "src/a](x.cpp", "src/`", "src/x y.cpp", "src/$a$.cpp", "src/|a|.cpp", "(p)/a.cpp", "src/a%20b.cpp", "src/\"q\".cpp", "src/_a_.cpp", "src/<", "src/é*变*.cpp", "src/a?b.cpp", "src/{x}.cpp",
];
/// The same, not on the file system
const NASTY_MISSING: &[&str] = &["src/a\nb.cpp", "x\n* y", "a\r\nb", "x\n\n# h", "no/[l](m).cpp\n", "no/`x", "no/[a", "a\u{85}b", "a\u{b}b", "*", "_", "no/\\*", "no/\\`a`", "no/a\\", "no/&#42;", "no/<!--"];

fn frame(s: &mut Src, sym: Option<String>, files: &[&str]) -> Fr {
    let (sj, sym): (Option<String>, Option<String>) = match sym {
        Some(x) => (Some(json_str(s, &x)), Some(x)),
        None => match s.weighted(&[8, 5, 2, 1, 1, 1]) {
            0 => {
                let x = s.pick(SYMS).to_string();
                (Some(json_str(s, &x)), Some(x))
            }
            1 => {
                let x = s.pick(CATS).to_string();
                (Some(json_str(s, &x)), Some(x))
            }
            2 => (Some("\"\"".into()), None),
            3 => (Some("null".into()), None),
            4 => (Some("12".into()), None),
            _ => (None, None),
        },
    };
    let link: Option<(String, Option<(String, u32)>)> = match s.weighted(&[10, 3, 1, 1, 1, 1]) {
        0 => {
            let f = s.pick(files).to_string();
            let l = match s.weighted(&[4, 1, 1]) {
                0 => 1 + s.below(500) as u32,
                1 => 0,
                _ => u32::MAX,
            };
            Some((format!("{f}:{l}"), Some((f, l))))
        }
        1 => None,
        2 => Some((s.pick(files).to_string(), None)),
        3 => Some((format!("{}:x1", s.pick(files)), None)),
        4 => Some((format!("C:/x/{}:7", s.pick(files)), None)),
        _ => Some((format!("{}:4294967296", s.pick(files)), None)),
    };
    let Some(sj) = sj else {
        // no elements at all
        let j = s.pick(&["[]", "{}", "null", "3", "true"]).to_string();
        return Fr { json: j, symbol: "<invalid>".into(), file: None };
    };
    let sp = if s.chance(1, 4) { " " } else { "" };
    let (json, file) = match &link {
        None => {
            let j = match s.idx(3) {
                0 => format!("[{sj}]"),
                1 => format!("[{sj},{sp}null]"),
                _ => format!("[{sj},{sp}7]"),
            };
            (j, None)
        }
        Some((l, f)) => {
            let lj = json_str(s, l);
            (format!("[{sj},{sp}{lj}]"), f.clone())
        }
    };
    let symbol = match (sym, &link) {
        (Some(x), _) if !x.is_empty() => x,
        (_, Some((l, _))) => short(l).to_string(),
        _ => "<invalid>".into(),
    };
    Fr { json, symbol, file }
}

/// Rank of the frame to show
fn pick_frame(frames: &[Fr]) -> Option<usize> {
    for cat in ["Translator::consume", "Translator::produceMaterializedResult", "Translator::drivePipeline", "Translator::deriveValue", "Translator::"] {
        if let Some(i) = frames.iter().position(|f| f.symbol.contains(cat)) {
            return Some(i);
        }
    }
    frames.iter().position(|f| f.file.as_ref().map_or(false, |(p, _)| !p.contains("hyper/ir/") && !p.contains("hyper/codegen")))
}

struct Roots {
    opts: InitOpts,
    dirs: Vec<PathBuf>,
}

/// One to three roots below a scratch directory, each holding some of the files.
fn roots(s: &mut Src, c: &mut Case, files: &[&str]) -> Roots {
    let base = c.scratch_dir();
    std::fs::write(base.join("outside.cpp"), "x\n").unwrap();
    let n = s.weighted(&[4, 3, 2, 1]);
    let mut dirs = vec![];
    let mut uris = vec![];
    let mut sig = vec![];
    let n = if n == 3 { 0 } else { n + 1 };
    for i in 0..n {
        let name = format!("{}{}", s.pick(&["root", "my root", "wörk", "r#1", "a%20b"]), i);
        let d = base.join(&name);
        std::fs::create_dir_all(&d).unwrap();
        for f in files {
            if s.chance(1, 2) {
                let p = d.join(f);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, "line\n").unwrap();
                sig.push(format!("{name}/{f}"));
            }
        }
        // roots which are not on this file system come to nothing
        if s.chance(1, 8) {
            uris.push("vscode-vfs://github/org/repo".to_string());
        }
        let mut u = file_uri(&d);
        if s.chance(1, 4) {
            u.push('/');
        }
        uris.push(u);
        dirs.push(d);
    }
    let mut opts = InitOpts::default();
    if n == 1 && s.chance(1, 2) && uris.len() == 1 {
        opts.root_uri = uris.pop();
        sig.push("rootUri".into());
    } else if n > 0 || s.chance(1, 2) {
        // the root URI is ignored if there are folders
        if s.chance(1, 3) {
            let d = base.join("ignored");
            std::fs::create_dir_all(&d).unwrap();
            for f in files {
                let p = d.join(f);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, "line\n").unwrap();
            }
            opts.root_uri = Some(file_uri(&d));
        }
        opts.folders = Some(uris);
    }
    c.note(format!("{n} roots with {sig:?}"));
    Roots { opts, dirs }
}

/// Some files of the roots come, others go.
fn toggle(s: &mut Src, c: &mut Case, r: &Roots, files: &[&str]) {
    let mut sig = vec![];
    for d in &r.dirs {
        for f in files {
            if s.chance(2, 3) {
                continue;
            }
            let p = d.join(f);
            if p.is_file() {
                std::fs::remove_file(&p).unwrap();
            } else {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, "line\n").unwrap();
            }
            sig.push(format!("{}/{f}", d.file_name().unwrap().to_string_lossy()));
        }
    }
    c.note(format!("then created or removed: {sig:?}"));
}

/// The file of the first root that contains it
fn resolve(r: &Roots, path: &str) -> Option<PathBuf> {
    r.dirs.iter().map(|d| d.join(path)).find(|p| p.is_file()).map(|p| p.components().collect())
}

/// Checks that the Markdown text, which is part of a line, is displayed as `name` without any markup.
fn literal(md: &str, name: &str) -> Result<(), String> {
    let ch: Vec<char> = md.chars().collect();
    let word = |i: Option<&char>| i.map_or(false, |c| c.is_alphanumeric());
    let mut shown = vec![];
    let mut i = 0;
    while i < ch.len() {
        let c = ch[i];
        if c == '\\' && ch.get(i + 1).map_or(false, |c| c.is_ascii_punctuation()) {
            shown.push(ch[i + 1]);
            i += 2;
            continue;
        }
        let intraword = i > 0 && word(ch.get(i - 1)) && word(ch.get(i + 1));
        if "`*[]<~\\".contains(c) || c == '_' && !intraword || c == '&' && ch.get(i + 1).map_or(false, |c| *c == '#' || c.is_ascii_alphabetic()) {
            return Err(format!("{c:?} is not escaped in the file name, shown as {md:?}"));
        }
        shown.push(c);
        i += 1;
    }
    let want: Vec<char> = name.chars().collect();
    let same = shown.len() == want.len()
        && shown.iter().zip(&want).all(|(g, w)| if w.is_control() || "\u{2028}\u{2029}".contains(*w) { !g.is_control() && !g.is_ascii_punctuation() } else { g == w });
    if same {
        Ok(())
    } else {
        Err(format!("file shown as {md:?}, expected {name:?}"))
    }
}

/// Checks one line of a backtrace tooltip
fn check_line(line: &str, f: &Fr, r: &Roots) -> Result<(), String> {
    let rest = line.strip_prefix('`').ok_or("no code span")?;
    let n = f.symbol.chars().count();
    let sym: String = rest.chars().take(n).collect();
    if !shows(&sym, &f.symbol) {
        return Err(format!("symbol {:?} is shown as {sym:?}", f.symbol));
    }
    let rest: String = rest.chars().skip(n).collect();
    let rest = rest.strip_prefix('`').ok_or("the code span does not end after the symbol")?;
    let Some((p, l)) = &f.file else {
        return if rest.is_empty() { Ok(()) } else { Err(format!("unexpected {rest:?} after the symbol")) };
    };
    let rest = rest.strip_prefix(" @ ").ok_or("no file")?;
    let name = format!("{}:{}", short(p), l);
    match resolve(r, p) {
        None => literal(rest, &name)?,
        Some(path) => {
            let rest = rest.strip_prefix('[').ok_or_else(|| format!("file shown as {rest:?}, expected a link named {name:?}"))?;
            // the link text ends at the first bracket that is not escaped
            let mut esc = false;
            let end = rest.char_indices().find(|(_, c)| {
                let e = *c == ']' && !esc;
                esc = *c == '\\' && !esc;
                e
            });
            let (end, _) = end.ok_or("the link text does not end")?;
            literal(&rest[..end], &name)?;
            let rest = rest[end..].strip_prefix("](").ok_or("no link destination")?;
            let rest = rest.strip_suffix(')').ok_or("link does not end")?;
            if rest.chars().any(|c| c == ' ' || c.is_control() || "<>\\".contains(c)) {
                return Err(format!("bad link destination {rest:?}"));
            }
            let mut depth = 0;
            for c in rest.chars() {
                depth += (c == '(') as i32 - (c == ')') as i32;
                if depth < 0 {
                    break;
                }
            }
            if depth != 0 {
                return Err(format!("the link destination {rest:?} has unbalanced parentheses"));
            }
            let rest = rest.strip_suffix(&format!("#{l}")[..]).ok_or_else(|| format!("link {rest:?} does not lead to line {l}"))?;
            if uri_path(rest).as_ref() != Some(&path) {
                return Err(format!("link {rest:?} does not lead to {path:?}"));
            }
        }
    }
    Ok(())
}

fn tooltip(p: &Value) -> String {
    if p["tooltip"].is_string() {
        p["tooltip"].as_str().unwrap().to_string()
    } else {
        p["tooltip"]["value"].as_str().unwrap_or("").to_string()
    }
}

/// A module whose debug annotations are replaced by the given values.
fn annotated(s: &mut Src, cfg: &Cfg, mut value: impl FnMut(&mut Src, &str) -> Option<String>) -> Module {
    let mut m = module(s, cfg);
    let stmts = m.stmts.clone();
    for x in &stmts {
        if x.kind != SK::Dbg || x.toks.1 - x.toks.0 < 3 {
            continue;
        }
        let name = m.toks[x.toks.0].s.clone();
        if let Some(v) = value(s, &name) {
            let t = x.toks.0 + 2;
            m.toks[t].s = v;
            m.toks[t].k = TK::Punct;
            m.toks[t].r = R::Plain;
            // drop the remaining tokens of the old value
            for o in t + 1..x.toks.1 {
                m.items.retain(|i| *i != It::T(o));
                m.toks[o].k = TK::Punct;
                m.toks[o].r = R::Plain;
            }
        }
    }
    m
}

fn object(s: &mut Src, frames: &[Fr]) -> String {
    let sp = if s.chance(1, 4) { " " } else { "" };
    let arr = frames.iter().map(|f| f.json.clone()).collect::<Vec<_>>().join(&format!(",{sp}"));
    let mut fields = vec![format!("\"backtrace\":{sp}[{arr}]")];
    if s.chance(1, 3) {
        let i = s.idx(2);
        fields.insert(i, s.pick(&["\"x\": 12", "\"loc\": {\"a\": [1, 2]}", "\"name\": null", "\"b\": 1.5"]).to_string());
    }
    format!("{{{sp}{}{sp}}}", fields.join(&format!(",{sp}")))
}

fn run_backtraces(s: &mut Src, c: &mut Case, syms: Option<fn(&mut Src) -> String>, check_all: bool) -> Res<()> {
    let cfg = Cfg {
        messy: false,
        unicode: s.chance(1, 4),
        w: [1, 1, 6, 0, 5, 0],
        irregular: s.chance(1, 5),
        ..Cfg::default()
    };
    let mut files = FILES.to_vec();
    let mut existing = EXISTING.to_vec();
    if syms.is_some() {
        files.extend(NASTY);
        files.extend(NASTY_MISSING);
        existing.extend(NASTY);
    }
    let r = roots(s, c, &existing);
    let mut srv = c.server(&r.opts)?;
    let rounds = 1 + s.weighted(&[3, 1]);
    let mut nontrivial = false;
    for v in 1..=rounds as i64 {
        if v > 1 && s.chance(1, 2) {
            toggle(s, c, &r, &existing);
        }
        backtraces(s, c, &mut srv, v, &r, &cfg, &files, syms, check_all)?;
        nontrivial |= c.nontrivial;
    }
    c.nontrivial = nontrivial;
    Ok(())
}

/// Makes the next version of the document and checks its hints.
#[allow(clippy::too_many_arguments)]
fn backtraces(s: &mut Src, c: &mut Case, srv: &mut Server, v: i64, r: &Roots, cfg: &Cfg, files: &[&'static str], syms: Option<fn(&mut Src) -> String>, check_all: bool) -> Res<()> {
    let mut bts: BTreeMap<String, Vec<Fr>> = BTreeMap::new();
    let mut m = annotated(s, cfg, |s, name| match s.weighted(&[16, 2, 2, 1]) {
        0 => {
            let mut fr = vec![];
            let (max, avg) = if s.chance(1, 40) { (90, 60) } else { (7, 3) };
            while s.more(fr.len(), max, avg) {
                let sym = syms.filter(|_| s.chance(7, 8)).map(|f| f(s));
                fr.push(frame(s, sym, files));
            }
            let t = object(s, &fr);
            bts.insert(name.to_string(), fr);
            Some(t)
        }
        1 => Some(
            s.pick(&[
                "{\"backtrace\": {}}", "{\"backtrace\": null}", "{\"Backtrace\": [[\"f\", \"a.cpp:1\"]]}", "[[\"f\", \"a.cpp:1\"]]", "{\"backtrace\": [[\"f\"]}",
                "\"a.cpp:12\"", "{\"x\": {\"backtrace\": [[\"f\"]]}}", "12", "{}", "{backtrace: [[\"f\"]]}", "{\"backtrace\": \"f\"}",
            ])
            .to_string(),
        ),
        3 => {
            // further tokens after the object: the value is no JSON
            let fr = [frame(s, None, files)];
            Some(format!("{}{}", object(s, &fr), s.pick(&[" !5", " }", " 5", " x", " {}", " ,", "\"\"", " @a"])))
        }
        _ => None,
    });
    // some references are not annotated
    let defs: BTreeSet<usize> = m.stmts.iter().map(|x| x.toks.0).collect();
    for (i, t) in m.toks.iter_mut().enumerate() {
        if t.k == TK::Dbg && t.r == R::Use && !defs.contains(&i) && s.chance(1, 15) {
            t.s = "!not_annotated".into();
        }
    }
    let lc = LCfg::random(s, cfg.unicode);
    let d = layout(s, &m, &lc);
    c.doc(&d.text);
    let mut exp: BTreeMap<(u64, u64), &Vec<Fr>> = BTreeMap::new();
    for f in &m.funcs {
        for i in f.blocks.iter().flat_map(|b| b.instrs.iter()) {
            if let Some(g) = i.dbg {
                if let Some(fr) = bts.get(&m.toks[g].s) {
                    exp.insert(d.map.pos(d.span[g].1), fr);
                    c.add("frames", fr.len() as u64);
                }
            }
        }
    }
    c.nontrivial = if syms.is_some() {
        exp.values().any(|f| f.iter().any(|x| x.symbol.chars().any(|c| !allowed(c))))
    } else {
        exp.values().any(|f| f.len() >= 2)
    };
    if v == 1 {
        srv.open(URI, v, &d.text);
    } else {
        srv.change(URI, v, &d.text);
    }
    let hints = all_hints(srv, &d)?;
    // positions of the other kinds of hints
    let mut other = BTreeSet::new();
    for f in &m.funcs {
        other.insert(d.map.pos(d.span[f.close].1));
        for b in &f.blocks {
            if let Some((_, colon)) = b.label {
                other.insert(d.map.pos(d.span[colon].1));
            }
        }
    }
    let mut seen = BTreeSet::new();
    for h in &hints {
        let p = hint_pos(h);
        let Some(fr) = exp.get(&p) else {
            if other.contains(&p) {
                continue;
            }
            return viol(format!("unexpected hint at {}:{}: {}", p.0, p.1, h["label"]));
        };
        if !seen.insert(p) {
            return viol(format!("two hints at {}:{}", p.0, p.1));
        }
        let parts = as_arr(&h["label"]);
        let Some(last) = parts.last() else {
            return viol(format!("hint at {}:{} has no label parts: {h}", p.0, p.1));
        };
        let full = tooltip(last);
        let lines: Vec<&str> = if full.is_empty() { vec![] } else { full.split('\n').collect() };
        if lines.len() != fr.len() {
            return viol(format!("the backtrace at {}:{} has {} lines for {} frames: {full:?}", p.0, p.1, lines.len(), fr.len()));
        }
        for (l, f) in lines.iter().zip(fr.iter()) {
            let Some(l) = l.strip_prefix("* ") else {
                return viol(format!("backtrace line {l:?} is no list item"));
            };
            if let Err(e) = check_line(l, f, r) {
                return viol(format!("backtrace line {l:?} of frame {f:?}: {e}"));
            }
        }
        let shown = &parts[..parts.len() - 1];
        let with_tip: Vec<&Value> = shown.iter().filter(|p| !tooltip(p).is_empty()).collect();
        match pick_frame(fr) {
            None if check_all => {
                if !shown.is_empty() {
                    return viol(format!("hint at {}:{} shows a frame, expected none: {}", p.0, p.1, h["label"]));
                }
            }
            Some(i) => {
                let f = &fr[i];
                if with_tip.len() != 1 {
                    return viol(format!("hint at {}:{} shows {} frames, expected frame {i}: {}", p.0, p.1, with_tip.len(), h["label"]));
                }
                let v = with_tip[0]["value"].as_str().unwrap_or("");
                let shortened = v.ends_with('…') && f.symbol.starts_with(v.trim_end_matches('…')) && f.symbol.len() > 40;
                if check_all && v != f.symbol && !(shortened && v.len() > 20) {
                    return viol(format!("hint at {}:{} shows {v:?}, expected frame {i} with symbol {:?}", p.0, p.1, f.symbol));
                }
                let t = tooltip(with_tip[0]);
                if t.contains('\n') {
                    return viol(format!("tooltip {t:?} of the shown frame has several lines"));
                }
                if let Err(e) = check_line(&t, f, r) {
                    return viol(format!("tooltip {t:?} of the shown frame {f:?}: {e}"));
                }
            }
            None => {}
        }
    }
    for p in exp.keys() {
        if !seen.contains(p) {
            return viol(format!("no backtrace hint at {}:{}", p.0, p.1));
        }
    }
    c.add("backtrace hints", exp.len() as u64);
    Ok(())
}

fn c18(s: &mut Src, c: &mut Case) -> Res<()> {
    run_backtraces(s, c, None, true)
}

fn nasty_symbol(s: &mut Src) -> String {
    const FRAG: &[&str] = &[
        "`", "``", "\n", "\r\n", "\r", "\n* ", "\n\n", "](http://x)", "[a](b)", "<script>", "&amp;", "\\", "\\`", "**b**", "__", "~~", "|", "\n# h", "\n```\n", "!", "$", "%", "\t",
        "\u{0}", "\u{1b}", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{202e}", "\u{feff}", "\u{3000}", "\u{2003}", "\"", "'", "(", ")", "{", "}", "#", "@", "^", "?", ";",
        "é", "变", "🦀", "a", "foo::bar", " ", "  ", "<int>", "x_1", "\u{301}", "½", "Translator::consume", "ˋ", "´", "｀", "1.5e+3", "a=b", "c/d", ",", "*", "-", "+", "~", "&", "=",
    ];
    let mut t = String::new();
    let mut n = 0;
    let (max, avg) = if s.chance(1, 30) { (120, 80) } else { (12, 3) };
    while n == 0 || s.more(n, max, avg) {
        n += 1;
        if s.chance(1, 8) {
            let c = char::from_u32(s.below(0x3000) as u32).unwrap_or('x');
            t.push(c);
        } else {
            t.push_str(s.pick(FRAG));
        }
    }
    t
}

fn c23(s: &mut Src, c: &mut Case) -> Res<()> {
    run_backtraces(s, c, Some(nasty_symbol), false)
}

// ---------------------------------------------------------------------------------------------

fn c19(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut files = EXISTING.to_vec();
    // a path with a colon is no `path:line`
    files.extend(["src/c:d.cpp", "src/a.cpp:7"]);
    let r = roots(s, c, &files);
    let base = c.scratch[0].clone();
    let cfg = Cfg { unicode: s.chance(1, 4), max_stmts: 4, avg_stmts: 2, ..Cfg::default() };
    let mut lc = LCfg::random(s, cfg.unicode);
    lc.keep_last = true;
    let m = module(s, &cfg);
    let d = layout(s, &m, &lc);
    // the annotations and the additional location each of them stands for
    let mut before = String::new();
    let mut after = String::new();
    let nann = 1 + s.idx(4);
    let mut anns: Vec<(Vec<(String, u64)>, bool)> = vec![];
    let mut ann_text = vec![];
    for i in 0..nann {
        let mut e = vec![];
        let mut len = false;
        let existing = s.pick(EXISTING).to_string();
        let dot = if s.chance(1, 3) { "./" } else { "" };
        let line = match s.weighted(&[5, 2, 1]) {
            0 => 1 + s.below(3000),
            1 => 1,
            _ => u32::MAX as u64,
        };
        let value = match s.weighted(&[12, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1]) {
            0 => {
                e.push((existing.clone(), line - 1));
                Some(format!("\"{dot}{existing}:{line}\""))
            }
            1 => Some(format!("\"missing/x{i}.cpp:{line}\"")),
            2 => Some(format!("\"{existing}\"")),
            3 => Some(format!("\"{existing}:{line}:3\"")),
            4 => Some(format!("\"{existing}:x{line}\"")),
            5 => Some(format!("\"{existing}:4294967296\"")),
            6 => Some(format!("{{\"file\": \"{existing}:{line}\"}}")),
            7 => Some(format!("\"{existing}:{line}\" 3")),
            8 => {
                // line 0 does not exist: whatever is returned has to be valid
                len = true;
                Some(format!("\"{existing}:0\""))
            }
            9 => {
                len = true;
                Some(format!("\"../outside.cpp:{line}\""))
            }
            10 => {
                len = true;
                Some(format!("\"{}/outside.cpp:{line}\"", base.to_str().unwrap()))
            }
            11 => Some(format!("\"{}:{line}\"", s.pick(&["src/c:d.cpp", "src/a.cpp:7", "src\\a.cpp", "b.hpp\\", "C:/src/a.cpp", ":src/a.cpp", "src/a.cpp:", " src/a.cpp", "src/a.cpp ", "'src/a.cpp'", "src/A.cpp", "a.cpp"]))),
            12 => Some(format!("\"{existing}:{}\"", s.pick(&[" 12", "12 ", "-1", "0x1", "1.0", "", "1_0", "1,5", "12a", "٣", "L12", "1-2", "1e1"]))),
            13 => Some(format!("{}", s.pick(&["12", "{}", "src", "\"\"", "\":\"", "\":1\" 2", "[\"src/a.cpp:1\"]", "@ext_fn0"]))),
            _ => None,
        };
        anns.push((e, len));
        ann_text.push(value.map(|v| format!("!ext_ref{i} = {v}\n")).unwrap_or_default());
    }
    let n = 1 + s.idx(4);
    let mut paths: Vec<BTreeSet<(String, u64)>> = vec![];
    let mut lenient: Vec<bool> = vec![];
    let (mut some, mut none) = (false, false);
    let mut used = vec![false; nann];
    let mut single = vec![];
    let mut emit = |s: &mut Src, a: usize, before: &mut String, after: &mut String, early: bool| {
        if !used[a] {
            used[a] = true;
            if early {
                before.push_str(&ann_text[a]);
            } else {
                after.push_str(&ann_text[a]);
            }
            if s.chance(1, 3) {
                after.push_str(&format!("!ext_more{a} = \"src/a.cpp:77\"\n"));
            }
        }
    };
    for i in 0..n {
        let mut e: BTreeSet<(String, u64)> = BTreeSet::new();
        let mut len = false;
        if s.chance(1, 2) {
            before.push_str(&format!("@ext_use_a{i} = @ext_fn{i}\n"));
        }
        // usually one declaration, with an annotation of its own or one shared with others
        let ndecl = 1 + s.weighted(&[8, 2]);
        single.push(ndecl == 1);
        for _ in 0..ndecl {
            let addr = if s.chance(1, 2) { " = 0x12ab" } else { "" };
            let a = if s.chance(2, 3) { i % nann } else { s.idx(nann) };
            let dref = if s.chance(7, 8) {
                e.extend(anns[a].0.iter().cloned());
                len |= anns[a].1;
                format!(" !ext_ref{a}")
            } else {
                String::new()
            };
            let decl = format!("declare {} @ext_fn{i}({}){addr}{dref}\n", s.pick(&["void", "int32", "pure ptr"]), s.pick(&["", "ptr %", "int32 %a, ptr %b"]));
            let early = s.chance(1, 4);
            if early {
                emit(s, a, &mut before, &mut after, true);
            }
            if s.chance(1, 2) {
                before.push_str(&decl);
            } else {
                after.push_str(&decl);
            }
            if s.chance(1, 3) {
                after.push_str(&format!("define void @ext_fn{i}() {{\n  ret !other\n}}\n"));
            }
            if s.chance(1, 2) {
                after.push_str(&format!("@ext_use_b{i} = {{ptr @ext_fn{i}}}\n"));
            }
            if !early && s.chance(1, 2) {
                emit(s, a, &mut before, &mut after, false);
            }
        }
        if e.iter().any(|x| resolve(&r, &x.0).is_some()) {
            some = true;
        } else {
            none = true;
        }
        paths.push(e);
        lenient.push(len);
    }
    for a in 0..nann {
        emit(s, a, &mut before, &mut after, false);
    }
    let text = format!("{before}{}{after}", d.text);
    c.doc(&text);
    // the scratch directory's name is not part of the case
    let plain = text.replace(base.to_str().unwrap(), "/scratch");
    c.docs = vec![plain];
    c.nontrivial = some && none;
    let map = crate::text::TextMap::new(&text);
    let mut srv = c.server(&r.opts)?;
    srv.open(URI, 1, &text);
    let rounds = 1 + s.weighted(&[2, 1]);
    for round in 0..rounds {
        if round > 0 {
            toggle(s, c, &r, EXISTING);
            if s.chance(1, 3) {
                srv.change(URI, 2, &text);
            }
        }
        // resolved anew in each round
        let exp: Vec<Vec<(PathBuf, u64)>> = paths
            .iter()
            .map(|e| e.iter().filter_map(|(p, l)| Some((resolve(&r, p)?, *l))).collect::<BTreeSet<_>>().into_iter().collect())
            .collect();
        let mut q = vec![];
        let chars = &map.chars;
        for i in 0..n {
            let name: Vec<char> = format!("@ext_fn{i}").chars().collect();
            let occ: Vec<usize> = (0..chars.len().saturating_sub(name.len()))
                .filter(|o| chars[*o..*o + name.len()] == name[..] && !chars[*o + name.len()].is_alphanumeric())
                .collect();
            for o in &occ {
                q.push((i, *o, srv.pos_req("textDocument/definition", URI, map.pos(*o + s.idx(name.len())))));
            }
            for m in ["textDocument/declaration", "textDocument/references"] {
                let id = srv.pos_req(m, URI, map.pos(occ[0]));
                for (u, _) in locs(&srv.result(id)?)? {
                    if u != URI {
                        return viol(format!("{m} of @ext_fn{i} leads to {u}"));
                    }
                }
            }
        }
        for (i, o, id) in q {
            let got = srv.result(id)?;
            let p = map.pos(o);
            let mut ext = vec![];
            for l in as_arr(&got) {
                let u = l["targetUri"].as_str().or(l["uri"].as_str()).unwrap_or("?").to_string();
                if u == URI {
                    continue;
                }
                let rg = if l.get("targetSelectionRange").is_some() { &l["targetSelectionRange"] } else { &l["range"] };
                let line = rg["start"]["line"].as_u64().unwrap_or(u64::MAX);
                if line >= u32::MAX as u64 || !range_contains(rg, rg) || rg["start"]["character"].as_u64().map_or(true, |c| c != 0) {
                    return viol(format!("definition of @ext_fn{i} at {}:{} has an invalid position: {l}", p.0, p.1));
                }
                let Some(path) = uri_path(&u) else {
                    return viol(format!("definition of @ext_fn{i} leads to {u}"));
                };
                if !r.dirs.iter().any(|d| path.starts_with(d)) || path.components().any(|c| c.as_os_str() == "..") {
                    return viol(format!("definition of @ext_fn{i} leads to {path:?} outside of the workspace"));
                }
                ext.push((path, line));
            }
            ext.sort();
            if single[i] && ext.windows(2).any(|w| w[0] == w[1]) {
                return viol(format!("external definitions of @ext_fn{i} asked at {}:{}: {ext:?} contains the same location twice", p.0, p.1));
            }
            ext.dedup();
            if !lenient[i] && ext != exp[i] {
                return viol(format!("external definitions of @ext_fn{i} asked at {}:{}: got {ext:?}, expected {:?}", p.0, p.1, exp[i]));
            }
            c.add("queries", 1);
        }
    }
    Ok(())
}
