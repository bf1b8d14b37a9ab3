//! Agreement of all answers about a symbol, in any text.
use super::*;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
    Check {
        id: "C25", f: c25, quick: 15000, thorough: 60000, known: &[],
        rule: "any text as for C24; the outline, lenses, folding ranges, hints, control flow graphs, highlighting and navigation of the same text are compared with each other; non-trivial = at least one function with a control flow edge and one other outline entry; distinct by document",
    },
    Check {
        id: "C24", f: c24, quick: 5000, thorough: 60000, known: &[],
        rule: "any text: generated module (mutated, truncated or not), token or fragment soup, excerpt of a real dump with random changes; queries at random symbols and all locations found from there; non-trivial = some symbol with at least two occurrences and another symbol were found; distinct by document",
    }]
}

fn any_text(s: &mut Src, c: &mut Case) -> String {
    let t = match s.weighted(&[3, 2, 2]) {
        0 => super::robust::wild_text(s, c),
        1 => {
            c.label("real dump");
            excerpt(s)
        }
        _ => {
            c.label("module");
            let mut cfg = random_cfg(s);
            cfg.irregular = s.chance(1, 2);
            cfg.w = [3, 3, 5, 1, 3, 3];
            let m = module(s, &cfg);
            let lc = LCfg::random(s, cfg.unicode);
            layout(s, &m, &lc).text
        }
    };
    // these are known to confuse the line numbers (see C02)
    t.chars().filter(|c| !"\u{b}\u{c}\u{85}\u{2028}\u{2029}".contains(*c)).collect()
}

const REAL: &[&str] = &[include_str!("../../corpus/relation.hir"), include_str!("../../corpus/statements.hir")];

/// Lines of a real dump with a few random changes.
pub fn excerpt(s: &mut Src) -> String {
    let all: Vec<&str> = s.pick(REAL).lines().collect();
    let mut lines: Vec<String> = vec![];
    while lines.is_empty() || s.more(lines.len() / 10, 6, 2) {
        let at = s.idx(all.len());
        let n = 1 + s.idx(25);
        lines.extend(all[at..(at + n).min(all.len())].iter().map(|l| l.to_string()));
    }
    let mut n = 0;
    while s.more(n, 6, 2) {
        n += 1;
        let i = s.idx(lines.len());
        match s.idx(5) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let j = s.idx(lines.len());
                lines.swap(i, j);
            }
            2 => {
                // cut off
                let k = s.idx(lines[i].chars().count() + 1);
                lines[i] = lines[i].chars().take(k).collect();
            }
            3 => {
                // two lines in one
                if i + 1 < lines.len() {
                    let l = lines.remove(i + 1);
                    lines[i].push_str(&l);
                }
            }
            _ => {
                let x = s.pick(&["}", "{", ":", "define void @x() {", "declare", "!1", "@a = 1", "\"", "bb:", "%v_1", "#", "", "🦀"]).to_string();
                lines.insert(i, x);
            }
        }
        if lines.is_empty() {
            break;
        }
    }
    let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let mut t = lines.join(eol);
    if s.chance(3, 4) {
        t.push_str(eol);
    }
    t
}

/// Statements of real dumps, unchanged, in any selection and order, with any line ends.
pub fn real_module(s: &mut Src) -> String {
    let all = real_statements();
    let mut t = String::new();
    let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let mut n = 0;
    while n == 0 || s.more(n, 25, 8) {
        n += 1;
        // functions are rare among the statements
        let x = if s.chance(1, 3) {
            let fs: Vec<&String> = all.iter().filter(|x| x.starts_with("define")).collect();
            fs[s.idx(fs.len())]
        } else {
            &all[s.idx(all.len())]
        };
        for l in x.split('\n') {
            t.push_str(l);
            t.push_str(eol);
        }
        while s.chance(1, 5) {
            t.push_str(eol);
        }
    }
    if s.chance(1, 4) && t.ends_with(eol) {
        t.truncate(t.len() - eol.len());
    }
    t
}

fn real_statements() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut open = false;
    for l in include_str!("../../corpus/statements.hir").lines() {
        if open {
            let x = v.last_mut().unwrap();
            x.push('\n');
            x.push_str(l);
            open = l != "}";
        } else {
            open = l.starts_with("define");
            v.push(l.to_string());
        }
    }
    v
}

type Span = (usize, usize);

#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct View {
    defs: BTreeSet<Span>,
    decls: BTreeSet<Span>,
    uses: BTreeSet<Span>,
}
impl View {
    fn all(&self) -> BTreeSet<Span> {
        self.defs.iter().chain(&self.decls).chain(&self.uses).copied().collect()
    }
    fn show(&self, map: &crate::text::TextMap) -> String {
        let f = |x: &BTreeSet<Span>| x.iter().map(|s| rs(&map.range(*s))).collect::<Vec<_>>().join(" ");
        format!("definitions [{}], declarations [{}], references [{}]", f(&self.defs), f(&self.decls), f(&self.uses))
    }
}

struct Asked {
    at: (u64, u64),
    /// prepareRename
    origin: Option<Span>,
    view: View,
    /// renamed to a new name: edits, `None` if refused or without effect
    edits: Option<Vec<Value>>,
    action: bool,
}

const NEW: &str = "fresh_name_of_mine";

fn ask(srv: &mut Server, map: &crate::text::TextMap, ps: &[(u64, u64)]) -> Res<Vec<Asked>> {
    let ids: Vec<[i64; 6]> = ps
        .iter()
        .map(|p| {
            let pos = json!({"line": p.0, "character": p.1});
            [
                srv.pos_req("textDocument/definition", URI, *p),
                srv.pos_req("textDocument/declaration", URI, *p),
                srv.pos_req("textDocument/references", URI, *p),
                srv.pos_req("textDocument/prepareRename", URI, *p),
                srv.rename_req(URI, *p, NEW),
                srv.send_request("textDocument/codeAction", json!({"textDocument": {"uri": URI}, "range": {"start": pos, "end": pos}, "context": {"diagnostics": []}})),
            ]
        })
        .collect();
    let mut out = vec![];
    for (p, id) in ps.iter().zip(ids) {
        let mut sets: Vec<BTreeSet<Span>> = vec![];
        for (k, what) in ["definition", "declaration", "references"].iter().enumerate() {
            let r = srv.result(id[k])?;
            locs(&r)?;
            let mut set = BTreeSet::new();
            let arr = if r.is_object() { vec![r.clone()] } else { as_arr(&r) };
            for l in &arr {
                let (u, g) = if l.get("targetUri").is_some() { (&l["targetUri"], &l["targetSelectionRange"]) } else { (&l["uri"], &l["range"]) };
                if u != URI {
                    return viol(format!("{what} at {}:{} leads to {u}", p.0, p.1));
                }
                let Some(sp) = map.span(g) else {
                    return viol(format!("{what} at {}:{} yields the invalid range {g}", p.0, p.1));
                };
                if !set.insert(sp) {
                    return viol(format!("{what} at {}:{} yields {} twice", p.0, p.1, rs(g)));
                }
            }
            sets.push(set);
        }
        let r = srv.result(id[3])?;
        let origin = if r.is_null() {
            None
        } else {
            let g = if r.get("range").is_some() { &r["range"] } else { &r };
            match map.span(g) {
                Some(sp) => Some(sp),
                None => return viol(format!("prepareRename at {}:{} yields the invalid range {g}", p.0, p.1)),
            }
        };
        let r = srv.wait(id[4])?;
        let edits = if r.get("error").is_some() || r["result"].is_null() { None } else { Some(edits_of(&r["result"], URI)?) };
        let action = !as_arr(&srv.result(id[5])?).is_empty();
        let uses = sets.pop().unwrap();
        let decls = sets.pop().unwrap();
        let defs = sets.pop().unwrap();
        out.push(Asked { at: *p, origin, view: View { defs, decls, uses }, edits, action });
    }
    Ok(out)
}

fn check_one(map: &crate::text::TextMap, a: &Asked) -> Res<()> {
    let at = format!("{}:{}", a.at.0, a.at.1);
    let all = a.view.all();
    let Some(o) = a.origin else {
        if !all.is_empty() {
            return viol(format!("no symbol to rename at {at}, but {}", a.view.show(map)));
        }
        if a.edits.as_ref().map_or(false, |e| !e.is_empty()) {
            return viol(format!("no symbol to rename at {at}, but renaming edits {:?}", a.edits));
        }
        if a.action {
            return viol(format!("no symbol to rename at {at}, but there are code actions"));
        }
        return Ok(());
    };
    let name = map.slice(o);
    if !(map.pos(o.0) <= a.at && a.at <= map.pos(o.1)) {
        return viol(format!("the symbol at {at} is said to be `{name}` at {}", rs(&map.range(o))));
    }
    if !all.contains(&o) {
        return viol(format!("`{name}` at {at} is not part of its own {}", a.view.show(map)));
    }
    for sp in &all {
        if map.slice(*sp) != name {
            return viol(format!("asking for `{name}` at {at} yields `{}` at {}", map.slice(*sp), rs(&map.range(*sp))));
        }
    }
    let v: Vec<Span> = all.iter().copied().collect();
    for w in v.windows(2) {
        if w[0].1 > w[1].0 {
            return viol(format!("the occurrences of `{name}` overlap: {} and {}", rs(&map.range(w[0])), rs(&map.range(w[1]))));
        }
    }
    if a.view.uses.iter().any(|u| a.view.defs.contains(u) || a.view.decls.contains(u)) {
        return viol(format!("an occurrence of `{name}` counts both as use and as definition: {}", a.view.show(map)));
    }
    let digits = name.chars().last().map_or(false, |c| c.is_ascii_digit());
    if !digits && !name.chars().last().map_or(false, |c| c.is_numeric()) && a.action {
        return viol(format!("renumbering is offered for `{name}` at {at}"));
    }
    // renaming changes exactly these occurrences
    let Some(e) = &a.edits else {
        return viol(format!("`{name}` at {at} can be renamed, but not to `{NEW}`"));
    };
    let sigil: String = name.chars().take(1).filter(|c| "@%!".contains(*c)).collect();
    let want: Vec<Value> = all.iter().map(|sp| json!({"range": map.range(*sp), "newText": format!("{sigil}{NEW}")})).collect();
    let want = map.apply(&want).expect("disjoint");
    match map.apply(e) {
        Ok(t) if t == want => Ok(()),
        Ok(_) => viol(format!(
            "renaming `{name}` at {at} edits {:?}, which are not the {}",
            e.iter().map(|e| format!("{}={}", rs(&e["range"]), e["newText"])).collect::<Vec<_>>(),
            a.view.show(map)
        )),
        Err(x) => viol(format!("renaming `{name}` at {at}: {x}")),
    }
}

fn c24(s: &mut Src, c: &mut Case) -> Res<()> {
    let t = any_text(s, c);
    c.doc(&t);
    let map = crate::text::TextMap::new(&t);
    let starts: Vec<usize> = (0..map.chars.len())
        .filter(|i| {
            let w = |c: char| c.is_alphanumeric() || c == '_' || c == ':';
            let ch = map.chars[*i];
            "@%!".contains(ch) || (ch.is_alphabetic() || ch == '_') && (*i == 0 || !w(map.chars[*i - 1]) && !"@%!".contains(map.chars[*i - 1]))
        })
        .collect();
    let mut ps: Vec<(u64, u64)> = vec![];
    let n = starts.len().min(20);
    for _ in 0..n {
        let st = *s.pick(&starts);
        let off = (st + s.idx(4)).min(map.chars.len());
        ps.push(map.pos(off));
    }
    for _ in 0..4 {
        ps.push(map.pos(s.idx(map.chars.len() + 1)));
    }
    ps.sort();
    ps.dedup();
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &t);
    let diags = srv.wait_diags(URI, 1)?;
    let undefined: BTreeSet<String> = diags.iter().filter(|d| classify(d).0 == DK::Undefined).map(|d| rs(&d["range"])).collect();
    let duplicate: BTreeSet<String> = diags.iter().filter(|d| classify(d).0 == DK::Duplicate).map(|d| rs(&d["range"])).collect();
    let asked = ask(&mut srv, &map, &ps)?;
    let mut groups: Vec<View> = vec![];
    for a in &asked {
        check_one(&map, a)?;
        if a.origin.is_none() {
            continue;
        }
        let v = &a.view;
        if let Some(g) = groups.iter().find(|g| *g != v && g.all().iter().any(|x| v.all().contains(x))) {
            return viol(format!("two views of one symbol: {} and {}", g.show(&map), v.show(&map)));
        }
        if groups.contains(v) {
            continue;
        }
        groups.push(v.clone());
        // the diagnostics agree
        let none = v.defs.is_empty() && v.decls.is_empty();
        for u in &v.all() {
            let r = rs(&map.range(*u));
            let name = map.slice(*u);
            let flagged = undefined.contains(&r);
            if flagged != none {
                return viol(format!("`{name}` at {r} is {}reported as undefined, but has {}", if flagged { "" } else { "not " }, v.show(&map)));
            }
            let again = v.defs.contains(u) && v.defs.iter().next() != Some(u);
            if duplicate.contains(&r) != again {
                return viol(format!("`{name}` at {r} is {}reported as defined before, but has {}", if again { "not " } else { "" }, v.show(&map)));
            }
        }
        // the same answers from everywhere else
        let mut others: Vec<Span> = v.all().into_iter().collect();
        while others.len() > 12 {
            let i = s.idx(others.len());
            others.swap_remove(i);
        }
        let ps: Vec<(u64, u64)> = others.iter().map(|o| map.pos(o.0 + s.idx(o.1 - o.0))).collect();
        for (b, o) in ask(&mut srv, &map, &ps)?.iter().zip(&others) {
            check_one(&map, b)?;
            if b.origin != Some(*o) || b.view != *v {
                return viol(format!(
                    "from {}:{} one finds {}, among them {}; from there one finds {}",
                    a.at.0,
                    a.at.1,
                    v.show(&map),
                    rs(&map.range(*o)),
                    b.view.show(&map)
                ));
            }
        }
        c.add("symbols", 1);
        c.add("locations", others.len() as u64);
    }
    c.nontrivial = groups.len() >= 2 && groups.iter().any(|g| g.all().len() >= 2);
    Ok(())
}

struct Fun {
    name: String,
    sel: Span,
    range: Span,
}

fn c25(s: &mut Src, c: &mut Case) -> Res<()> {
    let t = any_text(s, c);
    c.doc(&t);
    let map = crate::text::TextMap::new(&t);
    let lines = map.line_count() as u64;
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &t);
    let [sym, lens, fold, toks] = ["documentSymbol", "codeLens", "foldingRange", "semanticTokens/full"].map(|m| srv.doc_req(&format!("textDocument/{m}"), URI));
    let hints = srv.hints_req(URI, lines);
    let (sym, lens, fold, toks, hints) = (srv.result(sym)?, srv.result(lens)?, srv.result(fold)?, srv.result(toks)?, srv.result(hints)?);
    let span = |what: &str, r: &Value| map.span(r).ok_or_else(|| Fail::Violation(format!("{what}: invalid range {r}")));

    // outline: what it lists is defined there
    let mut funs: Vec<Fun> = vec![];
    let mut entries: Vec<(String, Span)> = vec![];
    for y in as_arr(&sym) {
        let name = y["name"].as_str().unwrap_or("?").to_string();
        let sel = span("outline", &y["selectionRange"])?;
        let range = span("outline", &y["range"])?;
        if map.slice(sel) != name || !name.starts_with('@') {
            return viol(format!("outline entry {name} is at {} which reads `{}`", rs(&y["selectionRange"]), map.slice(sel)));
        }
        if range.0 > sel.0 || range.1 < sel.1 {
            return viol(format!("outline entry {name}: the range {} does not contain {}", rs(&y["range"]), rs(&y["selectionRange"])));
        }
        if entries.iter().any(|e| e.1 == sel) {
            return viol(format!("{name} at {} is listed twice", rs(&y["selectionRange"])));
        }
        entries.push((name.clone(), sel));
        if y["kind"] == 12 {
            let text = map.slice(range);
            if !text.starts_with("define") || !text.ends_with('}') {
                return viol(format!("the range {} of function {name} is not its definition: `{text}`", rs(&y["range"])));
            }
            funs.push(Fun { name, sel, range });
        }
    }
    funs.sort_by_key(|f| f.range);
    for w in funs.windows(2) {
        if w[0].range.1 > w[1].range.0 {
            return viol(format!("the functions {} and {} overlap", w[0].name, w[1].name));
        }
    }
    let is_fun = |e: &(String, Span)| funs.iter().any(|f| f.sel == e.1);
    let ids: Vec<[i64; 2]> = entries.iter().map(|e| ["definition", "declaration"].map(|m| srv.pos_req(&format!("textDocument/{m}"), URI, map.pos(e.1 .0)))).collect();
    for (e, id) in entries.iter().zip(ids) {
        let got = locs(&srv.result(id[0])?)?;
        let declared = !locs(&srv.result(id[1])?)?.is_empty();
        let mut same = entries.iter().filter(|o| o.0 == e.0);
        if !is_fun(e) && declared || same.any(|o| is_fun(o) != is_fun(e)) {
            // a name of both a variable and a function: unspecified
            continue;
        }
        let mut want: Vec<(String, String)> = entries.iter().filter(|o| o.0 == e.0).map(|o| (URI.to_string(), rs(&map.range(o.1)))).collect();
        want.sort();
        if got != want {
            return viol(format!("definitions of {}: {got:?}, but the outline lists {want:?}", e.0));
        }
    }

    // lenses: one per unambiguous function
    let mut got: Vec<Span> = vec![];
    let mut graphs: BTreeMap<String, BTreeSet<(String, String)>> = BTreeMap::new();
    for l in as_arr(&lens) {
        let sp = span("lens", &l["range"])?;
        got.push(sp);
        let name = map.slice(sp);
        srv.shown.clear();
        let id = srv.send_request("workspace/executeCommand", json!({"command": l["command"]["command"], "arguments": l["command"]["arguments"]}));
        srv.result(id)?;
        if srv.shown.len() != 1 {
            return viol(format!("{} graphs shown for the lens of {name}", srv.shown.len()));
        }
        match super::structure::parse_dot(srv.shown[0]["dotGraph"].as_str().unwrap_or("")) {
            Ok((e, _)) => graphs.insert(name, e),
            Err(e) => return viol(format!("the graph of {name} is not valid DOT: {e}")),
        };
    }
    got.sort();
    let want: Vec<Span> = funs.iter().filter(|f| funs.iter().filter(|g| g.name == f.name).count() == 1).map(|f| f.sel).collect();
    if got != want {
        let f = |v: &[Span]| v.iter().map(|x| rs(&map.range(*x))).collect::<Vec<_>>();
        return viol(format!("lenses at {:?}, but the functions defined once are at {:?}", f(&got), f(&want)));
    }

    // folding: every function, and everything else within one
    let mut rest: Vec<(u64, u64)> = vec![];
    for f in as_arr(&fold) {
        let (a, b) = (f["startLine"].as_u64().unwrap_or(u64::MAX), f["endLine"].as_u64().unwrap_or(u64::MAX));
        if a > b || b >= lines {
            return viol(format!("invalid folding range {f}"));
        }
        rest.push((a, b));
    }
    for f in &funs {
        let w = (map.line_of(f.range.0), map.line_of(f.range.1));
        match rest.iter().position(|r| *r == w) {
            Some(i) => {
                rest.swap_remove(i);
            }
            None => return viol(format!("function {} at lines {}-{} cannot be folded", f.name, w.0, w.1)),
        }
    }
    for r in &rest {
        if !funs.iter().any(|f| map.line_of(f.range.0) <= r.0 && r.1 <= map.line_of(f.range.1)) {
            return viol(format!("folding range at lines {}-{} lies outside of all functions", r.0, r.1));
        }
    }

    // hints: the end of every function, and incoming edges as in the graphs
    let mut ends: Vec<Span> = vec![];
    let mut incoming: Vec<(usize, String, BTreeSet<String>)> = vec![];
    let mut seen = BTreeSet::new();
    for h in as_arr(&hints) {
        let Some(p) = map.offset(&h["position"]) else {
            return viol(format!("hint at the invalid position {}", h["position"]));
        };
        let parts = super::hints::linked_parts(&h);
        let key = (p, parts.len() > 0);
        if !seen.insert(key) {
            return viol(format!("two hints at {}", h["position"]));
        }
        let Some(f) = funs.iter().position(|f| f.range.0 <= p && p <= f.range.1) else {
            return viol(format!("hint {} outside of all functions", h["label"]));
        };
        let mut from = BTreeSet::new();
        for x in as_arr(&h["label"]) {
            if x.get("location").map_or(true, |l| l.is_null()) {
                continue;
            }
            if x["location"]["uri"] != URI {
                return viol(format!("hint links to {}", x["location"]["uri"]));
            }
            let sp = span("hint link", &x["location"]["range"])?;
            let v = x["value"].as_str().unwrap_or("?");
            if map.slice(sp) != v {
                return viol(format!("the hint link `{v}` leads to {} which reads `{}`", rs(&x["location"]["range"]), map.slice(sp)));
            }
            if sp.0 < funs[f].range.0 || sp.1 > funs[f].range.1 {
                return viol(format!("the hint link `{v}` at {} leaves the function", h["position"]));
            }
            if p == funs[f].range.1 {
                if sp != funs[f].sel {
                    return viol(format!("the hint at the end of {} leads to {}", funs[f].name, rs(&x["location"]["range"])));
                }
                ends.push(sp);
            } else {
                from.insert(v.to_string());
            }
        }
        if !from.is_empty() {
            incoming.push((f, label_before(&map, p), from));
        }
    }
    ends.sort();
    let want: Vec<Span> = funs.iter().map(|f| f.sel).collect();
    if ends != want {
        return viol(format!("{} hints at the ends of {} functions", ends.len(), funs.len()));
    }
    let mut edges = 0;
    for (i, f) in funs.iter().enumerate() {
        let Some(g) = graphs.get(&f.name) else { continue };
        edges += g.len();
        if !plain(&map.slice(f.range)) {
            // the labels cannot be told from the text without knowing how illegal characters are skipped
            continue;
        }
        let inner: Vec<&(usize, String, BTreeSet<String>)> = incoming.iter().filter(|x| x.0 == i).collect();
        for (_, b, from) in &inner {
            let want: BTreeSet<String> = g.iter().filter(|e| e.1 == *b).map(|e| e.0.clone()).collect();
            if *from != want {
                return viol(format!("block {b} of {} is said to be entered from {from:?}, but according to the graph from {want:?}", f.name));
            }
        }
        // every block in the graph that exists has a hint
        let text = map.slice(f.range);
        for l in text.split(|c| c == '\n' || c == '\r') {
            let l = l.split('#').next().unwrap_or("").trim();
            let Some(name) = l.strip_suffix(':').map(|n| n.trim_end()) else { continue };
            if g.iter().any(|e| e.1 == name) && !inner.iter().any(|x| x.1 == name) {
                return viol(format!("block {name} of {} has incoming edges according to the graph but no hint", f.name));
            }
        }
    }

    // highlighting: in order, inside of their lines (strings excepted), and as the text reads
    let legend: Vec<String> = as_arr(&srv.init["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]).iter().map(|v| v.as_str().unwrap_or("").to_string()).collect();
    let data: Vec<u64> = as_arr(&toks["data"]).iter().map(|v| v.as_u64().unwrap_or(u64::MAX)).collect();
    let (mut line, mut col, mut end) = (0u64, 0u64, 0usize);
    let mut vars: BTreeSet<Span> = BTreeSet::new();
    for d in data.chunks(5) {
        if d.len() < 5 || d[0] > u32::MAX as u64 || d[1] > u32::MAX as u64 {
            return viol(format!("invalid semantic token {d:?}"));
        }
        if d[0] > 0 {
            line += d[0];
            col = d[1];
        } else {
            col += d[1];
        }
        let Some(a) = map.offset(&json!({"line": line, "character": col})) else {
            return viol(format!("semantic token at the invalid position {line}:{col}"));
        };
        let ty = legend.get(d[3] as usize).map(|x| &x[..]).unwrap_or("?");
        if a < end {
            return viol(format!("semantic token at {line}:{col} overlaps the one before"));
        }
        let mut b = a;
        let mut n = 0;
        while n < d[2] && b < map.chars.len() {
            n += map.chars[b].len_utf16() as u64;
            b += 1;
        }
        if n != d[2] || n == 0 {
            return viol(format!("semantic token at {line}:{col} has the invalid length {}", d[2]));
        }
        end = b;
        let text = map.slice((a, b));
        let first = text.chars().next().unwrap();
        let ok = match ty {
            "comment" => first == '#' && !text.contains('\n'),
            "string" => first == '"' && text.len() > 1 && text.ends_with('"'),
            "number" => first.is_ascii_digit(),
            "variable" => first == '@' || first == '%',
            "type" => TYPES.contains(&&text[..]),
            "modifier" => MODS.contains(&&text[..]),
            "keyword" => text == "declare" || text == "define",
            _ => false,
        };
        if !ok {
            return viol(format!("`{text}` at {line}:{col} is highlighted as {ty}"));
        }
        if ty == "variable" {
            vars.insert((a, b));
        }
    }
    for e in &entries {
        if !vars.contains(&e.1) {
            return viol(format!("{} of the outline at {} is not highlighted", e.0, rs(&map.range(e.1))));
        }
    }
    c.nontrivial = edges > 0 && entries.len() >= 2;
    c.add("functions", funs.len() as u64);
    c.add("edges", edges as u64);
    c.add("semantic tokens", data.len() as u64 / 5);
    Ok(())
}

/// Without strings and characters which are illegal outside of comments.
fn plain(text: &str) -> bool {
    let mut comment = false;
    let text = text.replace("\r\n", "\n");
    text.chars().all(|c| {
        comment = c != '\n' && (comment || c == '#');
        comment || c.is_alphanumeric() || "_@%![]{}()<>=,;:*. \t\n".contains(c)
    })
}

/// The label in front of its colon, which ends at `p`.
fn label_before(map: &crate::text::TextMap, p: usize) -> String {
    let mut i = p.saturating_sub(1);
    while i > 0 && (map.chars[i - 1] == ' ' || map.chars[i - 1] == '\t') {
        i -= 1;
    }
    let end = i;
    while i > 0 && (map.chars[i - 1].is_alphanumeric() || map.chars[i - 1] == '_' || map.chars[i - 1] == ':') {
        i -= 1;
    }
    map.slice((i, end))
}
