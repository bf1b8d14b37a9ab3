//! Structure of a document: highlighting, outline, folding, control flow graph and lenses.
use super::*;
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C13", f: c13, quick: 8000, thorough: 100000, known: &[], rule: "generated token sequence (well-formed module, module with malformed statements, or unstructured token soup), half of them with non-ASCII text; non-trivial = at least 5 expected semantic tokens of at least 3 types; distinct by document" },
        Check { id: "C14", f: c14, quick: 8000, thorough: 80000, known: &[], rule: "generated well-formed module; non-trivial = at least one global variable or function definition and at least one statement of another kind; distinct by document" },
        Check { id: "C15", f: c15, quick: 8000, thorough: 80000, known: &[], rule: "generated well-formed module with functions; non-trivial = some function has at least two basic blocks and a block with at least two instructions; distinct by document" },
        Check { id: "C16", f: c16, quick: 6000, thorough: 60000, known: &[], rule: "generated module with several functions and all instruction forms; non-trivial = at least one expected edge and at least two labelled blocks in a function with a lens; distinct by document" },
    ]
}

/// Compares a semanticTokens/full result with the tokens of the generated document.
pub fn check_tokens(init: &Value, r: &Value, m: &Module, d: &Doc) -> Res<()> {
    let legend: Vec<String> = as_arr(&init["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"])
        .iter()
        .map(|v| v.as_str().unwrap_or("").to_string())
        .collect();
    let mut exp: Vec<((usize, usize), &str)> = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        let ty = match t.k {
            TK::Num | TK::Hex => "number",
            TK::Str => "string",
            TK::Local | TK::Global => "variable",
            TK::Type => "type",
            TK::Mod => "modifier",
            TK::Declare | TK::Define => "keyword",
            TK::Dbg | TK::Ident | TK::Punct => continue,
        };
        exp.push((d.span[i], ty));
    }
    for c in &d.comments {
        exp.push((*c, "comment"));
    }
    exp.sort();
    let data: Vec<u64> = as_arr(&r["data"]).iter().map(|v| v.as_u64().unwrap_or(u64::MAX)).collect();
    if data.len() % 5 != 0 {
        return viol("semantic token data is not a sequence of 5-tuples");
    }
    let (mut line, mut col) = (0u64, 0u64);
    let mut prev_end = (0u64, 0u64);
    let mut got = vec![];
    for (n, t) in data.chunks(5).enumerate() {
        if t[0] > u32::MAX as u64 || t[1] > u32::MAX as u64 {
            return viol(format!("semantic token {n} has an invalid delta {t:?}"));
        }
        if t[0] > 0 {
            line += t[0];
            col = t[1];
        } else {
            col += t[1];
        }
        if (line, col) < prev_end {
            return viol(format!("semantic token {n} at {line}:{col} overlaps the previous one"));
        }
        prev_end = (line, col + t[2]);
        let Some(ty) = legend.get(t[3] as usize) else {
            return viol(format!("semantic token type {} is not in the legend", t[3]));
        };
        got.push((line, col, t[2], ty.clone()));
    }
    for (i, (sp, ty)) in exp.iter().enumerate() {
        let (l, c) = d.map.pos(sp.0);
        let len: u64 = d.map.chars[sp.0..sp.1].iter().map(|c| c.len_utf16() as u64).sum();
        let want = (l, c, len, ty.to_string());
        // a comment may or may not include the carriage return of its line end
        let alt = if *ty == "comment" && d.map.chars.get(sp.1) == Some(&'\r') { len + 1 } else { len };
        match got.get(i) {
            Some(g) if *g == want || (g.0 == l && g.1 == c && g.2 == alt && g.3 == *ty) => {}
            g => {
                return viol(format!("semantic token {i}: got {g:?}, expected {want:?} for `{}`", d.map.slice(*sp)));
            }
        }
    }
    if got.len() != exp.len() {
        return viol(format!("unexpected semantic token {:?}", got[exp.len()]));
    }
    Ok(())
}

fn c13(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.unicode = s.chance(1, 2);
    let m = match s.weighted(&[2, 2, 4]) {
        0 => module(s, &cfg),
        1 => {
            c.label("malformed statements");
            cfg.w = [3, 3, 4, 1, 3, 4];
            module(s, &cfg)
        }
        _ => {
            c.label("token soup");
            token_soup(s, &cfg, 80)
        }
    };
    let lc = LCfg::random(s, cfg.unicode);
    let d = layout(s, &m, &lc);
    c.doc(&d.text);
    let mut kinds = BTreeSet::new();
    let mut n = 0;
    for t in &m.toks {
        if !matches!(t.k, TK::Dbg | TK::Ident | TK::Punct) {
            n += 1;
            kinds.insert(t.k);
        }
    }
    c.nontrivial = n >= 5 && kinds.len() >= 3;
    c.add("expected tokens", (n + d.comments.len()) as u64);
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &d.text);
    let id = srv.doc_req("textDocument/semanticTokens/full", URI);
    let r = srv.result(id)?;
    check_tokens(&srv.init, &r, &m, &d)
}

fn c14(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.irregular = s.chance(1, 3);
    let st = make(s, c, &cfg);
    let mut exp: Vec<(String, u64, String, Option<String>)> = vec![];
    for (i, t) in st.m.toks.iter().enumerate() {
        if t.k == TK::Global && t.r == R::Def && !st.m.funcs.iter().any(|f| f.name == i) {
            exp.push((t.s.clone(), 14, rs(&st.d.range(i)), None));
        }
    }
    for f in &st.m.funcs {
        let full = st.d.map.range((st.d.span[f.define].0, st.d.span[f.close].1));
        exp.push((st.m.toks[f.name].s.clone(), 12, rs(&st.d.range(f.name)), Some(rs(&full))));
    }
    c.nontrivial = !exp.is_empty() && st.m.stmts.iter().any(|x| !matches!(x.kind, SK::Global | SK::Func));
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let id = srv.doc_req("textDocument/documentSymbol", URI);
    let r = srv.result(id)?;
    let mut got = vec![];
    for y in as_arr(&r) {
        if !as_arr(&y["children"]).is_empty() {
            return viol(format!("outline entry {} has children", y["name"]));
        }
        if !range_contains(&y["range"], &y["selectionRange"]) {
            return viol(format!("outline entry {}: the range {} does not contain the selection range {}", y["name"], rs(&y["range"]), rs(&y["selectionRange"])));
        }
        let k = y["kind"].as_u64().unwrap_or(0);
        let full = if k == 12 { Some(rs(&y["range"])) } else { None };
        got.push((y["name"].as_str().unwrap_or("?").to_string(), k, rs(&y["selectionRange"]), full));
    }
    got.sort();
    exp.sort();
    if got != exp {
        let missing: Vec<_> = exp.iter().filter(|e| !got.contains(e)).collect();
        let extra: Vec<_> = got.iter().filter(|e| !exp.contains(e)).collect();
        return viol(format!("outline differs: missing {missing:?}, unexpected {extra:?} ({} entries, {} expected)", got.len(), exp.len()));
    }
    Ok(())
}

fn first_number(t: &str) -> Option<u64> {
    let d: String = t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn c15(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.irregular = s.chance(1, 3);
    cfg.w = [2, 1, 6, 0, 2, 0];
    cfg.max_instrs = if s.chance(1, 6) { 14 } else { 6 };
    let st = make(s, c, &cfg);
    c.nontrivial = st.m.funcs.iter().any(|f| f.blocks.len() >= 2 && f.blocks.iter().any(|b| b.instrs.len() >= 2));
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let id = srv.doc_req("textDocument/foldingRange", URI);
    let r = srv.result(id)?;
    let mut got: Vec<(u64, u64, String)> = as_arr(&r)
        .iter()
        .map(|x| {
            (
                x["startLine"].as_u64().unwrap_or(u64::MAX),
                x["endLine"].as_u64().unwrap_or(u64::MAX),
                x["collapsedText"].as_str().unwrap_or("").to_string(),
            )
        })
        .collect();
    for a in &got {
        for b in &got {
            if a.0 < b.0 && b.0 <= a.1 && a.1 < b.1 {
                return viol(format!("folding ranges {a:?} and {b:?} overlap partially"));
            }
        }
    }
    for f in &st.m.funcs {
        for b in &f.blocks {
            let start = match b.label {
                Some(l) => l.0,
                None => b.instrs[0].first,
            };
            let end = b.instrs.last().map(|i| i.last).unwrap_or(start);
            let want = (st.d.line(start), st.d.line(end));
            let n = b.instrs.len() as u64;
            match got.iter().position(|g| (g.0, g.1) == want && first_number(&g.2) == Some(n)) {
                Some(i) => {
                    got.swap_remove(i);
                }
                None => {
                    return viol(format!("no folding range for the block at lines {}-{} with {n} instructions in {:?}", want.0, want.1, r));
                }
            }
        }
    }
    for f in &st.m.funcs {
        let want = (st.d.line(f.define), st.d.line(f.close));
        let n = f.blocks.len() as u64;
        match got.iter().position(|g| (g.0, g.1) == want && first_number(&g.2) == Some(n)) {
            Some(i) => {
                got.swap_remove(i);
            }
            None => {
                return viol(format!("no folding range for the function at lines {}-{} with {n} blocks: left {got:?}", want.0, want.1));
            }
        }
    }
    if !got.is_empty() {
        return viol(format!("unexpected folding ranges {got:?}"));
    }
    Ok(())
}

/// Parser for the part of the DOT language which a graph of blocks needs.
pub fn parse_dot(t: &str) -> Result<(BTreeSet<(String, String)>, BTreeSet<String>), String> {
    #[derive(PartialEq, Debug, Clone)]
    enum D {
        Id(String),
        Kw(String),
        P(String),
    }
    let ch: Vec<char> = t.chars().collect();
    let mut toks = vec![];
    let mut i = 0;
    while i < ch.len() {
        let c = ch[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && ch.get(i + 1) == Some(&'/') || c == '#' && (i == 0 || ch[i - 1] == '\n') {
            while i < ch.len() && ch[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && ch.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < ch.len() && !(ch[i] == '*' && ch[i + 1] == '/') {
                i += 1;
            }
            if i + 1 >= ch.len() {
                return Err("unterminated comment".into());
            }
            i += 2;
        } else if c == '"' {
            let mut x = String::new();
            i += 1;
            loop {
                match ch.get(i) {
                    None => return Err("unterminated string".into()),
                    Some('"') => break,
                    Some('\\') if ch.get(i + 1) == Some(&'"') => {
                        x.push('"');
                        i += 2;
                    }
                    Some(c) => {
                        x.push(*c);
                        i += 1;
                    }
                }
            }
            i += 1;
            toks.push(D::Id(x));
        } else if c.is_alphanumeric() || c == '_' || (c as u32) >= 0x80 {
            let mut x = String::new();
            while i < ch.len() && (ch[i].is_alphanumeric() || ch[i] == '_' || (ch[i] as u32) >= 0x80) {
                x.push(ch[i]);
                i += 1;
            }
            // a numeral ends where an identifier could not
            if c.is_ascii_digit() && x.chars().any(|c| !c.is_ascii_digit()) {
                return Err(format!("bad numeral {x:?}"));
            }
            let keyword = ["node", "edge", "graph", "digraph", "subgraph", "strict"].contains(&&x.to_lowercase()[..]);
            toks.push(if keyword { D::Kw(x.to_lowercase()) } else { D::Id(x) });
        } else if c == '-' && ch.get(i + 1) == Some(&'>') {
            toks.push(D::P("->".into()));
            i += 2;
        } else if "{}[];=,".contains(c) {
            toks.push(D::P(c.to_string()));
            i += 1;
        } else {
            return Err(format!("unexpected character {c:?}"));
        }
    }
    let mut p = 0;
    let kw = |t: Option<&D>, w: &str| matches!(t, Some(D::Kw(x)) if x == w);
    let pn = |t: Option<&D>, w: &str| matches!(t, Some(D::P(x)) if x == w);
    let strict = kw(toks.get(p), "strict");
    if strict {
        p += 1;
    }
    if !kw(toks.get(p), "digraph") {
        return Err("not a digraph".into());
    }
    p += 1;
    if matches!(toks.get(p), Some(D::Id(_))) {
        p += 1;
    }
    if !pn(toks.get(p), "{") {
        return Err("`{` missing".into());
    }
    p += 1;
    let (mut edges, mut nodes) = (BTreeSet::new(), BTreeSet::new());
    let attrs = |p: &mut usize| -> Result<(), String> {
        while pn(toks.get(*p), "[") {
            *p += 1;
            while !pn(toks.get(*p), "]") {
                if !matches!(toks.get(*p), Some(D::Id(_))) {
                    return Err("bad attribute list".into());
                }
                *p += 1;
                if !pn(toks.get(*p), "=") {
                    return Err("bad attribute list".into());
                }
                *p += 1;
                if !matches!(toks.get(*p), Some(D::Id(_))) {
                    return Err("bad attribute list".into());
                }
                *p += 1;
                if pn(toks.get(*p), ",") || pn(toks.get(*p), ";") {
                    *p += 1;
                }
            }
            *p += 1;
        }
        Ok(())
    };
    loop {
        match toks.get(p) {
            None => return Err("`}` missing".into()),
            Some(D::P(x)) if x == "}" => {
                p += 1;
                break;
            }
            Some(D::P(x)) if x == ";" => p += 1,
            Some(D::Kw(x)) if ["node", "edge", "graph"].contains(&&x[..]) && pn(toks.get(p + 1), "[") => {
                p += 1;
                attrs(&mut p)?;
            }
            Some(D::Id(_)) if pn(toks.get(p + 1), "=") => {
                if !matches!(toks.get(p + 2), Some(D::Id(_))) {
                    return Err("bad assignment".into());
                }
                p += 3;
            }
            Some(D::Id(x)) => {
                let mut prev = x.clone();
                nodes.insert(x.clone());
                p += 1;
                while pn(toks.get(p), "->") {
                    let Some(D::Id(y)) = toks.get(p + 1) else {
                        return Err("edge without target".into());
                    };
                    nodes.insert(y.clone());
                    if !edges.insert((prev.clone(), y.clone())) && !strict {
                        return Err(format!("the edge from {prev} to {y} is drawn twice"));
                    }
                    prev = y.clone();
                    p += 2;
                }
                attrs(&mut p)?;
            }
            Some(x) => return Err(format!("unexpected {x:?}")),
        }
    }
    if p != toks.len() {
        return Err("text after the graph".into());
    }
    Ok((edges, nodes))
}

/// Expected edges of a function in terms of names
pub fn cfg_edges(m: &Module, f: &Func) -> BTreeSet<(String, String)> {
    let mut out = BTreeSet::new();
    for b in &f.blocks {
        let Some((l, _)) = b.label else { continue };
        for i in &b.instrs {
            if i.branching {
                for r in &i.refs {
                    out.insert((m.toks[l].s.clone(), m.toks[*r].s.clone()));
                }
            }
        }
    }
    out
}

fn c16(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg {
        messy: s.chance(1, 2),
        unicode: s.chance(1, 4),
        irregular: s.chance(1, 3),
        w: [1, 2, 7, 1, 1, 0],
        dup_funcs: s.chance(1, 3),
        ..Cfg::default()
    };
    let st = make(s, c, &cfg);
    let mut exp = vec![];
    let mut graphs = vec![];
    for f in &st.m.funcs {
        let name = &st.m.toks[f.name].s;
        if st.m.funcs.iter().filter(|g| st.m.toks[g.name].s == *name).count() == 1 {
            exp.push((rs(&st.d.range(f.name)), name.clone()));
            let e = cfg_edges(&st.m, f);
            if !e.is_empty() && f.blocks.iter().filter(|b| b.label.is_some()).count() >= 2 {
                c.nontrivial = true;
            }
            c.add("expected edges", e.len() as u64);
            graphs.push((name.clone(), e));
        } else {
            c.label("duplicate function");
        }
    }
    exp.sort();
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let id = srv.doc_req("textDocument/codeLens", URI);
    let r = srv.result(id)?;
    let mut got = vec![];
    let mut commands: BTreeMap<String, Value> = BTreeMap::new();
    for l in as_arr(&r) {
        let args = as_arr(&l["command"]["arguments"]);
        let range = rs(&l["range"]);
        let name = st.d.map.read(&l["range"]).unwrap_or_default();
        if args.is_empty() || l["command"]["command"].as_str().is_none() {
            return viol(format!("lens without command: {l}"));
        }
        commands.insert(name.clone(), l["command"].clone());
        got.push((range, name));
    }
    got.sort();
    if got != exp {
        return viol(format!("lenses {got:?}, expected {exp:?}"));
    }
    for (name, edges) in &graphs {
        let cmd = &commands[name];
        srv.shown.clear();
        let id = srv.send_request(
            "workspace/executeCommand",
            json!({"command": cmd["command"], "arguments": cmd["arguments"]}),
        );
        srv.result(id)?;
        if srv.shown.len() != 1 {
            return viol(format!("{} graphs shown for {name}", srv.shown.len()));
        }
        let p = &srv.shown[0];
        if !p["title"].as_str().unwrap_or("").contains(&name[..]) {
            return viol(format!("the title {} does not name {name}", p["title"]));
        }
        match parse_dot(p["dotGraph"].as_str().unwrap_or("")) {
            Err(e) => return viol(format!("the graph of {name} is wrong: {e}: {}", p["dotGraph"])),
            Ok((got, _)) => {
                if got != *edges {
                    let missing: Vec<_> = edges.difference(&got).collect();
                    let extra: Vec<_> = got.difference(edges).collect();
                    return viol(format!("graph of {name}: missing edges {missing:?}, unexpected edges {extra:?}"));
                }
            }
        }
    }
    // unknown documents and functions
    let decl = st
        .m
        .toks
        .iter()
        .find(|t| t.k == TK::Global && t.r == R::Decl && !st.m.funcs.iter().any(|f| st.m.toks[f.name].s == t.s))
        .map(|t| t.s.clone())
        .unwrap_or_else(|| "@nowhere".into());
    let some = graphs.first().map(|g| g.0.clone()).unwrap_or_else(|| "@nowhere".into());
    srv.shown.clear();
    // names which are almost those of functions
    let near = match s.idx(5) {
        0 => some.trim_start_matches('@').to_string(),
        1 => format!("@{some}"),
        2 => format!("{some} "),
        3 => some[..some.len() - some.chars().last().map_or(0, |c| c.len_utf8())].to_string(),
        _ => format!("{some}0"),
    };
    let mut unknown = vec![(URI, decl), ("file:///w/other.hir", some), (URI, "@no_such_function".to_string())];
    if !st.m.funcs.iter().any(|f| st.m.toks[f.name].s == near) {
        unknown.push((URI, near));
    }
    for (u, f) in unknown {
        let id = srv.send_request("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [u, f]}));
        let r = srv.wait(id)?;
        if r.get("error").is_none() {
            return viol(format!("visualising unknown function {f} of {u} was answered with {r}"));
        }
    }
    if !srv.shown.is_empty() {
        return viol("a graph was shown for an unknown function");
    }
    Ok(())
}
