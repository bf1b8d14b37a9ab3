//! Navigation: positions, definitions, declarations, references, scoping, branches, layout.
use super::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C02", f: c02, quick: 4000, thorough: 60000, known: &[crate::runner::Known {
            what: "the characters U+000B, U+000C, U+0085, U+2028 and U+2029 in a comment or string count as line ends, so ranges after them are off (input: \"# a\\u{2028}b\\n@g = 1\\n\")",
            probe: known_unicode_lines,
        }], rule: "generated module with non-ASCII names, strings and comments in front of symbols, tabs, LF/CRLF/mixed line ends; non-trivial = at least 3 symbol occurrences and a non-ASCII or CRLF text with an occurrence preceded by a non-ASCII character on its line or by a CRLF; distinct by document text" },
        Check { id: "C03", f: c03, quick: 6000, thorough: 60000, known: &[], rule: "generated well-formed module (clean or with undefined/duplicate names), queries at every module-level occurrence and at random non-symbol positions; non-trivial = some module-level name has a definition or declaration and at least one use; distinct by document" },
        Check { id: "C04", f: c04, quick: 5000, thorough: 60000, known: &[], rule: "generated well-formed module, queries at every symbol occurrence; non-trivial = some symbol has at least two uses; distinct by document" },
        Check { id: "C05", f: c05, quick: 5000, thorough: 60000, known: &[], rule: "generated module with several functions drawing local names and labels from the same small pool; non-trivial = the same local name or label occurs in at least two function definitions; distinct by document" },
        Check { id: "C12", f: c12, quick: 5000, thorough: 60000, known: &[], rule: "generated function bodies with all branch forms, phis, near-miss instructions and irregular operands, or statements of real dumps; non-trivial = at least one recognised and one irregular or near-miss instruction; distinct by document" },
        Check { id: "C22", f: c22, quick: 3500, thorough: 50000, known: &[], rule: "one generated token sequence (well-formed module, module with malformed statements, or token soup) rendered in two random layouts; non-trivial = both texts differ and hold at least 3 symbol tokens; distinct by pair of documents" },
    ]
}

fn known_unicode_lines(c: &mut Case) -> Res<bool> {
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, "# a\u{2028}b\n@g = 1\n");
    let id = srv.doc_req("textDocument/documentSymbol", URI);
    let r = srv.result(id)?;
    Ok(rs(&r[0]["selectionRange"]) != "1:0-1:2")
}

fn c02(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg { messy: s.chance(1, 2), unicode: true, max_stmts: 6, avg_stmts: 3, ..Cfg::default() };
    let st = make(s, c, &cfg);
    let interesting = st.model.occs.iter().any(|o| {
        let (a, _) = st.d.span[o.tok];
        let l = st.d.map.line_of(a) as usize;
        let ls = st.d.map.line_start(l);
        st.d.map.chars[ls..a].iter().any(|c| !c.is_ascii()) || (ls >= 2 && st.d.map.chars[ls - 2] == '\r')
    });
    c.nontrivial = st.model.occs.len() >= 3 && interesting;
    let occs = sample_occs(s, &st.model.occs, 25);
    let mut q = vec![];
    for o in &occs {
        let (a, b) = st.d.span[o.tok];
        // every position in short names, some positions in long ones
        for off in a..b {
            if b - a <= 8 || off == a || off == b - 1 || s.chance(1, 4) {
                q.push((o.clone(), st.d.map.pos(off)));
            }
        }
    }
    // positions beyond the end of lines
    let mut beyond = vec![];
    for l in 0..st.d.map.line_count() {
        if s.chance(1, 2) {
            let e = st.d.map.line_end(l);
            let (line, col) = st.d.map.pos(e);
            let extra = match s.weighted(&[3, 2, 1, 1]) {
                0 => 1,
                1 => 2 + s.below(40),
                2 => 1000 + s.below(100000),
                _ => u32::MAX as u64 - col,
            };
            beyond.push((e, (line, col + extra)));
        }
    }
    let nlines = st.d.map.line_count() as u64;
    let after = [(nlines, 0), (nlines, 3), (nlines + 1 + s.below(1000), s.below(20)), (u32::MAX as u64, 0)];

    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let diags = srv.wait_diags(URI, 1)?;
    let ids: Vec<(i64, i64)> = q
        .iter()
        .map(|(_, p)| (srv.pos_req("textDocument/definition", URI, *p), srv.pos_req("textDocument/prepareRename", URI, *p)))
        .collect();
    let mut other = vec![];
    for (e, p) in &beyond {
        for m in ["textDocument/definition", "textDocument/references", "textDocument/prepareRename"] {
            other.push((srv.pos_req(m, URI, *p), m, *p, Some(*e)));
        }
    }
    for p in &after {
        for m in ["textDocument/definition", "textDocument/references", "textDocument/prepareRename"] {
            other.push((srv.pos_req(m, URI, *p), m, *p, None));
        }
    }
    let ref_ids: Vec<i64> = occs.iter().map(|o| srv.pos_req("textDocument/references", URI, st.d.pos(o.tok))).collect();
    let sym = srv.doc_req("textDocument/documentSymbol", URI);
    let lens = srv.doc_req("textDocument/codeLens", URI);
    let fold = srv.doc_req("textDocument/foldingRange", URI);
    let hints = srv.hints_req(URI, last_line(&st.d));
    c.add("queries", (ids.len() * 2 + other.len() + ref_ids.len() + 4) as u64);

    for ((o, p), (di, pi)) in q.iter().zip(ids) {
        let g = st.model.group(&st.m, o);
        let r = srv.result(di)?;
        let want = rs(&st.d.range(o.tok));
        let got = locs(&r)?;
        let exp = expect_locs(&st.d, URI, &g.defs);
        if got != exp {
            return viol(format!("definition at {}:{} inside {}: got {got:?}, expected {exp:?}", p.0, p.1, describe_tok(&st, o.tok)));
        }
        for l in as_arr(&r) {
            if let Some(or) = l.get("originSelectionRange") {
                if rs(or) != want {
                    return viol(format!("originSelectionRange {} at {}:{}, expected {want} for {}", rs(or), p.0, p.1, describe_tok(&st, o.tok)));
                }
            }
        }
        let r = srv.result(pi)?;
        let rr = if r.get("range").is_some() { r["range"].clone() } else { r.clone() };
        if rs(&rr) != want {
            return viol(format!("prepareRename at {}:{} gave {r}, expected {want} for {}", p.0, p.1, describe_tok(&st, o.tok)));
        }
    }
    for (id, m, p, end) in other {
        let r = srv.result(id)?;
        // the end of the line may count as part of a symbol that ends there
        let ending = end.and_then(|e| st.model.occs.iter().find(|o| st.d.span[o.tok].1 == e));
        let empty = r.is_null() || r.as_array().map_or(false, |a| a.is_empty());
        let ok = empty
            || ending.map_or(false, |o| {
                let g = st.model.group(&st.m, o);
                match m {
                    "textDocument/prepareRename" => {
                        let rr = if r.get("range").is_some() { r["range"].clone() } else { r.clone() };
                        rs(&rr) == rs(&st.d.range(o.tok))
                    }
                    "textDocument/definition" => locs(&r).ok() == Some(expect_locs(&st.d, URI, &g.defs)),
                    _ => locs(&r).ok() == Some(expect_locs(&st.d, URI, &g.uses)),
                }
            });
        if !ok {
            return viol(format!("{m} at {}:{} (beyond the text of the line) resolved to {r}", p.0, p.1));
        }
    }
    for (o, id) in occs.iter().zip(ref_ids) {
        let r = srv.result(id)?;
        for l in as_arr(&r) {
            let t = st.d.map.read(&l["range"]);
            if t.as_ref() != Some(&st.m.toks[o.tok].s) {
                return viol(format!("reference range {} of {} covers {:?}", rs(&l["range"]), describe_tok(&st, o.tok), t));
            }
        }
    }
    for y in as_arr(&srv.result(sym)?) {
        let t = st.d.map.read(&y["selectionRange"]);
        if t.as_deref() != y["name"].as_str() {
            return viol(format!("outline entry {} has a selection range covering {t:?}", y["name"]));
        }
    }
    for l in as_arr(&srv.result(lens)?) {
        let t = st.d.map.read(&l["range"]);
        let names: Vec<&str> = st.m.funcs.iter().map(|f| &st.m.toks[f.name].s[..]).collect();
        if !t.as_ref().map_or(false, |t| names.contains(&&t[..])) {
            return viol(format!("lens range {} covers {t:?}", rs(&l["range"])));
        }
    }
    // folding ranges start at the lines of `define`, labels or instructions
    let starts: Vec<u64> = st
        .m
        .funcs
        .iter()
        .flat_map(|f| {
            let mut v = vec![st.d.line(f.define)];
            for b in &f.blocks {
                v.push(match (b.label, b.instrs.first()) {
                    (Some(l), _) => st.d.line(l.0),
                    (None, Some(i)) => st.d.line(i.first),
                    _ => unreachable!(),
                });
            }
            v
        })
        .collect();
    for f in as_arr(&srv.result(fold)?) {
        if !f["startLine"].as_u64().map_or(false, |l| starts.contains(&l)) {
            return viol(format!("folding range starts at line {} where nothing starts", f["startLine"]));
        }
    }
    for h in as_arr(&srv.result(hints)?) {
        if st.d.map.offset(&h["position"]).is_none() {
            return viol(format!("hint position {} does not exist", h["position"]));
        }
        for p in as_arr(&h["label"]) {
            if let Some(l) = p.get("location") {
                let t = st.d.map.read(&l["range"]);
                if t.as_deref() != p["value"].as_str() {
                    return viol(format!("hint part {} links to {t:?}", p["value"]));
                }
            }
        }
    }
    for d in &diags {
        if let (DK::Undefined | DK::Duplicate, name) = classify(d) {
            let t = st.d.map.read(&d["range"]);
            if t.as_ref() != Some(&name) {
                return viol(format!("diagnostic {} covers {t:?}", d["message"]));
            }
        }
    }
    Ok(())
}

fn c03(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.irregular = s.chance(1, 4);
    let st = make(s, c, &cfg);
    let occs: Vec<Occ> =
        st.model.occs.iter().filter(|o| matches!(o.kind, Kind::Func | Kind::Gvar | Kind::Dbg)).cloned().collect();
    c.nontrivial = st
        .model
        .groups
        .iter()
        .any(|(k, g)| matches!(k.0, Kind::Func | Kind::Gvar | Kind::Dbg) && !g.uses.is_empty() && !(g.defs.is_empty() && g.decls.is_empty()));
    if st.model.groups.values().any(|g| g.defs.len() > 1) {
        c.label("several definitions");
    }
    if st.model.groups.values().any(|g| !g.decls.is_empty() && !g.defs.is_empty()) {
        c.label("declared and defined");
    }
    let occs = sample_occs(s, &occs, 60);
    let pos: Vec<(u64, u64)> = occs.iter().map(|o| st.d.inside(s, o.tok)).collect();
    let free = non_symbol_offsets(&st);
    let nf = if free.is_empty() { 0 } else { 12 };
    let nosym: Vec<(u64, u64)> = (0..nf).map(|_| st.d.map.pos(*s.pick(&free))).collect();

    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let ids: Vec<(i64, i64)> = pos
        .iter()
        .map(|p| (srv.pos_req("textDocument/definition", URI, *p), srv.pos_req("textDocument/declaration", URI, *p)))
        .collect();
    let nids: Vec<(i64, i64)> = nosym
        .iter()
        .map(|p| (srv.pos_req("textDocument/definition", URI, *p), srv.pos_req("textDocument/declaration", URI, *p)))
        .collect();
    c.add("queries", 2 * (ids.len() + nids.len()) as u64);
    for ((o, p), (a, b)) in occs.iter().zip(&pos).zip(ids) {
        let g = st.model.group(&st.m, o);
        for (id, what, exp) in [(a, "definition", &g.defs), (b, "declaration", &g.decls)] {
            let r = srv.result(id)?;
            let got = locs(&r)?;
            let exp = expect_locs(&st.d, URI, exp);
            if got != exp {
                return viol(format!("{what} of {} asked at {}:{}: got {got:?}, expected {exp:?}", describe_tok(&st, o.tok), p.0, p.1));
            }
            // the editor underlines the origin
            for l in as_arr(&r) {
                if l.get("originSelectionRange").map_or(false, |or| rs(or) != rs(&st.d.range(o.tok))) {
                    return viol(format!("{what} of {} asked at {}:{} has another origin: {l}", describe_tok(&st, o.tok), p.0, p.1));
                }
            }
        }
    }
    for (p, (a, b)) in nosym.iter().zip(nids) {
        for (id, what) in [(a, "definition"), (b, "declaration")] {
            let got = locs(&srv.result(id)?)?;
            if !got.is_empty() {
                return viol(format!("{what} at {}:{} which is not on a symbol: {got:?}", p.0, p.1));
            }
        }
    }
    Ok(())
}

fn c04(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.irregular = s.chance(1, 4);
    let st = make(s, c, &cfg);
    c.nontrivial = st.model.groups.values().any(|g| g.uses.len() >= 2);
    let occs = sample_occs(s, &st.model.occs, 70);
    let pos: Vec<(u64, u64)> = occs.iter().map(|o| st.d.inside(s, o.tok)).collect();
    let free = non_symbol_offsets(&st);
    let nf = if free.is_empty() { 0 } else { 8 };
    let nosym: Vec<(u64, u64)> = (0..nf).map(|_| st.d.map.pos(*s.pick(&free))).collect();
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let ids: Vec<[i64; 3]> = pos
        .iter()
        .map(|p| {
            [
                srv.pos_req("textDocument/references", URI, *p),
                srv.pos_req("textDocument/definition", URI, *p),
                srv.pos_req("textDocument/declaration", URI, *p),
            ]
        })
        .collect();
    let nids: Vec<i64> = nosym.iter().map(|p| srv.pos_req("textDocument/references", URI, *p)).collect();
    c.add("queries", (3 * ids.len() + nids.len()) as u64);
    for ((o, p), id) in occs.iter().zip(&pos).zip(ids) {
        let g = st.model.group(&st.m, o);
        let refs = locs(&srv.result(id[0])?)?;
        let exp = expect_locs(&st.d, URI, &g.uses);
        if refs != exp {
            return viol(format!("references of {} asked at {}:{}: got {refs:?}, expected {exp:?}", describe_tok(&st, o.tok), p.0, p.1));
        }
        let mut all = refs;
        all.extend(locs(&srv.result(id[1])?)?);
        all.extend(locs(&srv.result(id[2])?)?);
        all.sort();
        let exp = expect_locs(&st.d, URI, &g.all());
        if all != exp {
            return viol(format!("declarations, definitions and references of {} are {all:?}, occurrences are {exp:?}", describe_tok(&st, o.tok)));
        }
    }
    for (p, id) in nosym.iter().zip(nids) {
        let got = locs(&srv.result(id)?)?;
        if !got.is_empty() {
            return viol(format!("references at {}:{} which is not on a symbol: {got:?}", p.0, p.1));
        }
    }
    Ok(())
}

fn c05(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg {
        messy: s.chance(2, 3),
        unicode: s.chance(1, 5),
        w: [1, 2, 8, 0, 1, 0],
        numbered: s.chance(1, 2),
        irregular: s.chance(1, 4),
        ..Cfg::default()
    };
    let st = make(s, c, &cfg);
    let mut seen: BTreeMap<(Kind, String), usize> = BTreeMap::new();
    for k in st.model.groups.keys() {
        if matches!(k.0, Kind::Local | Kind::Label) {
            *seen.entry((k.0, k.2.clone())).or_default() += 1;
        }
    }
    c.nontrivial = seen.values().any(|n| *n >= 2);
    let locals: Vec<Occ> =
        st.model.occs.iter().filter(|o| matches!(o.kind, Kind::Local | Kind::Label)).cloned().collect();
    let occs = sample_occs(s, &locals, 50);
    let pos: Vec<(u64, u64)> = occs.iter().map(|o| st.d.inside(s, o.tok)).collect();
    // local names that are no symbols: in declarations and outside of functions
    let outside: Vec<usize> = (0..st.m.toks.len())
        .filter(|t| st.m.toks[*t].k == TK::Local && !st.model.by_tok.contains_key(t))
        .collect();
    let ren = sample_occs(s, &locals, 8);
    let shift: Vec<bool> = ren.iter().map(|_| s.chance(1, 2)).collect();
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let ids: Vec<[i64; 2]> = pos
        .iter()
        .map(|p| [srv.pos_req("textDocument/definition", URI, *p), srv.pos_req("textDocument/references", URI, *p)])
        .collect();
    let oids: Vec<[i64; 4]> = outside
        .iter()
        .map(|t| {
            let p = st.d.pos(*t);
            [
                srv.pos_req("textDocument/definition", URI, p),
                srv.pos_req("textDocument/declaration", URI, p),
                srv.pos_req("textDocument/references", URI, p),
                srv.pos_req("textDocument/prepareRename", URI, p),
            ]
        })
        .collect();
    let rids: Vec<i64> = ren
        .iter()
        .zip(&shift)
        .map(|(o, sh)| {
            let numbered = split_number(&st.m.toks[o.tok].s).is_some();
            srv.rename_req(URI, st.d.pos(o.tok), if *sh && numbered { "+3" } else { "zzz_new" })
        })
        .collect();
    c.add("queries", (2 * ids.len() + 4 * oids.len() + rids.len()) as u64);
    for ((o, p), id) in occs.iter().zip(&pos).zip(ids) {
        let g = st.model.group(&st.m, o);
        for (id, what, exp) in [(id[0], "definition", &g.defs), (id[1], "references", &g.uses)] {
            let got = locs(&srv.result(id)?)?;
            let exp = expect_locs(&st.d, URI, exp);
            if got != exp {
                return viol(format!("{what} of local {} asked at {}:{}: got {got:?}, expected {exp:?}", describe_tok(&st, o.tok), p.0, p.1));
            }
        }
    }
    for (t, id) in outside.iter().zip(oids) {
        for i in id {
            let r = srv.result(i)?;
            if !(r.is_null() || r.as_array().map_or(false, |a| a.is_empty())) {
                return viol(format!("local {} outside of a function definition resolves to {r}", describe_tok(&st, *t)));
            }
        }
    }
    for (o, id) in ren.iter().zip(rids) {
        let r = srv.result(id)?;
        let f = &st.m.funcs[o.scope.unwrap()];
        let (a, b) = (st.d.span[f.define].0, st.d.span[f.close].1);
        let es = edits_of(&r, URI)?;
        if es.is_empty() {
            return viol(format!("no rename edit for {}", describe_tok(&st, o.tok)));
        }
        for e in es {
            match st.d.map.span(&e["range"]) {
                Some((x, y)) if a <= x && y <= b => {}
                _ => {
                    return viol(format!("renaming {} touches {} outside of its function", describe_tok(&st, o.tok), rs(&e["range"])));
                }
            }
        }
    }
    Ok(())
}

/// Statements of real dumps. All their branches are of the usual forms; labels are recognised by lines.
fn c12_real(s: &mut Src, c: &mut Case) -> Res<()> {
    let text = super::agree::real_module(s);
    c.doc(&text);
    c.label("statements of real dumps");
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &text);
    let diags = srv.wait_diags(URI, 1)?;
    if let Some(d) = diags.iter().find(|d| classify(d).0 == DK::Extract) {
        return viol(format!("an instruction of a real dump is flagged: {d}"));
    }
    let lines: Vec<&str> = text.lines().collect();
    let mut from = 0;
    let mut q = vec![];
    while let Some(a) = (from..lines.len()).find(|i| lines[*i].starts_with("define")) {
        let b = (a..lines.len()).find(|i| lines[*i] == "}").unwrap_or(lines.len());
        from = b;
        let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
        for i in a + 1..b {
            if let Some(l) = lines[i].trim().strip_suffix(':') {
                labels.insert(l, i as u64);
            }
        }
        for i in a + 1..b {
            let l = lines[i].split('#').next().unwrap();
            let bytes = l.as_bytes();
            let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
            let mut k = 0;
            while k < bytes.len() {
                if !word(bytes[k]) {
                    k += 1;
                    continue;
                }
                let st = k;
                while k < bytes.len() && (word(bytes[k]) || bytes[k] == b':' && k + 1 < bytes.len() && (word(bytes[k + 1]) || bytes[k + 1] == b':')) {
                    k += 1;
                }
                if st > 0 && b"%@!".contains(&bytes[st - 1]) {
                    continue;
                }
                if let Some(d) = labels.get(&l[st..k]) {
                    q.push((i as u64, st as u64, *d, srv.pos_req("textDocument/definition", URI, (i as u64, (st + s.idx(k - st)) as u64))));
                }
            }
        }
    }
    c.nontrivial = q.len() >= 3;
    c.add("queries", q.len() as u64);
    for (l, k, d, id) in q {
        let got: Vec<u64> = as_arr(&srv.result(id)?).iter().map(|x| x["targetSelectionRange"]["start"]["line"].as_u64().or(x["range"]["start"]["line"].as_u64()).unwrap_or(u64::MAX)).collect();
        if got != [d] {
            return viol(format!("the label at {l}:{k} resolves to lines {got:?}, expected {d}"));
        }
    }
    Ok(())
}

fn c12(s: &mut Src, c: &mut Case) -> Res<()> {
    if s.chance(1, 20) {
        return c12_real(s, c);
    }
    let cfg = Cfg {
        messy: s.chance(1, 3),
        unicode: s.chance(1, 5),
        irregular: s.chance(4, 5),
        w: [1, 1, 8, 0, 1, 0],
        avg_stmts: 3,
        max_stmts: 5,
        max_instrs: 8,
        ..Cfg::default()
    };
    let st = make(s, c, &cfg);
    let instrs: Vec<&Instr> = st.m.funcs.iter().flat_map(|f| f.blocks.iter()).flat_map(|b| b.instrs.iter()).collect();
    c.nontrivial = instrs.iter().any(|i| !i.refs.is_empty()) && instrs.iter().any(|i| i.flagged || !i.branching);
    c.add("instructions", instrs.len() as u64);
    c.add("irregular", instrs.iter().filter(|i| i.flagged).count() as u64);
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let diags = srv.wait_diags(URI, 1)?;
    let mut got: Vec<String> = vec![];
    for d in &diags {
        match classify(d) {
            (DK::Extract, name) => {
                let t = st.d.map.read(&d["range"]);
                if t.as_ref() != Some(&name) {
                    return viol(format!("diagnostic {} covers {t:?}", d["message"]));
                }
                got.push(rs(&d["range"]));
            }
            (DK::Syntax, m) => return viol(format!("well-formed module got a syntax error at {}: {m}", rs(&d["range"]))),
            _ => {}
        }
    }
    got.sort();
    let mut exp: Vec<String> = instrs.iter().filter(|i| i.flagged).map(|i| rs(&st.d.range(i.opcode))).collect();
    exp.sort();
    if got != exp {
        return viol(format!("instructions without extractable targets: reported {got:?}, expected {exp:?}"));
    }
    // label references: every identifier token of the body resolves exactly if it is a label
    let mut q = vec![];
    for f in &st.m.funcs {
        for t in f.open + 1..f.close {
            if st.m.toks[t].k == TK::Ident {
                let p = st.d.pos(t);
                q.push((t, srv.pos_req("textDocument/definition", URI, p), srv.pos_req("textDocument/references", URI, p), srv.pos_req("textDocument/prepareRename", URI, p)));
            }
        }
    }
    c.add("queries", 3 * q.len() as u64);
    for (t, d, r, p) in q {
        let prep = srv.result(p)?;
        let (ed, er) = match st.model.by_tok.get(&t) {
            Some(o) => {
                let g = st.model.group(&st.m, &st.model.occs[*o]);
                (expect_locs(&st.d, URI, &g.defs), expect_locs(&st.d, URI, &g.uses))
            }
            None => (vec![], vec![]),
        };
        let (gd, gr) = (locs(&srv.result(d)?)?, locs(&srv.result(r)?)?);
        if prep.is_null() == st.model.by_tok.contains_key(&t) {
            return viol(format!("{} is {}a recognised label", describe_tok(&st, t), if prep.is_null() { "not " } else { "" }));
        }
        if gd != ed || gr != er {
            return viol(format!("label {}: definition {gd:?} (expected {ed:?}), references {gr:?} (expected {er:?})", describe_tok(&st, t)));
        }
    }
    Ok(())
}

/// Everything observable about a document in terms of token numbers instead of positions.
fn abstract_view(srv: &mut Server, uri: &str, m: &Module, d: &Doc, funcs: &[String]) -> Res<BTreeMap<String, Vec<String>>> {
    let mut out: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let by_span: BTreeMap<(usize, usize), usize> = d.span.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let by_start: BTreeMap<usize, usize> = d.span.iter().enumerate().map(|(i, s)| (s.0, i)).collect();
    let by_end: BTreeMap<usize, usize> = d.span.iter().enumerate().map(|(i, s)| (s.1, i)).collect();
    let name = |r: &Value| -> String {
        match d.map.span(r) {
            Some(sp) => match by_span.get(&sp) {
                Some(t) => format!("#{t}"),
                None => format!("{:?}..{:?}", by_start.get(&sp.0), by_end.get(&sp.1)),
            },
            None => format!("invalid range {}", rs(r)),
        }
    };
    let mut ids = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        if matches!(t.k, TK::Local | TK::Global | TK::Dbg | TK::Ident) {
            let p = d.pos(i);
            for q in ["definition", "declaration", "references"] {
                ids.push((format!("{q} of #{i} {}", t.s), srv.pos_req(&format!("textDocument/{q}"), uri, p)));
            }
        }
    }
    let sym = srv.doc_req("textDocument/documentSymbol", uri);
    let lens = srv.doc_req("textDocument/codeLens", uri);
    for (k, id) in ids {
        let r = srv.result(id)?;
        let mut v: Vec<String> = as_arr(&r)
            .iter()
            .map(|l| if l.get("targetUri").is_some() { name(&l["targetSelectionRange"]) } else { name(&l["range"]) })
            .collect();
        v.sort();
        out.insert(k, v);
    }
    let mut v: Vec<String> = as_arr(&srv.result(sym)?)
        .iter()
        .map(|y| format!("{} {} {} {}", y["name"], y["kind"], name(&y["selectionRange"]), name(&y["range"])))
        .collect();
    v.sort();
    out.insert("outline".into(), v);
    let mut v: Vec<String> = as_arr(&srv.result(lens)?).iter().map(|y| name(&y["range"])).collect();
    v.sort();
    out.insert("lenses".into(), v);
    for f in funcs {
        srv.shown.clear();
        let id = srv.send_request("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uri, f]}));
        let r = srv.wait(id)?;
        let mut v = vec![];
        if r.get("error").is_none() {
            for sdot in &srv.shown {
                let mut l: Vec<String> =
                    sdot["dotGraph"].as_str().unwrap_or("").lines().map(|l| l.trim().to_string()).collect();
                l.sort();
                v.extend(l);
            }
        } else {
            v.push("error".into());
        }
        out.insert(format!("cfg of {f}"), v);
    }
    Ok(out)
}

fn diag_view(diags: &[Value], d: &Doc) -> Vec<String> {
    let by_span: BTreeMap<(usize, usize), usize> = d.span.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let mut v = vec![];
    for g in diags {
        let (k, n) = classify(g);
        if k != DK::Syntax {
            let t = d.map.span(&g["range"]).and_then(|s| by_span.get(&s).copied());
            let rel: Vec<_> = as_arr(&g["relatedInformation"])
                .iter()
                .map(|r| d.map.span(&r["location"]["range"]).and_then(|s| by_span.get(&s).copied()))
                .collect();
            v.push(format!("{k:?} {n} {t:?} {rel:?}"));
        }
    }
    v.sort();
    v
}

fn c22(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.irregular = s.chance(1, 3);
    cfg.max_stmts = 7;
    let m = match s.weighted(&[4, 2, 1]) {
        0 => module(s, &cfg),
        1 => {
            c.label("malformed statements");
            cfg.w = [3, 3, 4, 1, 3, 4];
            module(s, &cfg)
        }
        _ => {
            c.label("token soup");
            soup_lines(s, &cfg)
        }
    };
    let l1 = LCfg::random(s, cfg.unicode);
    let l2 = LCfg::random(s, cfg.unicode);
    let d1 = layout(s, &m, &l1);
    let d2 = layout(s, &m, &l2);
    c.doc(&d1.text);
    c.doc(&d2.text);
    c.nontrivial = d1.text != d2.text
        && m.toks.iter().filter(|t| matches!(t.k, TK::Global | TK::Local | TK::Dbg)).count() >= 3;
    let mut funcs: Vec<String> = m.funcs.iter().map(|f| m.toks[f.name].s.clone()).collect();
    funcs.sort();
    funcs.dedup();
    let mut srv = c.server(&InitOpts::default())?;
    let (u1, u2) = ("file:///w/a.hir", "file:///w/b.hir");
    srv.open(u1, 1, &d1.text);
    srv.open(u2, 1, &d2.text);
    let g1 = srv.wait_diags(u1, 1)?;
    let g2 = srv.wait_diags(u2, 1)?;
    let (x, y) = (diag_view(&g1, &d1), diag_view(&g2, &d2));
    if x != y {
        return viol(format!("diagnostics differ between two layouts of the same tokens: {x:?} vs {y:?}"));
    }
    let n1 = g1.iter().any(|g| classify(g).0 == DK::Syntax);
    let n2 = g2.iter().any(|g| classify(g).0 == DK::Syntax);
    if n1 != n2 {
        return viol(format!("only one of two layouts of the same tokens has syntax errors: {n1} vs {n2}"));
    }
    let v1 = abstract_view(&mut srv, u1, &m, &d1, &funcs)?;
    let v2 = abstract_view(&mut srv, u2, &m, &d2, &funcs)?;
    c.add("compared answers", v1.len() as u64);
    for (k, a) in &v1 {
        let b = &v2[k];
        if a != b {
            return viol(format!("{k}: {a:?} in the first layout, {b:?} in the second"));
        }
    }
    Ok(())
}

/// Token lines in which line ends cannot be taken as operands.
fn soup_lines(s: &mut Src, cfg: &Cfg) -> Module {
    let mut m = token_soup(s, cfg, 60);
    for t in &mut m.toks {
        if t.k == TK::Ident && matches!(&t.s[..], "cont" | "default" | "br" | "switch") {
            t.s = "word".into();
        }
    }
    m
}
