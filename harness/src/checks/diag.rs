//! Diagnostics and error containment.
use super::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C09", f: c09, quick: 8000, thorough: 80000, known: &[], rule: "generated well-formed module with names defined, undefined and redefined at random (1/4 clean); non-trivial = the model expects at least one undefined and one duplicate report, or the module is clean with at least 4 symbols; distinct by document" },
        Check { id: "C10", f: c10, quick: 12000, thorough: 100000, known: &[], rule: "generated well-formed modules and statements of real dumps (must be free of syntax errors) and modules with malformed statements, illegal characters and unterminated strings inserted; non-trivial = well-formed with at least 3 statements or at least one malformed group next to a well-formed statement; distinct by document" },
        Check { id: "C11", f: c11, quick: 6000, thorough: 80000, known: &[], rule: "generated module with malformed statements between the well-formed ones and/or illegal characters between tokens; non-trivial = at least one malformed part and at least two well-formed statements; distinct by document" },
    ]
}

fn c09(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg { messy: s.chance(3, 4), unicode: s.chance(1, 4), irregular: s.chance(1, 6), ..Cfg::default() };
    let st = make(s, c, &cfg);
    let mut exp: Vec<(DK, String, String, Option<String>)> = vec![];
    for (k, g) in &st.model.groups {
        if g.decls.is_empty() && g.defs.is_empty() {
            for u in &g.uses {
                exp.push((DK::Undefined, k.2.clone(), rs(&st.d.range(*u)), None));
            }
        }
        for d in g.defs.iter().skip(1) {
            exp.push((DK::Duplicate, k.2.clone(), rs(&st.d.range(*d)), Some(rs(&st.d.range(g.defs[0])))));
        }
    }
    exp.sort();
    let n = |k: DK| exp.iter().filter(|e| e.0 == k).count() as u64;
    c.add("expected undefined", n(DK::Undefined));
    c.add("expected duplicate", n(DK::Duplicate));
    c.nontrivial = if cfg.messy { n(DK::Undefined) > 0 && n(DK::Duplicate) > 0 } else { st.model.groups.len() >= 4 };
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let diags = srv.wait_diags(URI, 1)?;
    let mut got = vec![];
    for d in &diags {
        let (k, name) = classify(d);
        if k == DK::Extract {
            continue;
        }
        if k == DK::Syntax {
            return viol(format!("unexpected report at {}: {name}", rs(&d["range"])));
        }
        let rel = as_arr(&d["relatedInformation"]);
        if rel.iter().any(|r| r["location"]["uri"] != URI) || rel.len() > 1 {
            return viol(format!("related information of {d} is wrong"));
        }
        got.push((k, name, rs(&d["range"]), rel.first().map(|r| rs(&r["location"]["range"]))));
    }
    got.sort();
    if got != exp {
        let missing: Vec<_> = exp.iter().filter(|e| !got.contains(e)).collect();
        let extra: Vec<_> = got.iter().filter(|e| !exp.contains(e)).collect();
        return viol(format!("symbol reports differ: missing {missing:?}, unexpected {extra:?} ({} reported, {} expected)", got.len(), exp.len()));
    }
    Ok(())
}

/// Line ranges (first, last) of the groups of adjacent malformed statements
fn bad_groups(st: &Setup) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    let mut prev_bad = false;
    for (i, x) in st.m.stmts.iter().enumerate() {
        let bad = matches!(x.kind, SK::Bad | SK::BadOpen);
        if bad {
            let a = st.d.line(x.toks.0);
            let mut b = st.d.line(x.toks.1 - 1);
            if x.kind == SK::BadOpen {
                // only detectable at the next token or the end of the file
                b = match st.m.stmts.get(i + 1) {
                    Some(n) => st.d.line(n.toks.0),
                    None => st.d.map.line_count() as u64,
                };
            }
            if prev_bad {
                let l = out.last_mut().unwrap();
                l.1 = l.1.max(b);
            } else {
                out.push((a, b));
            }
        }
        prev_bad = bad;
    }
    out
}

fn c10(s: &mut Src, c: &mut Case) -> Res<()> {
    let mode = s.weighted(&[8, 10, 4, 4, 1]);
    if mode == 4 {
        let text = super::agree::real_module(s);
        c.doc(&text);
        c.label("statements of real dumps");
        c.nontrivial = text.lines().count() >= 3;
        let mut srv = c.server(&InitOpts::default())?;
        srv.open(URI, 1, &text);
        let diags = srv.wait_diags(URI, 1)?;
        if let Some(d) = diags.iter().find(|d| classify(d).0 == DK::Syntax) {
            return viol(format!("well-formed module got a syntax error: {d}"));
        }
        return Ok(());
    }
    let mut cfg = random_cfg(s);
    cfg.messy = s.chance(1, 4);
    if mode == 1 {
        cfg.w = [3, 3, 4, 1, 3, 5];
        if s.chance(1, 30) {
            cfg.max_stmts = 40;
            cfg.avg_stmts = 25;
        }
    }
    let mut lc = LCfg::random(s, cfg.unicode);
    lc.illegal = mode == 2;
    let m = module(s, &cfg);
    let mut d = layout(s, &m, &lc);
    let mut tail_quote = None;
    if mode == 3 {
        // an unterminated string as the last thing in the file
        let quotes = d.text.matches('"').count();
        let in_comment = d.comments.iter().any(|sp| d.map.slice(*sp).contains('"'));
        if quotes % 2 == 0 || in_comment {
            let mut text = d.text.clone();
            if !text.is_empty() && !text.ends_with('\n') {
                text.push('\n');
            }
            let line = text.matches('\n').count() as u64;
            text.push_str(*s.pick(&["\"abc", "@zz = \"abc", "!zz = { \"abc", "@zz = \"", "\"abc def\n", "@zz = \"a\nb\n"]));
            d.map = crate::text::TextMap::new(&text);
            d.text = text;
            tail_quote = Some(line);
        }
    }
    let model = Model::new(&m);
    c.doc(&d.text);
    let st = Setup { m, d, model };
    let groups = bad_groups(&st);
    let good = st.m.stmts.iter().filter(|x| !matches!(x.kind, SK::Bad | SK::BadOpen)).count();
    c.label(["well-formed", "malformed statements", "illegal characters", "unterminated string"][mode]);
    if st.m.stmts.last().map_or(false, |x| matches!(x.kind, SK::Bad | SK::BadOpen)) {
        c.label("malformed at the end");
    }
    c.nontrivial = match mode {
        0 => good >= 3,
        1 => !groups.is_empty() && good >= 1,
        2 => !st.d.illegal.is_empty() && good >= 1,
        _ => tail_quote.is_some() && good >= 1,
    };
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let diags = srv.wait_diags(URI, 1)?;
    let syn: Vec<&Value> = diags.iter().filter(|d| classify(d).0 == DK::Syntax).collect();
    for d in &syn {
        if st.d.map.span(&d["range"]).is_none() {
            return viol(format!("syntax error at a range that does not exist: {d}"));
        }
    }
    let lines: Vec<u64> = syn.iter().map(|d| d["range"]["start"]["line"].as_u64().unwrap_or(u64::MAX)).collect();
    if mode == 2 {
        // one error per run of illegal characters (runs separated by at least one token or line end)
        let mut runs: Vec<(usize, usize)> = vec![];
        for (a, b) in &st.d.illegal {
            match runs.last_mut() {
                Some(l) if st.d.map.chars[l.1..*a].iter().all(|c| matches!(c, ' ' | '\t')) => l.1 = *b,
                _ => runs.push((*a, *b)),
            }
        }
        c.add("illegal runs", runs.len() as u64);
        for (a, b) in &runs {
            let hit = syn.iter().any(|d| {
                st.d.map.span(&d["range"]).map_or(false, |(x, y)| x < *b && y >= *a && x >= *a)
            });
            if !hit {
                return viol(format!("no syntax error for the illegal characters {:?} at {:?}; errors: {:?}", st.d.map.slice((*a, *b)), st.d.map.pos(*a), syn));
            }
        }
        if runs.is_empty() && !syn.is_empty() {
            return viol(format!("well-formed module got a syntax error: {}", syn[0]));
        }
        // no error anywhere else
        for d in &syn {
            let (x, y) = st.d.map.span(&d["range"]).unwrap();
            if !runs.iter().any(|(a, b)| x < *b && y >= *a) {
                return viol(format!("syntax error away from the illegal characters: {d}"));
            }
        }
        return Ok(());
    }
    if let Some(l) = tail_quote {
        if !lines.iter().any(|x| *x >= l) {
            return viol(format!("no syntax error for the unterminated string in line {l}; errors: {syn:?}"));
        }
        if let Some(d) = syn.iter().find(|d| d["range"]["start"]["line"].as_u64() < Some(l)) {
            return viol(format!("syntax error in the well-formed part before the unterminated string: {d}"));
        }
        return Ok(());
    }
    c.add("malformed groups", groups.len() as u64);
    for (a, b) in &groups {
        if !lines.iter().any(|l| a <= l && l <= b) {
            return viol(format!("no syntax error for the malformed statements in lines {a} to {b}; errors in lines {lines:?}"));
        }
    }
    for (d, l) in syn.iter().zip(&lines) {
        if !groups.iter().any(|(a, b)| a <= l && l <= b) {
            return viol(format!("syntax error in well-formed text: {} at {}", d["message"], rs(&d["range"])));
        }
    }
    Ok(())
}

fn c11(s: &mut Src, c: &mut Case) -> Res<()> {
    let mode = s.weighted(&[3, 1, 1]); // statements, illegal characters, both
    let mut cfg = random_cfg(s);
    cfg.messy = s.chance(1, 4);
    if mode != 1 {
        cfg.w = [3, 3, 5, 1, 3, 5];
    }
    let mut lc = LCfg::random(s, cfg.unicode);
    lc.illegal = mode != 0;
    let m = module(s, &cfg);
    let d = layout(s, &m, &lc);
    let model = Model::new(&m);
    c.doc(&d.text);
    let st = Setup { m, d, model };
    let bad = st.m.stmts.iter().filter(|x| matches!(x.kind, SK::Bad | SK::BadOpen)).count();
    let good = st.m.stmts.len() - bad;
    c.label(["malformed statements", "illegal characters", "both"][mode]);
    if st.m.stmts.last().map_or(false, |x| matches!(x.kind, SK::Bad | SK::BadOpen)) {
        c.label("malformed at the end");
    }
    c.nontrivial = good >= 2 && (bad > 0 || !st.d.illegal.is_empty());
    let occs = sample_occs(s, &st.model.occs, 50);
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let diags = srv.wait_diags(URI, 1)?;
    let sym = srv.doc_req("textDocument/documentSymbol", URI);
    let sem = srv.doc_req("textDocument/semanticTokens/full", URI);
    let ids: Vec<[i64; 3]> = occs
        .iter()
        .map(|o| {
            let p = st.d.pos(o.tok);
            [
                srv.pos_req("textDocument/definition", URI, p),
                srv.pos_req("textDocument/declaration", URI, p),
                srv.pos_req("textDocument/references", URI, p),
            ]
        })
        .collect();
    c.add("queries", (3 * ids.len() + 2) as u64);
    // outline
    let got: Vec<(String, String)> = as_arr(&srv.result(sym)?)
        .iter()
        .map(|y| (y["name"].as_str().unwrap_or("").to_string(), rs(&y["selectionRange"])))
        .collect();
    for (i, t) in st.m.toks.iter().enumerate() {
        let f = st.m.funcs.iter().any(|f| f.name == i);
        if t.k == TK::Global && t.r == R::Def && !t.bad {
            let e = (t.s.clone(), rs(&st.d.range(i)));
            let n = got.iter().filter(|g| **g == e).count();
            if n != 1 {
                return viol(format!(
                    "the outline lists the well-formed {} {} {n} times: {got:?}",
                    if f { "function" } else { "variable" },
                    describe_tok(&st, i)
                ));
            }
        }
    }
    let bad_lines: Vec<(usize, usize)> = st
        .m
        .stmts
        .iter()
        .filter(|x| matches!(x.kind, SK::Bad | SK::BadOpen))
        .map(|x| (st.d.span[x.toks.0].0, st.d.span[x.toks.1 - 1].1))
        .collect();
    for (o, id) in occs.iter().zip(ids) {
        let g = st.model.group(&st.m, o);
        for (i, what, exp) in [(id[0], "definition", &g.defs), (id[1], "declaration", &g.decls)] {
            let got = locs(&srv.result(i)?)?;
            let exp = expect_locs(&st.d, URI, exp);
            if got != exp {
                return viol(format!("{what} of {} next to malformed text: got {got:?}, expected {exp:?}", describe_tok(&st, o.tok)));
            }
        }
        let r = srv.result(id[2])?;
        let got = locs(&r)?;
        for e in expect_locs(&st.d, URI, &g.uses) {
            if !got.contains(&e) {
                return viol(format!("references of {} lack {}: {got:?}", describe_tok(&st, o.tok), e.1));
            }
        }
        for l in as_arr(&r) {
            let known = g.uses.iter().any(|u| rs(&st.d.range(*u)) == rs(&l["range"]));
            let in_bad = st.d.map.span(&l["range"]).map_or(false, |(a, b)| bad_lines.iter().any(|(x, y)| *x <= a && b <= *y));
            if !known && !in_bad {
                return viol(format!("references of {} contain {}", describe_tok(&st, o.tok), rs(&l["range"])));
            }
        }
    }
    // symbol reports on well-formed text are those of the model
    let mut got = vec![];
    for x in &diags {
        let (k, name) = classify(x);
        if matches!(k, DK::Undefined | DK::Duplicate) {
            let Some((a, b)) = st.d.map.span(&x["range"]) else {
                return viol(format!("report at a range that does not exist: {x}"));
            };
            if !bad_lines.iter().any(|(p, q)| *p <= a && b <= *q) {
                got.push((k, name, rs(&x["range"])));
            }
        }
    }
    got.sort();
    let mut exp = vec![];
    for (k, g) in &st.model.groups {
        if g.decls.is_empty() && g.defs.is_empty() {
            exp.extend(g.uses.iter().map(|u| (DK::Undefined, k.2.clone(), rs(&st.d.range(*u)))));
        }
        exp.extend(g.defs.iter().skip(1).map(|u| (DK::Duplicate, k.2.clone(), rs(&st.d.range(*u)))));
    }
    exp.sort();
    if got != exp {
        let missing: Vec<_> = exp.iter().filter(|e| !got.contains(e)).collect();
        let extra: Vec<_> = got.iter().filter(|e| !exp.contains(e)).collect();
        return viol(format!("symbol reports in the well-formed part differ: missing {missing:?}, unexpected {extra:?}"));
    }
    // highlighting is not affected by illegal characters or malformed statements
    let r = srv.result(sem)?;
    super::structure::check_tokens(&srv.init, &r, &st.m, &st.d)
}
