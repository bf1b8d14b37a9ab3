//! Renaming and renumbering.
use super::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C06", f: c06, quick: 6000, thorough: 60000, known: &[], rule: "generated well-formed module, renames of up to 8 occurrences to generated valid names; non-trivial = a renamed symbol has at least 2 occurrences and another symbol occurs in the document; distinct by document and names" },
        Check { id: "C07", f: c07, quick: 6000, thorough: 60000, known: &[], rule: "generated clean module, one symbol of each kind renamed to adversarial strings; non-trivial = at least one name accepted and one rejected; distinct by document and names" },
        Check { id: "C08", f: c08, quick: 5000, thorough: 60000, known: &[], rule: "generated module with mostly numbered names, relative renames and code actions with eager and lazy clients; non-trivial = a shift moves at least two symbols and leaves a numbered symbol of the same kind or scope alone; distinct by document and shifts" },
    ]
}

/// A valid new name (without sigil).
fn valid_name(s: &mut Src, unicode: bool, digit_ok: bool) -> String {
    let heads: &[&str] = if unicode { &["n", "_", "New", "é", "变", "𝒳", "Ω"] } else { &["n", "_", "New", "z", "Q"] };
    let tails: &[&str] = if unicode {
        &["", "ew", "_1", "7", "::x", ":y", "é", "0", "变量", "_"]
    } else {
        &["", "ew", "_1", "7", "::x", ":y", "0", "_", "name12"]
    };
    let mut n = if digit_ok && s.chance(1, 2) { s.range(1, 5000).to_string() } else { s.pick(heads).to_string() };
    for _ in 0..s.below(4) {
        n.push_str(s.pick(tails));
    }
    n
}

fn sigil(k: Kind) -> &'static str {
    match k {
        Kind::Func | Kind::Gvar => "@",
        Kind::Dbg => "!",
        Kind::Local => "%",
        Kind::Label => "",
    }
}

pub fn reserved(n: &str) -> bool {
    TYPES.contains(&n) || MODS.contains(&n) || n == "declare" || n == "define"
}

fn c06(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.irregular = s.chance(1, 5);
    let st = make(s, c, &cfg);
    let occs = sample_occs(s, &st.model.occs, 8);
    c.nontrivial = occs.iter().any(|o| st.model.group(&st.m, o).all().len() >= 2) && st.model.groups.len() >= 2;
    let mut plan = vec![];
    for o in &occs {
        let base = valid_name(s, cfg.unicode, o.kind == Kind::Dbg);
        let base = if o.kind == Kind::Label && reserved(&base) { "zz".to_string() } else { base };
        let with = s.chance(1, 2);
        let sent = if with { format!("{}{base}", sigil(o.kind)) } else { base.clone() };
        let p = st.d.inside(s, o.tok);
        let all = st.model.group(&st.m, o).all();
        let other = all[s.idx(all.len())];
        let p2 = st.d.inside(s, other);
        c.note(format!("rename {} to {sent}", describe_tok(&st, o.tok)));
        plan.push((o.clone(), base, sent, p, p2));
    }
    let free = non_symbol_offsets(&st);
    let nf = if free.is_empty() { 0 } else { 6 };
    let nosym: Vec<(u64, u64)> = (0..nf).map(|_| st.d.map.pos(*s.pick(&free))).collect();
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let ids: Vec<[i64; 3]> = plan
        .iter()
        .map(|(_, _, sent, p, p2)| [srv.rename_req(URI, *p, sent), srv.rename_req(URI, *p2, sent), srv.pos_req("textDocument/prepareRename", URI, *p)])
        .collect();
    let nids: Vec<[i64; 2]> = nosym
        .iter()
        .map(|p| [srv.pos_req("textDocument/prepareRename", URI, *p), srv.rename_req(URI, *p, "valid_name")])
        .collect();
    c.add("renames", 2 * ids.len() as u64);
    for ((o, base, sent, p, p2), id) in plan.iter().zip(ids) {
        let new = format!("{}{base}", sigil(o.kind));
        let repl: BTreeMap<usize, String> =
            st.model.group(&st.m, o).all().into_iter().map(|t| (t, new.clone())).collect();
        let exp = replaced(&st, &repl);
        for (i, at) in [(id[0], p), (id[1], p2)] {
            let r = srv.result(i)?;
            let es = edits_of(&r, URI)?;
            let got = match st.d.map.apply(&es) {
                Ok(t) => t,
                Err(e) => return viol(format!("rename of {} to `{sent}` at {}:{}: {e}", describe_tok(&st, o.tok), at.0, at.1)),
            };
            if got != exp {
                return viol(format!(
                    "rename of {} to `{sent}` at {}:{} edits {:?}, expected the {} occurrences {:?} to become `{new}`",
                    describe_tok(&st, o.tok),
                    at.0,
                    at.1,
                    es.iter().map(|e| format!("{}={}", rs(&e["range"]), e["newText"])).collect::<Vec<_>>(),
                    repl.len(),
                    expect_locs(&st.d, "", &repl.keys().copied().collect::<Vec<_>>())
                ));
            }
        }
        let r = srv.result(id[2])?;
        let rr = if r.get("range").is_some() { r["range"].clone() } else { r.clone() };
        if rs(&rr) != rs(&st.d.range(o.tok)) {
            return viol(format!("prepareRename on {} gives {r}", describe_tok(&st, o.tok)));
        }
    }
    for (p, id) in nosym.iter().zip(nids) {
        let r = srv.result(id[0])?;
        if !r.is_null() {
            return viol(format!("rename offered at {}:{} which is not on a symbol: {r}", p.0, p.1));
        }
        let r = srv.wait(id[1])?;
        if r.get("error").is_none() && !edits_of(&r["result"], URI)?.is_empty() {
            return viol(format!("rename at {}:{} which is not on a symbol produced edits: {r}", p.0, p.1));
        }
    }
    Ok(())
}

const NASTY: &[&str] = &[
    "", " ", "@", "%", "!", "@@", "%%", "!!", "a b", "a-b", "a:", ":a", "::", ":", "a::", "1", "12a", "@1", "%1", "!1",
    "declare", "define", "int32", "ptr", "void", "pure", "exported", "@declare", "br", "phi", "switch", "depends", "on",
    "a\"b", "\"", "a#b", "#", "a\nb", "\n", "a\r\nb", "a,b", "a=b", "a(", "x{", "}", "[", "@%x", "%@x", "a.b", "é", "²",
    "a²", "🦀", "a🦀", "\u{301}", "a\u{301}", "変数", "𝒳", "x\t", "\tx", "a$", "'", "\\n", "a\u{a0}", "٣", "a٣", "Ⅷ",
    "@x", "%x", "!x", "!5", "label", "cont", "a:b", "a::b", "int1", "Int1", "_", "__", "a:1", "1:a", ":1", "noreturn",
    "x!", "x@y", "@:", "%:", "!:", "@:a", "%:a", "!:a", "!1a", "a1:", "\0", "a\0", "\u{feff}x", "x\u{2028}y", "0x1f",
];

fn nasty_name(s: &mut Src) -> String {
    match s.weighted(&[5, 3, 2]) {
        0 => s.pick(NASTY).to_string(),
        1 => {
            let mut n = String::new();
            for _ in 0..1 + s.below(3) {
                n.push_str(s.pick(NASTY));
            }
            n
        }
        _ => {
            let cs: Vec<char> = "ab1_:@%!# \"\n,=é².²٣{}:-".chars().collect();
            (0..s.below(6)).map(|_| *s.pick(&cs)).collect()
        }
    }
}

/// Names that have to be accepted (given without sigil or with the right one).
fn must_accept(name: &str, k: Kind) -> bool {
    let b = name.strip_prefix(sigil(k)).unwrap_or(name);
    let ok = |c: char| c.is_ascii_alphanumeric() || c == '_';
    !b.is_empty()
        && b.chars().all(|c| ok(c) || c == ':')
        && !b.starts_with(|c: char| c.is_ascii_digit())
        && !b.starts_with(':')
        && !b.ends_with(':')
        && !reserved(b)
}

fn c07(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg { unicode: s.chance(1, 5), max_stmts: 6, avg_stmts: 4, ..Cfg::default() };
    let st = make(s, c, &cfg);
    if st.model.occs.is_empty() {
        return Ok(());
    }
    let mut plan = vec![];
    for _ in 0..6 {
        // choose the kind first so that all kinds get their share
        let kinds: Vec<Kind> = {
            let mut k: Vec<Kind> = st.model.occs.iter().map(|o| o.kind).collect();
            k.sort();
            k.dedup();
            k
        };
        let k = *s.pick(&kinds);
        let of_kind: Vec<&Occ> = st.model.occs.iter().filter(|o| o.kind == k).collect();
        let o = (*s.pick(&of_kind)).clone();
        let mut name = nasty_name(s);
        if s.chance(1, 4) {
            name = format!("{}{name}", sigil(k));
        }
        if name.starts_with('+') || name.starts_with('-') {
            name.insert(0, 'x');
        }
        c.note(format!("rename {} to {name:?}", describe_tok(&st, o.tok)));
        plan.push((o, name));
    }
    let mut srv = c.server(&InitOpts::default())?;
    srv.open(URI, 1, &st.d.text);
    let base = srv.wait_diags(URI, 1)?;
    if let Some(d) = base.iter().find(|d| classify(d).0 == DK::Syntax) {
        return viol(format!("well-formed module got a syntax error: {d}"));
    }
    let ids: Vec<i64> = plan.iter().map(|(o, n)| srv.rename_req(URI, st.d.pos(o.tok), n)).collect();
    let (mut acc, mut rej) = (0, 0);
    for (ix, ((o, name), id)) in plan.iter().zip(ids).enumerate() {
        let r = srv.wait(id)?;
        if r.get("error").is_some() {
            rej += 1;
            if must_accept(name, o.kind) {
                return viol(format!("rename of {} to the valid name {name:?} was rejected: {}", describe_tok(&st, o.tok), r["error"]));
            }
            continue;
        }
        let es = edits_of(&r["result"], URI)?;
        if es.is_empty() {
            rej += 1;
            if must_accept(name, o.kind) {
                return viol(format!("rename of {} to the valid name {name:?} gives no edit", describe_tok(&st, o.tok)));
            }
            continue;
        }
        acc += 1;
        let what = format!("rename of {} to {name:?}", describe_tok(&st, o.tok));
        let text = match st.d.map.apply(&es) {
            Ok(t) => t,
            Err(e) => return viol(format!("{what}: {e}")),
        };
        let new = es[0]["newText"].as_str().unwrap_or("").to_string();
        if es.iter().any(|e| e["newText"] != new) {
            return viol(format!("{what}: edits insert different names"));
        }
        // The name asked for, apart from the sigil
        let bare = name.strip_prefix(sigil(o.kind)).unwrap_or(name);
        if new != format!("{}{bare}", sigil(o.kind)) {
            return viol(format!("{what} inserts {new:?}"));
        }
        let g = st.model.group(&st.m, o);
        let clash = st.model.groups.keys().any(|k| k.2 == new);
        let uri = format!("file:///w/edited{ix}.hir");
        srv.open(&uri, 1, &text);
        let diags = srv.wait_diags(&uri, 1)?;
        if let Some(d) = diags.iter().find(|d| matches!(classify(d).0, DK::Syntax | DK::Extract)) {
            return viol(format!("{what} was accepted but breaks the document: {} at {}\n{text}", d["message"], rs(&d["range"])));
        }
        // shift of the symbol by the edits before it
        let dl = new.chars().count() as i64 - st.m.toks[o.tok].s.chars().count() as i64;
        let before = g.all().iter().filter(|t| **t < o.tok).count() as i64;
        let off = (st.d.span[o.tok].0 as i64 + dl * before) as usize;
        let map = crate::text::TextMap::new(&text);
        let p = map.pos(off);
        let q: Vec<i64> = ["definition", "declaration", "references", "prepareRename"]
            .iter()
            .map(|m| srv.pos_req(&format!("textDocument/{m}"), &uri, p))
            .collect();
        let prep = srv.result(q[3])?;
        let rr = if prep.get("range").is_some() { prep["range"].clone() } else { prep.clone() };
        if map.read(&rr).as_ref() != Some(&new) || map.span(&rr) != Some((off, off + new.chars().count())) {
            return viol(format!("{what} was accepted but the result is no identifier of its kind: {prep}\n{text}"));
        }
        if !clash {
            for (i, (m, exp)) in [("definition", g.defs.len()), ("declaration", g.decls.len()), ("references", g.uses.len())].iter().enumerate() {
                let l = locs(&srv.result(q[i])?)?;
                if l.len() != *exp {
                    return viol(format!("{what}: {} {m} places instead of {exp}\n{text}", l.len()));
                }
            }
        }
    }
    c.add("accepted", acc);
    c.add("rejected", rej);
    c.nontrivial = acc > 0 && rej > 0;
    Ok(())
}

fn c08(s: &mut Src, c: &mut Case) -> Res<()> {
    let cfg = Cfg {
        messy: s.chance(2, 3),
        unicode: s.chance(1, 5),
        numbered: true,
        big_numbers: s.chance(1, 8),
        irregular: s.chance(1, 6),
        w: [4, 3, 5, 1, 4, 0],
        ..Cfg::default()
    };
    let st = make(s, c, &cfg);
    let occs = sample_occs(s, &st.model.occs, 8);
    let mut plan = vec![];
    for o in &occs {
        let p = st.d.inside(s, o.tok);
        let nr = split_number(&st.m.toks[o.tok].s);
        let (text, shift) = match &nr {
            None => ("+1".to_string(), 1),
            Some((_, n)) => {
                if *n > 0 && s.chance(1, 2) {
                    let lim = (*n).min(1_000_000) as u64;
                    let k = if s.chance(1, 3) { lim } else { 1 + s.below(lim) };
                    (format!("-{k}"), -(k as i128))
                } else {
                    let k = match s.weighted(&[3, 2, 1, 1]) {
                        0 => 1,
                        1 => 1 + s.below(20),
                        2 => s.below(1_000_000),
                        _ => *s.pick(&[0, 9223372036854775807, 4294967296]),
                    };
                    (format!("+{k}"), k as i128)
                }
            }
        };
        c.note(format!("{text} on {}", describe_tok(&st, o.tok)));
        plan.push((o.clone(), p, text, shift, nr));
    }
    // expected text after a shift
    let expected = |o: &Occ, from: i128, shift: i128| -> (String, usize, usize) {
        let mut repl = BTreeMap::new();
        let (mut moved, mut kept) = (0, 0);
        for (k, g) in &st.model.groups {
            if k.0 != o.kind || (k.1 != o.scope) {
                continue;
            }
            if let Some((p, n)) = split_number(&k.2) {
                if n >= from && n <= i64::MAX as i128 {
                    moved += 1;
                    for t in g.all() {
                        repl.insert(t, format!("{p}{}", n + shift));
                    }
                } else {
                    kept += 1;
                }
            }
        }
        (replaced(&st, &repl), moved, kept)
    };
    let lazy_choice = s.weighted(&[3, 3, 1, 1]);
    let lazy = [None, Some((true, true)), Some((true, false)), Some((false, true))][lazy_choice];
    let is_lazy = lazy == Some((true, true));
    c.label(format!("client lazy={lazy:?}"));
    let mut srv = c.server(&InitOpts { lazy, ..Default::default() })?;
    let rp = &srv.init["capabilities"]["codeActionProvider"]["resolveProvider"];
    if is_lazy && *rp != json!(true) {
        return viol(format!("client supports lazy code actions, but resolveProvider is {rp}"));
    }
    srv.open(URI, 1, &st.d.text);
    let ids: Vec<[i64; 2]> = plan
        .iter()
        .map(|(_, p, t, _, _)| [srv.rename_req(URI, *p, t), srv.action_req(URI, *p, *p)])
        .collect();
    let free = non_symbol_offsets(&st);
    let nf = if free.is_empty() { 0 } else { 3 };
    let nosym: Vec<(u64, u64)> = (0..nf).map(|_| st.d.map.pos(*s.pick(&free))).collect();
    let nids: Vec<i64> = nosym.iter().map(|p| srv.action_req(URI, *p, *p)).collect();
    c.add("renumberings", 2 * ids.len() as u64);
    for ((o, p, text, shift, nr), id) in plan.iter().zip(ids) {
        let what = format!("`{text}` on {}", describe_tok(&st, o.tok));
        let r = srv.wait(id[0])?;
        let acts = as_arr(&srv.result(id[1])?);
        let Some((_, n)) = nr else {
            if r.get("error").is_none() && !edits_of(&r["result"], URI)?.is_empty() {
                return viol(format!("{what}, which is not numbered, gave edits {}", r["result"]));
            }
            if !acts.is_empty() {
                return viol(format!("code action offered at {}:{} on {}", p.0, p.1, describe_tok(&st, o.tok)));
            }
            continue;
        };
        if r.get("error").is_some() {
            return viol(format!("{what} failed: {}", r["error"]));
        }
        let (exp, moved, kept) = expected(o, *n, *shift);
        if moved >= 2 && kept >= 1 {
            c.nontrivial = true;
        }
        let es = edits_of(&r["result"], URI)?;
        match st.d.map.apply(&es) {
            Ok(t) if t == exp => {}
            Ok(t) => return viol(format!("{what} yields\n{t}\ninstead of\n{exp}")),
            Err(e) => return viol(format!("{what}: {e}")),
        }
        if acts.len() != 1 {
            return viol(format!("{} code actions at {}:{} on {}", acts.len(), p.0, p.1, describe_tok(&st, o.tok)));
        }
        let mut a = acts[0].clone();
        if a.get("edit").map_or(true, |e| e.is_null()) {
            if !is_lazy {
                return viol(format!("code action without edit although the client cannot resolve it: {a}"));
            }
            let id = srv.send_request("codeAction/resolve", a);
            a = srv.result(id)?;
        }
        let es = edits_of(&a["edit"], URI)?;
        let (exp, _, _) = expected(o, *n, 1);
        match st.d.map.apply(&es) {
            Ok(t) if t == exp => {}
            Ok(t) => return viol(format!("code action on {} yields\n{t}\ninstead of\n{exp}", describe_tok(&st, o.tok))),
            Err(e) => return viol(format!("code action on {}: {e}", describe_tok(&st, o.tok))),
        }
    }
    for (p, id) in nosym.iter().zip(nids) {
        let r = srv.result(id)?;
        if !as_arr(&r).is_empty() {
            return viol(format!("code action at {}:{} which is not on a symbol: {r}", p.0, p.1));
        }
    }
    Ok(())
}
