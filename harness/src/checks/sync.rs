//! Histories: document synchronisation and concurrency with the client.
use super::*;
use std::collections::HashMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C20", f: c20, quick: 1500, thorough: 12000, known: &[], rule: "random history of opening and changing two or three documents with pipelined queries, compared with fresh servers; non-trivial = at least two changes, two documents and three queries between changes; distinct by history" },
        Check { id: "C21", f: c21, quick: 2500, thorough: 15000, known: &[], rule: "random history with one to three unanswered display requests, changes and queries in between and answers in random order; non-trivial = at least one change and one query of the displayed document while a request was unanswered; distinct by history" },
    ]
}

/// Canonical form without the order of result lists and of the alternatives in syntax messages
pub fn canon(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(canon).collect();
            if a.iter().all(|x| x.is_object()) {
                a.sort_by_key(|x| x.to_string());
            }
            Value::Array(a)
        }
        Value::Object(o) => {
            let mut m = serde_json::Map::new();
            for (k, x) in o {
                let mut x = canon(x);
                if k == "message" {
                    if let Some(t) = x.as_str() {
                        if t.starts_with("Unexpected") {
                            let mut ch: Vec<char> = t.chars().collect();
                            ch.sort();
                            x = json!(ch.into_iter().collect::<String>());
                        }
                    }
                }
                m.insert(k.clone(), x);
            }
            Value::Object(m)
        }
        Value::String(t) if t.contains("digraph") => {
            let mut l: Vec<&str> = t.lines().collect();
            l.sort();
            json!(l.join("\n"))
        }
        o => o.clone(),
    }
}

/// Queries: (method, parameters)
type Q = (String, Value);

pub fn queries(s: &mut Src, uri: &str, d: &Doc, m: &Module, n: usize) -> Vec<Q> {
    let doc = json!({"uri": uri});
    let mut out: Vec<Q> = vec![];
    for _ in 0..n {
        let tok = if m.toks.is_empty() { None } else { Some(s.idx(m.toks.len())) };
        let p = match tok {
            Some(t) if s.chance(7, 8) => d.inside(s, t),
            _ => (s.below(40), s.below(40)),
        };
        let pos = json!({"line": p.0, "character": p.1});
        let tp = json!({"textDocument": doc, "position": pos});
        out.push(match s.idx(13) {
            0 => ("textDocument/documentSymbol".into(), json!({"textDocument": doc})),
            1 => ("textDocument/codeLens".into(), json!({"textDocument": doc})),
            2 => ("textDocument/foldingRange".into(), json!({"textDocument": doc})),
            3 => ("textDocument/semanticTokens/full".into(), json!({"textDocument": doc})),
            4 => (
                "textDocument/inlayHint".into(),
                json!({"textDocument": doc, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 10000, "character": 0}}}),
            ),
            5 | 6 => ("textDocument/definition".into(), tp),
            7 => ("textDocument/declaration".into(), tp),
            8 => {
                let mut tp = tp;
                tp["context"] = json!({"includeDeclaration": false});
                ("textDocument/references".into(), tp)
            }
            9 => ("textDocument/prepareRename".into(), tp),
            10 => {
                let mut tp = tp;
                tp["newName"] = json!("renamed_1");
                ("textDocument/rename".into(), tp)
            }
            11 => (
                "textDocument/codeAction".into(),
                json!({"textDocument": doc, "range": {"start": pos, "end": pos}, "context": {"diagnostics": []}}),
            ),
            _ => {
                let mut tp = tp;
                tp["newName"] = json!("+1");
                ("textDocument/rename".into(), tp)
            }
        });
    }
    out
}

/// Everything that is observable about a whole document
pub fn full_queries(uri: &str, d: &Doc, m: &Module) -> Vec<Q> {
    let doc = json!({"uri": uri});
    let mut out: Vec<Q> = vec![];
    for x in ["documentSymbol", "codeLens", "foldingRange", "semanticTokens/full"] {
        out.push((format!("textDocument/{x}"), json!({"textDocument": doc})));
    }
    out.push((
        "textDocument/inlayHint".into(),
        json!({"textDocument": doc, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 10000, "character": 0}}}),
    ));
    for (i, t) in m.toks.iter().enumerate() {
        if matches!(t.k, TK::Local | TK::Global | TK::Dbg | TK::Ident) {
            let p = d.pos(i);
            let pos = json!({"line": p.0, "character": p.1});
            for x in ["definition", "declaration", "references", "prepareRename"] {
                let mut q = json!({"textDocument": doc, "position": pos});
                if x == "references" {
                    q["context"] = json!({"includeDeclaration": false});
                }
                out.push((format!("textDocument/{x}"), q));
            }
        }
    }
    out
}

pub fn answer_of(r: &Value) -> Value {
    if r.get("error").is_some() {
        json!("error")
    } else {
        canon(&r["result"])
    }
}

pub struct Text {
    pub m: Module,
    pub d: Doc,
}

pub fn random_text(s: &mut Src) -> Text {
    let mut cfg = random_cfg(s);
    cfg.max_stmts = 5;
    cfg.avg_stmts = 3;
    cfg.irregular = s.chance(1, 4);
    if s.chance(1, 4) {
        cfg.w = [3, 3, 4, 1, 3, 3];
    }
    let lc = LCfg::random(s, cfg.unicode);
    let m = if s.chance(1, 10) { token_soup(s, &cfg, 30) } else { module(s, &cfg) };
    let d = layout(s, &m, &lc);
    Text { m, d }
}

/// Fresh servers which were only told about one text.
struct Fresh {
    servers: HashMap<usize, Server>,
}
impl Fresh {
    fn get(&mut self, c: &mut Case, ix: usize, t: &Text) -> Res<&mut Server> {
        if !self.servers.contains_key(&ix) {
            // the fresh servers are not part of the transcript
            let mut srv = Server::start(&c.bin, &InitOpts::default(), Default::default())?;
            srv.open(FRESH, 1, &t.d.text);
            self.servers.insert(ix, srv);
        }
        Ok(self.servers.get_mut(&ix).unwrap())
    }
}
const FRESH: &str = "file:///w/fresh.hir";

/// The same for another document.
fn moved(v: &Value, from: &str, to: &str) -> Value {
    let st = |t: &str| if t == from { to.to_string() } else { t.to_string() };
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| moved(x, from, to)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (st(k), moved(x, from, to))).collect()),
        Value::String(t) => Value::String(st(t)),
        x => x.clone(),
    }
}

/// The text with one name, number or keyword replaced by another one of it, and the same layout.
fn variant(s: &mut Src, t: &Text, lseed: u64, lc: &LCfg) -> Text {
    let mut m = t.m.clone();
    let words: Vec<usize> = (0..m.toks.len()).filter(|i| matches!(m.toks[*i].k, TK::Local | TK::Global | TK::Dbg | TK::Ident | TK::Num)).collect();
    if !words.is_empty() {
        let i = *s.pick(&words);
        let same: Vec<usize> = words.iter().copied().filter(|j| m.toks[*j].k == m.toks[i].k).collect();
        let j = *s.pick(&same);
        m.toks[i].s = m.toks[j].s.clone();
    }
    let d = layout(&mut Src::random(lseed), &m, lc);
    Text { m, d }
}

fn c20(s: &mut Src, c: &mut Case) -> Res<()> {
    let ndocs = 2 + s.idx(2);
    let ntexts = 2 + s.idx(4);
    let mut texts: Vec<Text> = vec![];
    let lseed = s.below(1 << 30);
    let lc = LCfg::random(s, true);
    while texts.len() < ntexts {
        if s.chance(1, 3) && !texts.is_empty() {
            let i = s.idx(texts.len());
            let t = variant(s, &texts[i], lseed, &lc);
            texts.push(t);
        } else {
            let t = random_text(s);
            let d = layout(&mut Src::random(lseed), &t.m, &lc);
            texts.push(Text { m: t.m, d: if s.chance(1, 2) { d } else { t.d } });
        }
    }
    let uris: Vec<String> = (0..ndocs)
        .map(|i| match (i, s.idx(5)) {
            (0, 0) => "git:/w/doc.hir?ref=a%20b",
            (0, _) => "file:///w/doc.hir",
            (1, 0) => "file:///w/doc2.hir",
            (1, 1) => "file:///w/Doc.hir",
            (1, 2) => "file:///w/doc.hir?2",
            (1, 3) => "file:///w/x/doc.hir#L1",
            (1, _) => "untitled:Untitled-1",
            (_, 0) => "file:///w/x/doc.hir",
            (_, 1) => "file://host/w/doc.hir",
            (_, 2) => "vscode-vfs://github/w/doc.hir",
            (_, 3) => "file:///w/doc.hir#L1",
            _ => "file:///w/d%C3%A9j%C3%A0%20vu.hir",
        }.to_string())
        .collect();
    let mut cur: Vec<Option<(usize, i64)>> = vec![None; ndocs];
    // documents that were closed: what is answered about them is not determined until they are opened again
    let mut closed = vec![false; ndocs];
    // the version of the last change without contents, which need not be published
    let mut empty: Vec<Option<i64>> = vec![None; ndocs];
    let mut srv = c.server(&InitOpts::default())?;
    let mut fresh = Fresh { servers: HashMap::new() };
    // (what, request id, method, params, text index or none)
    let mut open: Vec<(i64, String, Value, Option<(usize, usize)>)> = vec![];
    let mut waiting: Vec<i64> = vec![];
    let (mut changes, mut nq, mut hist) = (0, 0, vec![]);
    let nops = 4 + s.idx(12);
    for _ in 0..nops {
        let di = s.idx(ndocs);
        match s.weighted(&[10, 10, 2, 2, 2]) {
            0 => {
                let ti = s.idx(ntexts);
                match cur[di] {
                    None => {
                        let v = s.range(0, 3) as i64;
                        srv.open(&uris[di], v, &texts[ti].d.text);
                        cur[di] = Some((ti, v));
                        closed[di] = false;
                        hist.push(format!("open {di} with text {ti} as version {v}"));
                    }
                    Some((old, v)) => {
                        let v = empty[di].unwrap_or(v) + 1 + s.below(2) as i64;
                        let t = json!({"text": texts[ti].d.text});
                        let ch = match s.weighted(&[10, 2, 1]) {
                            0 => vec![t],
                            1 => {
                                let mut ch = vec![];
                                for _ in 0..1 + s.idx(3) {
                                    ch.push(json!({"text": texts[s.idx(ntexts)].d.text}));
                                }
                                ch.push(t);
                                ch
                            }
                            _ => vec![],
                        };
                        let n = ch.len();
                        srv.notify("textDocument/didChange", json!({"textDocument": {"uri": uris[di], "version": v}, "contentChanges": ch}));
                        if n == 0 {
                            empty[di] = Some(v);
                            hist.push(format!("change of {di} (text {old}) without contents"));
                        } else {
                            cur[di] = Some((ti, v));
                            empty[di] = None;
                            changes += 1;
                            hist.push(format!("{n} change(s) of {di} ending with text {ti} as version {v}"));
                        }
                    }
                }
            }
            4 => {
                // closing a document ends its versions; it might be opened again later on
                let Some((_, v)) = cur[di] else { continue };
                if s.chance(1, 2) {
                    srv.notify("textDocument/didSave", json!({"textDocument": {"uri": uris[di]}}));
                    hist.push(format!("save {di}"));
                    continue;
                }
                srv.wait_diags(&uris[di], v)?;
                srv.notify("textDocument/didClose", json!({"textDocument": {"uri": uris[di]}}));
                srv.diags.retain(|d| d["uri"] != uris[di][..]);
                cur[di] = None;
                closed[di] = true;
                empty[di] = None;
                hist.push(format!("close {di}"));
                if s.chance(2, 3) {
                    let ti = s.idx(ntexts);
                    let v = s.range(0, 3) as i64;
                    srv.open(&uris[di], v, &texts[ti].d.text);
                    cur[di] = Some((ti, v));
                    closed[di] = false;
                    hist.push(format!("open {di} again with text {ti} as version {v}"));
                }
            }
            1 => {
                let ti = cur[di].map(|x| x.0).unwrap_or(0);
                let n = 1 + s.idx(6);
                for (m, p) in queries(s, &uris[di], &texts[ti].d, &texts[ti].m, n) {
                    let id = srv.send_request(&m, p.clone());
                    nq += 1;
                    if closed[di] {
                        waiting.push(id);
                    } else {
                        open.push((id, m, p, cur[di].map(|x| (di, x.0))));
                    }
                }
                hist.push(format!("{n} queries of {di}"));
            }
            2 => {
                // wait until everything so far is answered
                for (id, ..) in &open {
                    srv.wait(*id)?;
                }
                hist.push("wait".into());
            }
            _ => {
                if let Some((_, v)) = cur[di] {
                    srv.wait_diags(&uris[di], v)?;
                    hist.push(format!("wait for diagnostics of {di}"));
                }
            }
        }
    }
    c.note(hist.join("; "));
    for t in &texts {
        c.doc(&t.d.text);
    }
    c.nontrivial = changes >= 2 && nq >= 3 && cur.iter().filter(|x| x.is_some()).count() >= 2;
    c.add("changes", changes);
    c.add("pipelined queries", nq);
    for id in waiting {
        srv.wait(id)?;
    }
    for (id, m, p, t) in open {
        let got = answer_of(&srv.wait(id)?);
        match t {
            None => {
                if !(got.is_null() || got == "error") {
                    return viol(format!("{m} of a document that was not opened yields {got}"));
                }
            }
            Some((di, ti)) => {
                let f = fresh.get(c, ti, &texts[ti])?;
                let id = f.send_request(&m, moved(&p, &uris[di], FRESH));
                let want = answer_of(&moved(&f.wait(id)?, FRESH, &uris[di]));
                if got != want {
                    return viol(format!("{m} {p} after the history: {got}, fresh server: {want}"));
                }
            }
        }
    }
    // final state
    for di in 0..ndocs {
        let Some((ti, v)) = cur[di] else { continue };
        let t = &texts[ti];
        let ids: Vec<(i64, Q)> = full_queries(&uris[di], &t.d, &t.m)
            .into_iter()
            .map(|q| (srv.send_request(&q.0, q.1.clone()), q))
            .collect();
        let f = fresh.get(c, ti, t)?;
        let fids: Vec<i64> = ids.iter().map(|(_, q)| f.send_request(&q.0, moved(&q.1, &uris[di], FRESH))).collect();
        for ((id, q), fid) in ids.iter().zip(fids) {
            let got = answer_of(&srv.wait(*id)?);
            let want = answer_of(&moved(&f.wait(fid)?, FRESH, &uris[di]));
            if got != want {
                return viol(format!("{} {} at the end of the history: {got}, fresh server: {want}", q.0, q.1));
            }
        }
        c.add("final queries", ids.len() as u64);
        for fu in t.m.funcs.iter().take(2) {
            let args = json!({"command": "visualize-cfg", "arguments": [uris[di], t.m.toks[fu.name].s]});
            srv.shown.clear();
            f.shown.clear();
            let a = srv.send_request("workspace/executeCommand", args.clone());
            let b = f.send_request("workspace/executeCommand", moved(&args, &uris[di], FRESH));
            let (a, b) = (answer_of(&srv.wait(a)?), answer_of(&f.wait(b)?));
            if a != b || canon(&json!(srv.shown)) != canon(&json!(f.shown)) {
                return viol(format!("control flow graph of {}: {:?}, fresh server: {:?}", t.m.toks[fu.name].s, srv.shown, f.shown));
            }
        }
        let got = srv.wait_diags(&uris[di], v)?;
        let want = moved(&json!(f.wait_diags(FRESH, 1)?), FRESH, &uris[di]);
        if canon(&json!(got)) != canon(&want) {
            return viol(format!("diagnostics of version {v} are {got:?}, fresh server: {want:?}"));
        }
        let last = srv.diags.iter().rev().find(|d| d["uri"] == uris[di][..]).unwrap();
        if last["version"] != v && empty[di].map_or(true, |e| last["version"] != e) {
            return viol(format!("the last published diagnostics of {} are of version {}, expected {v}", uris[di], last["version"]));
        }
        let vs: Vec<i64> = srv.diags.iter().filter(|d| d["uri"] == uris[di][..]).map(|d| d["version"].as_i64().unwrap_or(-1)).collect();
        if vs.windows(2).any(|w| w[0] > w[1]) {
            return viol(format!("diagnostics of {} were published in the order {vs:?}", uris[di]));
        }
    }
    Ok(())
}

fn c21(s: &mut Src, c: &mut Case) -> Res<()> {
    // two texts with at least one function
    let mut texts = vec![];
    for i in 0..2 + s.idx(2) {
        let cfg = Cfg { messy: s.chance(1, 3), w: [2, 1, 6, 0, 1, 0], max_stmts: 5, avg_stmts: 3, dup_funcs: false, ..Cfg::default() };
        let mut m = module(s, &cfg);
        if m.funcs.is_empty() {
            let cfg = Cfg { w: [0, 0, 1, 0, 0, 0], max_stmts: 1, avg_stmts: 1000, ..Cfg::default() };
            m = module(s, &cfg);
        }
        let lc = LCfg::random(s, false);
        let d = layout(s, &m, &lc);
        c.doc(&d.text);
        let _ = i;
        texts.push(Text { m, d });
    }
    let uris = ["file:///w/doc.hir", "file:///w/other.hir"];
    let mut cur = [(0usize, 1i64), (1usize, 1i64)];
    let mut srv = c.server(&InitOpts::default())?;
    srv.auto_answer = false;
    for i in 0..2 {
        srv.open(uris[i], 1, &texts[cur[i].0].d.text);
    }
    srv.wait_diags(uris[0], 1)?;
    srv.wait_diags(uris[1], 1)?;
    // the "initialized" handler and others may not send requests we know of
    let mut waiting: Vec<(i64, Value, usize, String)> = vec![]; // command id, request of the server, document, function
    let mut finished: Vec<(i64, bool, String)> = vec![];
    let mut hist = vec![];
    let (mut touched, mut asked) = (false, false);
    let nops = 3 + s.idx(9);
    // now and then the user takes his time
    let slow = s.chance(1, 500);
    for op in 0..nops {
        if op == 1 && slow {
            let secs = *s.pick(&[3u64, 12, 35]);
            std::thread::sleep(std::time::Duration::from_secs(secs));
            hist.push(format!("{secs} s pass"));
            check_view(s, &mut srv, uris[0], &texts[cur[0].0])?;
            c.add("slow clients", 1);
        }
        let di = s.weighted(&[3, 1]);
        let k = if op == 0 { 0 } else { s.weighted(&[3, 4, 4, 3]) };
        match k {
            0 => {
                if waiting.len() >= 3 || texts[cur[di].0].m.funcs.is_empty() {
                    continue;
                }
                let t = &texts[cur[di].0];
                let f = &t.m.funcs[s.idx(t.m.funcs.len())];
                let name = t.m.toks[f.name].s.clone();
                let before = srv.pending.len();
                let id = srv.send_request("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uris[di], name]}));
                srv.pump("hyperir/showDot", |x| x.pending.len() > before || x.responses.contains_key(&id))?;
                if srv.pending.len() == before {
                    return viol(format!("the command was answered without displaying a graph: {}", srv.responses[&id]));
                }
                let req = srv.pending.pop().unwrap();
                match super::structure::parse_dot(req["params"]["dotGraph"].as_str().unwrap_or("")) {
                    Ok((e, _)) if e == super::structure::cfg_edges(&t.m, f) => {}
                    o => return viol(format!("graph of {name}: {o:?}")),
                }
                hist.push(format!("display {name} of {di}"));
                waiting.push((id, req, di, name));
            }
            1 => {
                let ti = s.idx(texts.len());
                let v = cur[di].1 + 1;
                srv.change(uris[di], v, &texts[ti].d.text);
                cur[di] = (ti, v);
                if waiting.iter().any(|w| w.2 == di) {
                    touched = true;
                }
                hist.push(format!("change {di} to text {ti}"));
                if s.chance(1, 2) {
                    srv.wait_diags(uris[di], v)?;
                }
            }
            2 => {
                if waiting.iter().any(|w| w.2 == di) {
                    asked = true;
                }
                check_view(s, &mut srv, uris[di], &texts[cur[di].0])?;
                hist.push(format!("query {di}"));
            }
            _ => {
                if waiting.is_empty() {
                    continue;
                }
                let i = s.idx(waiting.len());
                let (id, req, _, name) = waiting.remove(i);
                if srv.responses.contains_key(&id) {
                    return viol(format!("the command for {name} was answered before the client handled the request: {}", srv.responses[&id]));
                }
                let ok = s.chance(2, 3);
                srv.answer(&req, ok);
                hist.push(format!("client answers {name} with {}", if ok { "success" } else { "an error" }));
                if s.chance(1, 2) {
                    finish(&mut srv, id, ok, &name)?;
                } else {
                    finished.push((id, ok, name));
                }
            }
        }
    }
    for (id, req, _, name) in waiting {
        if srv.responses.contains_key(&id) {
            return viol(format!("the command for {name} was answered before the client handled the request: {}", srv.responses[&id]));
        }
        let ok = s.chance(2, 3);
        srv.answer(&req, ok);
        finished.push((id, ok, name));
    }
    for (id, ok, name) in finished {
        finish(&mut srv, id, ok, &name)?;
    }
    for i in 0..2 {
        srv.wait_diags(uris[i], cur[i].1)?;
        check_view(s, &mut srv, uris[i], &texts[cur[i].0])?;
    }
    c.nontrivial = touched && asked;
    c.note(hist.join("; "));
    Ok(())
}

fn finish(srv: &mut Server, id: i64, ok: bool, name: &str) -> Res<()> {
    let r = srv.wait(id)?;
    if r.get("error").is_none() != ok {
        return viol(format!("the client answered the display of {name} with {}, the command with {r}", if ok { "success" } else { "an error" }));
    }
    Ok(())
}

/// Compares some answers with the model of the text.
pub fn check_view(s: &mut Src, srv: &mut Server, uri: &str, t: &Text) -> Res<()> {
    let model = Model::new(&t.m);
    let sym = srv.doc_req("textDocument/documentSymbol", uri);
    let occs = sample_occs(s, &model.occs, 5);
    let ids: Vec<i64> = occs.iter().map(|o| srv.pos_req("textDocument/definition", uri, t.d.pos(o.tok))).collect();
    let rids: Vec<i64> = occs.iter().map(|o| srv.pos_req("textDocument/references", uri, t.d.pos(o.tok))).collect();
    let mut got: Vec<String> = as_arr(&srv.result(sym)?).iter().map(|y| rs(&y["selectionRange"])).collect();
    got.sort();
    let mut exp: Vec<String> = (0..t.m.toks.len())
        .filter(|i| t.m.toks[*i].k == TK::Global && t.m.toks[*i].r == R::Def && !t.m.toks[*i].bad)
        .map(|i| rs(&t.d.range(i)))
        .collect();
    exp.sort();
    if got != exp {
        return viol(format!("outline of {uri} is {got:?}, expected {exp:?} for its latest text"));
    }
    for ((o, id), rid) in occs.iter().zip(ids).zip(rids) {
        let g = model.group(&t.m, o);
        for (id, what, e) in [(id, "definition", &g.defs), (rid, "references", &g.uses)] {
            let got = locs(&srv.result(id)?)?;
            let exp = expect_locs(&t.d, uri, e);
            if got != exp {
                return viol(format!("{what} of `{}` in {uri}: {got:?}, expected {exp:?} for its latest text", t.m.toks[o.tok].s));
            }
        }
    }
    Ok(())
}
