//! Robustness: arbitrary texts and message sequences.
use super::sync::{check_view, Text};
use super::*;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C01", f: c01, quick: 8000, thorough: 100000, known: &[], rule: "arbitrary texts (mutated modules, truncations, token and character soup, non-ASCII) and random message sequences with extreme positions, names, arguments, roots and stale follow-ups; non-trivial = non-empty text and at least 8 requests of at least 4 methods; distinct by texts and messages" }]
}

const CHARS: &[&str] = &[
    "\"", "#", "@", "%", "!", ":", "::", "\n", "\r\n", "\r", "\t", " ", "{", "}", "(", ")", "[", "]", ",", "=", "0x", "0", "9", "a", "define ", "declare ", "void ", "br ", "phi [", "switch ", "depends on ", "é", "变", "🦀", "𝒳",
    "\u{0}", "\u{feff}", "\u{301}", "\u{2028}", "\u{b}", "\u{85}", "$", "\\", "-", ";", "*", ".", "<", ">", "_", "label=", "cont=", "overflow=", "default=", "{\"backtrace\": [", "!1 = {\"backtrace\": [[\"a\",\"b:1\"]]}\n",
    "!f1 = \"a:0\"\n", "declare void @f() !f1\n", "define void @f() {\n", "%1", "@1", "!1", "bb_1:\n", "declare void @d() !9\n!9 = \"\"\n", "!9 = \":\"\n", "!9 = \"é\"\n", "!9 = \"a:\"\n", "!9 = \":1\"\n", "!9 = \"a:b:c\"\n",
    "!9 = \"a\"\n", "declare int32 @d(ptr %) = 0x1 !9\n", "!9 = \"::\"\n", "!9 = \"a:-1\"\n", "!9 =\n", "!1 = {\"backtrace\": [[], [[]], \"\", [\"\", \"\"], [null, \":\"]]}\n", "99999999999999999999", "9223372036854775807", "½", "٣", "%é1", "²",
];

pub fn wild_text(s: &mut Src, c: &mut Case) -> String {
    let mode = s.weighted(&[4, 2, 2, 2, 1]);
    let mut cfg = random_cfg(s);
    cfg.unicode = s.chance(1, 2);
    cfg.big_numbers = s.chance(1, 4);
    cfg.irregular = s.chance(1, 2);
    match mode {
        0 | 1 => {
            if s.chance(1, 2) {
                cfg.w = [3, 3, 4, 1, 3, 4];
            }
            let m = module(s, &cfg);
            let mut lc = LCfg::random(s, cfg.unicode);
            lc.illegal = s.chance(1, 3);
            let mut t: Vec<char> = layout(s, &m, &lc).text.chars().collect();
            if mode == 1 {
                c.label("truncated");
                let n = s.idx(t.len() + 1);
                t.truncate(n);
            } else {
                c.label("mutated");
            }
            let mut n = 0;
            while s.more(n, 8, 2) {
                n += 1;
                let i = s.idx(t.len() + 1);
                match s.weighted(&[3, 3, 2, 1]) {
                    0 => {
                        for (k, ch) in s.pick(CHARS).chars().enumerate() {
                            t.insert(i + k, ch);
                        }
                    }
                    1 => {
                        let j = (i + 1 + s.idx(6)).min(t.len());
                        if i < j {
                            t.drain(i..j);
                        }
                    }
                    2 => {
                        let j = (i + 1 + s.idx(30)).min(t.len());
                        if i < j {
                            let part: Vec<char> = t[i..j].to_vec();
                            let k = s.idx(t.len() + 1);
                            for (o, ch) in part.into_iter().enumerate() {
                                t.insert(k + o, ch);
                            }
                        }
                    }
                    _ => {
                        if i < t.len() {
                            t[i] = char::from_u32(s.below(0x250) as u32).unwrap_or('?');
                        }
                    }
                }
            }
            t.into_iter().collect()
        }
        2 => {
            c.label("token soup");
            let m = token_soup(s, &cfg, 60);
            let mut lc = LCfg::random(s, cfg.unicode);
            lc.illegal = s.chance(1, 2);
            layout(s, &m, &lc).text
        }
        3 => {
            c.label("fragment soup");
            let mut t = String::new();
            let mut n = 0;
            while s.more(n, 60, 15) {
                n += 1;
                t.push_str(s.pick(CHARS));
            }
            t
        }
        _ => {
            c.label("characters");
            let mut t = String::new();
            let mut n = 0;
            while s.more(n, 60, 15) {
                n += 1;
                let v = match s.idx(3) {
                    0 => s.below(128),
                    1 => s.below(0x3000),
                    _ => s.below(0x110000),
                };
                t.push(char::from_u32(v as u32).unwrap_or('x'));
            }
            t
        }
    }
}

const NAMES: &[&str] = &[
    "", "a", "@", "%", "!", "@@", "%%x", "@a", "%b", "!c", "x:", ":x", "::", ":", "1", "1a", "_", "define", "int32", "pure", "a b", "a\nb", "é", "@é", "½", "٣", "+1", "-1", "+", "-", "+0", "-0", "+-1", "--1",
    "++1", "+9223372036854775807", "-9223372036854775807", "-9223372036854775808", "--9223372036854775808", "+-9223372036854775808", "+99999999999999999999", "+é", "-½", "+1.5", "+ 1", "🦀", "\u{0}", "\"", "#", "+4611686018427387904", "-9000000000000000000",
];

fn wild_pos(s: &mut Src, map: &crate::text::TextMap) -> (u64, u64) {
    match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => map.pos(s.idx(map.chars.len() + 1)),
        1 => {
            let l = s.idx(map.line_count());
            let e = map.pos(map.line_end(l));
            (e.0, e.1 + s.below(4))
        }
        2 => (s.below(map.line_count() as u64 + 3), s.below(200)),
        3 => (*s.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, i32::MAX as u64]), s.below(3)),
        _ => (s.below(3), *s.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, i32::MAX as u64])),
    }
}

fn c01(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut opts = InitOpts::default();
    if s.chance(1, 3) {
        let all = [
            "file:///w", "file:///", "file:///w/", "untitled:Untitled-1", "mailto:a@b", "http://x/y", "vscode-remote://ssh/w", "file://host/share", "data:text/plain,x", "file:///%FF", "urn:a:b",
        ];
        if s.chance(1, 3) {
            opts.root_uri = Some(s.pick(&all).to_string());
        } else {
            opts.folders = Some((0..s.idx(4)).map(|_| s.pick(&all).to_string()).collect());
        }
        c.note(format!("roots {:?} {:?}", opts.folders, opts.root_uri));
    }
    if s.chance(1, 2) {
        opts.lazy = Some((s.chance(2, 3), s.chance(2, 3)));
    }
    if s.chance(1, 4) {
        opts.log = Some("debug");
        c.note("RUST_LOG=debug");
    }
    let ntexts = 1 + s.idx(3);
    let texts: Vec<String> = (0..ntexts).map(|_| wild_text(s, c)).collect();
    let maps: Vec<crate::text::TextMap> = texts.iter().map(|t| crate::text::TextMap::new(t)).collect();
    for t in &texts {
        c.doc(t);
    }
    let mut srv = c.server(&opts)?;
    let uris = ["file:///w/doc.hir", "untitled:x", "file:///w/never.hir"];
    let mut cur = [0usize; 3];
    let mut ver = [1i64; 3];
    let mut ids: Vec<i64> = vec![];
    let mut methods = std::collections::BTreeSet::new();
    srv.open(uris[0], 1, &texts[0]);
    if s.chance(1, 2) {
        cur[1] = s.idx(ntexts);
        srv.open(uris[1], 1, &texts[cur[1]]);
    }
    let nops = 8 + s.idx(25);
    let mut resolvable: Vec<Value> = vec![];
    let mut hist: Vec<String> = vec![];
    for _ in 0..nops {
        let di = s.weighted(&[8, 2, 1]);
        let uri = uris[di];
        let doc = json!({"uri": uri});
        let map = &maps[cur[di]];
        let p = wild_pos(s, map);
        let pos = json!({"line": p.0, "character": p.1});
        let tp = json!({"textDocument": doc, "position": pos});
        let k = s.idx(20);
        let (m, params): (&str, Value) = match k {
            0 => ("textDocument/definition", tp),
            1 => ("textDocument/declaration", tp),
            2 => ("textDocument/references", {
                let mut tp = tp;
                tp["context"] = json!({"includeDeclaration": s.chance(1, 2)});
                tp
            }),
            3 => ("textDocument/prepareRename", tp),
            4 | 5 | 6 => ("textDocument/rename", {
                let mut tp = tp;
                tp["newName"] = json!(s.pick(NAMES));
                tp
            }),
            7 | 8 => {
                let q = if s.chance(3, 4) { p } else { wild_pos(s, map) };
                (
                    "textDocument/codeAction",
                    json!({"textDocument": doc, "range": {"start": pos, "end": {"line": q.0, "character": q.1}}, "context": {"diagnostics": []}}),
                )
            }
            9 | 10 => {
                let action = if !resolvable.is_empty() && s.chance(1, 2) {
                    s.pick(&resolvable).clone()
                } else {
                    let kind = *s.pick(&["GlobalVar", "Function", "DbgAnnotation", "Label", "LocalVar", "Nonsense"]);
                    let body: Value = match s.idx(5) {
                        0 => json!(0),
                        1 => Value::Null,
                        2 => json!(1 + s.below(5)),
                        3 => json!(u64::MAX),
                        _ => json!(-1),
                    };
                    let nr: Value = match s.idx(5) {
                        0 => json!(1),
                        1 => json!(i64::MIN),
                        2 => json!(i64::MAX),
                        3 => json!(-3),
                        _ => json!(0),
                    };
                    let data = match s.idx(4) {
                        0 => Value::Null,
                        1 => json!({"x": 1}),
                        _ => json!({"shiftNumbering": {"uri": uri, "symbol_kind": kind, "func_body_id": body, "renamed_nr": nr}}),
                    };
                    json!({"title": "x", "data": data})
                };
                ("codeAction/resolve", action)
            }
            11 => ("textDocument/documentSymbol", json!({"textDocument": doc})),
            12 => ("textDocument/foldingRange", json!({"textDocument": doc})),
            13 => ("textDocument/semanticTokens/full", json!({"textDocument": doc})),
            14 => ("textDocument/codeLens", json!({"textDocument": doc})),
            15 => {
                let q = wild_pos(s, map);
                ("textDocument/inlayHint", json!({"textDocument": doc, "range": {"start": pos, "end": {"line": q.0, "character": q.1}}}))
            }
            16 => {
                let args = match s.idx(6) {
                    0 => json!([]),
                    1 => json!([uri]),
                    2 => json!([uri, 3]),
                    3 => json!([null, "@f"]),
                    4 => json!([uri, "@f", "@g"]),
                    _ => json!([uri, s.pick(&["@f", "", "@", "f"])]),
                };
                let cmd = *s.pick(&["visualize-cfg", "visualize-cfg", "other", ""]);
                ("workspace/executeCommand", json!({"command": cmd, "arguments": args}))
            }
            17 => (*s.pick(&["textDocument/hover", "textDocument/completion", "textDocument/formatting", "workspace/symbol", "x/y"]), tp),
            18 => {
                if di == 2 {
                    continue;
                }
                let ti = s.idx(ntexts);
                ver[di] += 1;
                cur[di] = ti;
                let t = json!({"text": texts[ti]});
                let ch = match s.weighted(&[6, 1, 1]) {
                    0 => json!([t]),
                    1 => json!([]),
                    _ => json!([{"text": "x"}, t]),
                };
                srv.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": ver[di]}, "contentChanges": ch}));
                hist.push(format!("didChange {uri} ({} changes)", ch.as_array().unwrap().len()));
                continue;
            }
            _ => {
                match s.idx(5) {
                    0 => srv.notify("textDocument/didSave", json!({"textDocument": doc})),
                    1 => srv.notify("textDocument/didClose", json!({"textDocument": doc})),
                    2 => srv.notify("workspace/didChangeConfiguration", json!({"settings": {}})),
                    3 => srv.notify("$/cancelRequest", json!({"id": ids.last().copied().unwrap_or(1)})),
                    _ => {
                        ver[di] += 1;
                        cur[di] = s.idx(ntexts);
                        if di != 2 {
                            srv.open(uri, ver[di], &texts[cur[di]]);
                        }
                    }
                }
                hist.push("notification".into());
                continue;
            }
        };
        hist.push(format!("{m} {}", params));
        methods.insert(m.to_string());
        let id = srv.send_request(m, params);
        ids.push(id);
        if s.chance(1, 3) || m == "textDocument/codeAction" {
            let r = srv.wait(id)?;
            if m == "textDocument/codeAction" {
                resolvable.extend(as_arr(&r["result"]));
            }
        }
    }
    c.nontrivial = texts.iter().any(|t| !t.is_empty()) && ids.len() >= 8 && methods.len() >= 4;
    c.note(hist.join(" | ").chars().take(1500).collect::<String>());
    c.add("requests", ids.len() as u64);
    for id in ids {
        let r = srv.wait(id)?;
        if r.get("error").is_none() && r.get("result").is_none() {
            return viol(format!("`{}` was answered with neither result nor error: {r}", srv.methods[&id]));
        }
    }
    // the server still works
    let cfg = Cfg { max_stmts: 4, avg_stmts: 3, ..Cfg::default() };
    let m = module(s, &cfg);
    let lc = LCfg::random(s, false);
    let d = layout(s, &m, &lc);
    srv.open("file:///w/fresh.hir", 1, &d.text);
    srv.wait_diags("file:///w/fresh.hir", 1)?;
    check_view(s, &mut srv, "file:///w/fresh.hir", &Text { m, d })
}
