//! The session: initialization, announced capabilities, orderly end.
use super::sync::*;
use super::*;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C27", f: c27, quick: 3000, thorough: 30000, known: &[], rule: "one session: requests before the initialization, initialize with generated client capabilities, roots and options, a generated document, all announced features, unknown methods, repeated initialize, cancellations, shutdown, requests afterwards, end of input; non-trivial = capabilities that mention code actions or position encodings and a document with symbols; distinct by document and messages" }]
}

fn flag(s: &mut Src, o: &mut Value, name: &str) {
    match s.idx(3) {
        0 => {}
        1 => o[name] = json!(false),
        _ => o[name] = json!(true),
    }
}

/// Valid client capabilities; tells whether the client can resolve edits lazily.
fn capabilities(s: &mut Src) -> (Value, bool) {
    let mut caps = json!({});
    let mut lazy = false;
    if s.chance(5, 6) {
        let mut td = json!({});
        if s.chance(5, 6) {
            let mut ca = json!({});
            let data = match s.idx(4) {
                0 => None,
                1 => Some(false),
                _ => Some(true),
            };
            if let Some(d) = data {
                ca["dataSupport"] = json!(d);
            }
            let res = s.idx(5) > 0;
            let mut edit = false;
            if res {
                let mut props: Vec<&str> = vec![];
                while s.more(props.len(), 4, 1) {
                    props.push(*s.pick(&["command", "edit", "disabled", "data", "edits", "Edit", "edit.changes", ""]));
                }
                edit = props.contains(&"edit");
                ca["resolveSupport"] = json!({"properties": props});
            }
            lazy = edit && data == Some(true);
            for f in ["dynamicRegistration", "isPreferredSupport", "disabledSupport", "honorsChangeAnnotations"] {
                flag(s, &mut ca, f);
            }
            if s.chance(1, 2) {
                ca["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": ["", "quickfix", "refactor"]}});
            }
            td["codeAction"] = ca;
        }
        for f in ["definition", "declaration", "references", "documentSymbol", "rename", "foldingRange", "inlayHint", "codeLens", "publishDiagnostics", "synchronization"] {
            if s.chance(1, 3) {
                let mut o = json!({});
                flag(s, &mut o, "dynamicRegistration");
                for g in match f {
                    "definition" | "declaration" => &["linkSupport"][..],
                    "documentSymbol" => &["hierarchicalDocumentSymbolSupport"],
                    "rename" => &["prepareSupport"],
                    "publishDiagnostics" => &["relatedInformation", "versionSupport"],
                    _ => &[],
                } {
                    flag(s, &mut o, g);
                }
                td[f] = o;
            }
        }
        caps["textDocument"] = td;
    }
    if s.chance(1, 2) {
        let lists: &[&[&str]] = &[&["utf-16"], &["utf-8", "utf-16"], &["utf-16", "utf-8"], &["utf-32", "utf-8", "utf-16"], &[]];
        caps["general"] = json!({"positionEncodings": s.pick(lists)});
    }
    if s.chance(1, 3) {
        let mut w = json!({});
        for f in ["applyEdit", "workspaceFolders", "configuration"] {
            flag(s, &mut w, f);
        }
        if s.chance(1, 3) {
            w["workspaceEdit"] = json!({"documentChanges": s.chance(1, 2)});
        }
        caps["workspace"] = w;
    }
    if s.chance(1, 4) {
        caps["experimental"] = json!({"x": [1, {"y": null}]});
    }
    if s.chance(1, 4) {
        caps["unknownCapability"] = json!({"a": true});
    }
    (caps, lazy)
}

fn error_code(r: &Value) -> Option<i64> {
    r.get("error").and_then(|e| e["code"].as_i64())
}

fn want_error(srv: &mut Server, id: i64, when: &str) -> Res<()> {
    let r = srv.wait(id)?;
    if r.get("error").is_none() {
        return viol(format!("`{}` {when} succeeded: {r}", srv.methods[&id]));
    }
    Ok(())
}

fn supported(v: &Value) -> bool {
    !(v.is_null() || *v == json!(false))
}

fn c27(s: &mut Src, c: &mut Case) -> Res<()> {
    let mut cfg = random_cfg(s);
    cfg.max_stmts = 6;
    let m = module(s, &cfg);
    let lc = LCfg::random(s, cfg.unicode);
    let d = layout(s, &m, &lc);
    let t = Text { m, d };
    c.doc(&t.d.text);
    let (caps, lazy) = capabilities(s);
    c.label(if lazy { "lazy client" } else { "eager client" });
    let mut params = json!({"processId": *s.pick(&[Value::Null, json!(1)]), "capabilities": caps});
    if s.chance(1, 2) {
        params["rootUri"] = s.pick(&[Value::Null, json!("file:///w"), json!("untitled:x"), json!("file:///")]).clone();
    }
    if s.chance(1, 2) {
        params["workspaceFolders"] =
            s.pick(&[Value::Null, json!([]), json!([{"uri": "file:///w", "name": "w"}]), json!([{"uri": "vscode-vfs://a/b", "name": ""}, {"uri": "file:///w", "name": "w"}])]).clone();
    }
    if s.chance(1, 4) {
        params["initializationOptions"] = s.pick(&[Value::Null, json!({}), json!({"a": [1]}), json!("x"), json!([])]).clone();
    }
    if s.chance(1, 3) {
        params["clientInfo"] = json!({"name": "client"});
    }
    if s.chance(1, 4) {
        params["trace"] = json!(*s.pick(&["off", "verbose", "messages"]));
    }
    if s.chance(1, 4) {
        params["locale"] = json!("de");
    }
    if s.chance(1, 5) {
        params["unknownField"] = json!(1);
    }
    c.note(format!("initialize: {params}"));
    let model = Model::new(&t.m);
    c.nontrivial = !model.occs.is_empty()
        && (caps["textDocument"].get("codeAction").is_some() || caps.get("general").is_some());
    let log = *s.pick(&[None, Some("debug"), Some("trace"), Some("info"), Some("off"), Some("nonsense=?")]);
    c.note(format!("RUST_LOG {log:?}"));
    let mut srv = c.raw_server(log)?;
    let doc = json!({"textDocument": {"uri": URI}});
    // nothing works before the initialization, but everything is answered
    let mut early = vec![];
    while s.more(early.len(), 3, 1) {
        let m = *s.pick(&["textDocument/documentSymbol", "textDocument/codeLens", "shutdown", "no/such/method"]);
        early.push(srv.send_request(m, if m == "shutdown" { Value::Null } else { doc.clone() }));
    }
    for id in early {
        want_error(&mut srv, id, "before initialize")?;
    }
    let id = srv.send_request("initialize", params.clone());
    let r = srv.result(id)?;
    srv.init = r.clone();
    let cap = &r["capabilities"];
    srv.notify("initialized", json!({}));
    // what is announced
    let sync = &cap["textDocumentSync"];
    let (kind, open) = if sync.is_object() { (&sync["change"], sync["openClose"] == json!(true)) } else { (sync, true) };
    if *kind != json!(1) || !open {
        return viol(format!("the announced synchronization of texts is {sync}, not the one of full texts"));
    }
    if !matches!(cap["positionEncoding"].as_str(), None | Some("utf-16")) || !matches!(r["offsetEncoding"].as_str(), None | Some("utf-16")) {
        return viol(format!("positions are announced in {} {}", cap["positionEncoding"], r["offsetEncoding"]));
    }
    for p in [
        "definitionProvider", "declarationProvider", "referencesProvider", "documentSymbolProvider", "foldingRangeProvider", "inlayHintProvider",
        "codeLensProvider", "renameProvider", "codeActionProvider", "semanticTokensProvider", "executeCommandProvider",
    ] {
        if !supported(&cap[p]) {
            return viol(format!("{p} is not announced: {cap}"));
        }
    }
    if cap["renameProvider"]["prepareProvider"] != json!(true) {
        return viol(format!("the preparation of renames is not announced: {}", cap["renameProvider"]));
    }
    if cap["semanticTokensProvider"]["legend"]["tokenTypes"].as_array().map_or(true, |a| a.is_empty()) || !supported(&cap["semanticTokensProvider"]["full"]) {
        return viol(format!("semantic tokens are announced as {}", cap["semanticTokensProvider"]));
    }
    let resolve = cap["codeActionProvider"]["resolveProvider"] == json!(true);
    if resolve != lazy {
        return viol(format!("resolveProvider is {}, client capabilities {}", cap["codeActionProvider"]["resolveProvider"], caps["textDocument"]["codeAction"]));
    }
    let commands: Vec<String> = as_arr(&cap["executeCommandProvider"]["commands"]).iter().filter_map(|x| x.as_str().map(String::from)).collect();
    // disturbances: unknown things, repeated initialization, cancellation of finished or unknown requests
    let mut odd = vec![];
    let mut n = 0;
    let disturb = |s: &mut Src, srv: &mut Server, odd: &mut Vec<i64>| match s.idx(6) {
        0 => odd.push(srv.send_request(*s.pick(&["no/such/method", "textDocument/nope", "workspace/nope"]), doc.clone())),
        1 => odd.push(srv.send_request("initialize", params.clone())),
        2 => srv.notify(*s.pick(&["no/such/notification", "$/nope", "textDocument/nope"]), json!({"x": 1})),
        3 => srv.notify("$/cancelRequest", json!({"id": s.pick(&[json!(1000000), json!("x"), json!(-7)])})),
        4 => srv.notify("$/setTrace", json!({"value": "off"})),
        _ => odd.push(srv.send_request("textDocument/documentSymbol", json!({"textDocument": 3}))),
    };
    while s.more(n, 3, 1) {
        n += 1;
        disturb(s, &mut srv, &mut odd);
    }
    srv.open(URI, 1, &t.d.text);
    let diags = srv.wait_diags(URI, 1)?;
    // the same answers as for a client without any capabilities
    let mut plain = Server::start(&c.bin, &InitOpts::default(), Default::default())?;
    plain.open(URI, 1, &t.d.text);
    let pd = plain.wait_diags(URI, 1)?;
    if canon(&json!(diags)) != canon(&json!(pd)) {
        return viol(format!("diagnostics depend on the client: {} instead of {}", json!(diags), json!(pd)));
    }
    let mut qs = full_queries(URI, &t.d, &t.m);
    while qs.len() > 40 {
        let i = 5 + s.idx(qs.len() - 5);
        qs.swap_remove(i);
    }
    let ids: Vec<(i64, i64)> = qs.iter().map(|(m, p)| (srv.send_request(m, p.clone()), plain.send_request(m, p.clone()))).collect();
    let mut lens_commands = vec![];
    for ((m, p), (a, b)) in qs.iter().zip(&ids) {
        let (ra, rb) = (srv.wait(*a)?, plain.wait(*b)?);
        if error_code(&ra) == Some(-32601) {
            return viol(format!("{m} is announced, but there is no such method"));
        }
        if canon(&answer_of(&ra)) != canon(&answer_of(&rb)) {
            return viol(format!("{m} {p}: {ra}, but {rb} for a client without capabilities"));
        }
        if m == "textDocument/codeLens" {
            lens_commands = as_arr(&ra["result"]).iter().map(|l| l["command"].clone()).collect();
        }
    }
    for l in &lens_commands {
        if !commands.iter().any(|x| l["command"] == json!(x)) {
            return viol(format!("the code lens command {l} is not announced: {commands:?}"));
        }
    }
    if let Some(l) = lens_commands.first() {
        let id = srv.send_request("workspace/executeCommand", json!({"command": l["command"], "arguments": l["arguments"]}));
        srv.result(id)?;
    }
    // edits of code actions come at once or on request, as announced
    for o in sample_occs(s, &model.occs, 4) {
        let p = t.d.pos(o.tok);
        let id = srv.action_req(URI, p, p);
        for a in as_arr(&srv.result(id)?) {
            let has = a.get("edit").map_or(false, |e| !e.is_null());
            if !has && !resolve {
                return viol(format!("code action without edit for a client that cannot resolve it: {a}"));
            }
            if !has {
                let id = srv.send_request("codeAction/resolve", a.clone());
                let r = srv.result(id)?;
                if r.get("edit").map_or(true, |e| e.is_null()) {
                    return viol(format!("resolving {a} gave no edit: {r}"));
                }
            }
        }
    }
    n = 0;
    while s.more(n, 3, 1) {
        n += 1;
        disturb(s, &mut srv, &mut odd);
    }
    for id in odd {
        want_error(&mut srv, id, "in a running session (unknown, repeated or ill-formed)")?;
    }
    // a cancelled request gets its answer or an error, and exactly one of them
    let mut cancelled = vec![];
    while s.more(cancelled.len(), 3, 1) {
        let id = srv.doc_req(*s.pick(&["textDocument/documentSymbol", "textDocument/semanticTokens/full"]), URI);
        srv.notify("$/cancelRequest", json!({"id": id}));
        cancelled.push(id);
    }
    for id in cancelled {
        srv.wait(id)?;
    }
    check_view(s, &mut srv, URI, &t)?;
    // orderly end
    if s.chance(2, 3) {
        c.label("shutdown");
        let id = srv.send_request("shutdown", Value::Null);
        srv.result(id)?;
        let mut late = vec![];
        while s.more(late.len(), 3, 1) {
            late.push(srv.send_request(*s.pick(&["textDocument/documentSymbol", "textDocument/foldingRange", "initialize", "shutdown"]), doc.clone()));
        }
        for id in late {
            want_error(&mut srv, id, "after shutdown")?;
        }
        if s.chance(1, 2) {
            srv.notify("exit", Value::Null);
        }
        let st = srv.close()?;
        if !st.success() {
            return viol(format!("the server ended with {st} after an orderly shutdown"));
        }
    } else {
        // a client that just goes away
        srv.close()?;
    }
    for (id, n) in &srv.answers {
        if *n != 1 {
            return viol(format!("`{}` was answered {n} times", srv.methods.get(id).cloned().unwrap_or_default()));
        }
    }
    Ok(())
}
