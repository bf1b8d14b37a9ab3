//! The cost of analysing a document grows with its size, not with a power of it.
use super::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26", f: c26, quick: 240, thorough: 2000, known: &[],
        rule: "a document of 12 to 24 kB (2 to 4 kB if all in one line) built by repeating one to four generated units (instructions, blocks, functions, declarations, variables, annotations, comments, faulty lines, operands of one line, brackets), and the same with sixteen times the repetitions (eight times if all in one line); all features are requested for both; non-trivial = every case; distinct by the smaller document",
    }]
}

/// A unit, in which `$` stands for the number of the repetition.
fn unit(s: &mut Src, body: bool) -> String {
    let body_units: &[&str] = &[
        "  store int32 1, ptr %a\n",
        "  int32 %v_$ = load int32 ptr %a !$\n",
        "  int32 %v_$ = add int32 %v_$, int32 %v\n",
        "  int32 %v = add int32 %v, int32 @g0\n",
        "  call void @f0 (int32 %a, ptr @f0, ptr @f$)\n",
        "bb_$:\n  br bb_$\n",
        "bb_$:\n  br int1 %a, bb, bb_$\n",
        "bb_$:\n  %x = phi [bb_$, int32 1], [bb, int32 2]\n  br bb_0\n",
        "bb_$:\n",
        "  switch int32 %a, default=bb, int32 0 label=bb_$, int32 1 label=bb_0\n",
        "  unknown_$ %unknown_$ @unknown_$ !unknown_$\n",
        "  ret void !0\n",
        "  # a comment %v @g !1\n",
        "\n",
        "  int32 = = [ ( \n",
        "  int32 %变量_$ = add int32 %变量, \"ä🦀\"\n",
        "  $ ? ~\n",
    ];
    let top: &[&str] = &[
        "@g$ = $\n",
        "@g = 1 @g$ \"text\"\n",
        "declare int32 @d$(ptr %a, int32 %b) = 0x$ !$\n",
        "declare void @d() !1\n",
        "define void @f$(ptr %a) {\nbb:\n  br bb\n}\n",
        "define int32 @f$(ptr %a) {\nbb_$:\n  int32 %x = load ptr %a !$\n  ret int32 %x !0\n}\n",
        "define void @f() {\n}\n",
        "@f$ depends on @f0, @g$\n",
        "!$ = {\"backtrace\": [[\"sym\", \"a.cpp:$\"]]}\n",
        "!$ = \"a.cpp:$\"\n",
        "# a comment\n",
        "\n",
        "} bad\n",
        "define void @f$( {\n",
        "define void @f$() {\n  x $ = 1\n  br\n}\n",
        "$ ~ ? \n",
        "\"a\" \"b\n\"\n",
    ];
    let l = if body { body_units } else { top };
    s.pick(l).to_string()
}

struct Shape {
    head: String,
    units: Vec<String>,
    tail: String,
    len: usize,
    one_line: bool,
}
impl Shape {
    fn text(&self, k: usize) -> String {
        let mut t = self.head.clone();
        let mut n = 0;
        let end = self.len * k;
        while t.len() < end {
            for u in &self.units {
                t.push_str(&u.replace('$', &n.to_string()));
            }
            n += 1;
        }
        t.push_str(&self.tail);
        t
    }
}

fn shape(s: &mut Src) -> Shape {
    let len = 12_000 + s.idx(13) * 1000;
    let kind = s.weighted(&[4, 4, 4]);
    let mut units = vec![];
    match kind {
        0 | 1 => {
            while units.is_empty() || s.more(units.len(), 4, 2) {
                units.push(unit(s, kind == 0));
            }
            let (head, tail) = if kind == 0 { ("@g0 = 1\ndefine void @f0(ptr %a) {\n", "}\n!0 = {\"backtrace\": [[\"a\", \"b:1\"]]}\n") } else { ("@g0 = 1\n", "") };
            Shape { head: head.into(), units, tail: tail.into(), len, one_line: false }
        }
        _ => {
            // one long line
            let (head, tail) = *s.pick(&[
                ("define void @f0(", "ptr %b) {\n}\n"),
                ("@g0 = ", "\n"),
                ("define void @f0(ptr %a) {\n  call @f0 ", "\n}\n"),
                ("define void @f0(ptr %a) {\nbb:\n  switch int32 %a, default=bb", "\n}\n"),
                ("define void @f0(ptr %a) {\nbb:\n  br int1 %a", "\n}\n"),
                ("define void @f0(ptr %a) {\nbb:\n  %x = phi [bb, int32 1]", "\n}\n"),
                ("declare void @f0(ptr %a) ", "\n"),
                ("!0 = {\"backtrace\": [[\"a\", \"b:1\"]", "]}\n"),
                ("# ", "\n"),
                ("@g0 = \"", "\"\n"),
            ]);
            let u = *s.pick(&[
                "ptr %a_$, ", "(", "(", "[", "[", "{", "\"x\" ", "%a ", "@g$ ", "!$ ", "int32 $ ", ", bb", ", int32 $ label=bb_$", ", [bb_$, int32 $]", ", [\"a$\", \"b:$\"]", "$", " $ ", "?~ ", "变量 ", ", ptr %a\t", "()", "}{", "bb_$: ", "= ", "br bb, ",
            ]);
            Shape { head: head.into(), units: vec![u.to_string()], tail: tail.into(), len: len / 6, one_line: true }
        }
    }
}

/// CPU time in ms to open the document and ask for everything.
fn cost(c: &mut Case, t: &str, limit: u64) -> Res<u64> {
    let map = crate::text::TextMap::new(t);
    let lines = map.line_count() as u64;
    let mut srv = c.server(&InitOpts::default())?;
    srv.cpu_limit = limit;
    let before = srv.cpu_ms();
    srv.open(URI, 1, t);
    srv.wait_diags(URI, 1)?;
    let mut ids: Vec<i64> = ["documentSymbol", "codeLens", "foldingRange", "semanticTokens/full"].iter().map(|m| srv.doc_req(&format!("textDocument/{m}"), URI)).collect();
    ids.push(srv.hints_req(URI, lines));
    for name in ["@g0", "%a", "bb"] {
        if let Some(i) = t.find(name) {
            let p = map.pos(t[..i].chars().count() + 1);
            for m in ["definition", "declaration", "references", "prepareRename"] {
                ids.push(srv.pos_req(&format!("textDocument/{m}"), URI, p));
            }
            ids.push(srv.rename_req(URI, p, "fresh"));
        }
    }
    ids.push(srv.send_request("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [URI, "@f0"]})));
    for id in ids {
        srv.wait(id)?;
    }
    Ok(srv.cpu_ms().saturating_sub(before))
}

fn c26(s: &mut Src, c: &mut Case) -> Res<()> {
    let sh = shape(s);
    // (repetitions, allowed factor, always allowed ms)
    // A line of a few kB is long enough: positions within a line may well be computed by walking along it.
    let (k, factor, free) = if sh.one_line { (8, 32, 6000) } else { (16, 48, 10000) };
    c.note(format!("units {:?} in {:?} … {:?}", sh.units, sh.head, sh.tail));
    let (small, large) = (sh.text(1), sh.text(k));
    c.nontrivial = true;
    // only what can be measured repeatedly counts
    let mut n = 0;
    loop {
        let a = cost(c, &small, 20)?;
        let b = cost(c, &large, (factor * a.max(50)).max(free) * 6 / 5000 + 1)?;
        if b <= free || b <= factor * a.max(50) {
            if b > free / 3 && b > factor / 2 * a.max(50) {
                c.label("more than half of the allowed factor");
                if std::env::var("VERIF_DEBUG").is_ok() {
                    println!("{a} -> {b} ms: {:?}", c.notes);
                }
            }
            c.add("kB", (large.len() / 1000) as u64);
            c.add("ms", b);
            return Ok(());
        }
        n += 1;
        if n == 3 || n == 2 && b > 2 * free {
            return viol(format!("{} bytes take {a} ms of CPU time, but {} bytes of the same kind {b} ms", small.len(), large.len()));
        }
    }
}
