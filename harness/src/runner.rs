//! Runs the cases of a check on all cores, shrinks the first failure, writes evidence and replay.
use crate::checks::Check;
use crate::choice::{hash_str, shrink, Src};
use crate::lsp::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const KNOWN_FINDINGS: &str = include_str!("../../known_findings.txt");

pub struct Known {
    pub what: &'static str,
    /// Returns Ok(true) if the finding is still present.
    pub probe: fn(&mut Case) -> Res<bool>,
}

pub struct Case {
    pub bin: String,
    pub labels: BTreeSet<String>,
    pub nontrivial: bool,
    pub docs: Vec<String>,
    pub notes: Vec<String>,
    pub transcript: Arc<Mutex<Vec<Value>>>,
    pub scratch: Vec<std::path::PathBuf>,
    pub count: BTreeMap<&'static str, u64>,
}

static SCRATCH_NO: AtomicU64 = AtomicU64::new(0);

impl Case {
    pub fn new(bin: &str) -> Self {
        Case {
            bin: bin.to_string(),
            labels: BTreeSet::new(),
            nontrivial: false,
            docs: vec![],
            notes: vec![],
            transcript: Arc::new(Mutex::new(vec![])),
            scratch: vec![],
            count: BTreeMap::new(),
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.insert(l.into());
    }
    pub fn doc(&mut self, t: &str) {
        self.docs.push(t.to_string());
    }
    pub fn note(&mut self, t: impl Into<String>) {
        self.notes.push(t.into());
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.count.entry(k).or_default() += n;
    }
    pub fn server(&mut self, opts: &InitOpts) -> Res<Server> {
        let mut o = opts.clone();
        // normalise the scratch directories in the transcript
        o.folders = o.folders.clone();
        Server::start(&self.bin, &o, self.transcript.clone())
    }
    pub fn raw_server(&self, log: Option<&str>) -> Res<Server> {
        Server::spawn(&self.bin, log, self.transcript.clone())
    }
    /// A fresh scratch directory, removed when the case is over. The parent directory's
    /// name is fixed, the last component is unique.
    pub fn scratch_dir(&mut self) -> std::path::PathBuf {
        let n = SCRATCH_NO.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("hirprop-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch dir");
        self.scratch.push(p.clone());
        p
    }
}
impl Drop for Case {
    fn drop(&mut self) {
        for p in &self.scratch {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

fn run_case(ck: &Check, bin: &str, src: &mut Src) -> (Case, Res<()>) {
    let mut case = Case::new(bin);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (ck.f)(src, &mut case)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::Inconclusive(format!("harness panic: {m}")))
        }
    };
    (case, r)
}

pub struct RunOpts {
    pub bin: String,
    pub seed: u64,
    pub tier: String,
    pub out: String,
    pub cases: Option<u64>,
    pub threads: usize,
}

struct Shared {
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    samples: Vec<(u64, Value)>,
    fail: Option<(u64, Vec<u64>, String)>,
    inconclusive: Vec<String>,
    unreproducible: Vec<String>,
    done: u64,
}

pub fn run(ck: &Check, o: &RunOpts) -> i32 {
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(if o.tier == "thorough" { ck.thorough } else { ck.quick });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let sh = Mutex::new(Shared {
        labels: BTreeMap::new(),
        counts: BTreeMap::new(),
        nontrivial: HashSet::new(),
        distinct: HashSet::new(),
        samples: vec![],
        fail: None,
        inconclusive: vec![],
        unreproducible: vec![],
        done: 0,
    });
    std::thread::scope(|sc| {
        for _ in 0..o.threads {
            sc.spawn(|| loop {
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= total {
                    return;
                }
                // on a slow machine, cover less rather than give no answer
                if o.tier != "thorough" && t0.elapsed() > Duration::from_secs(420) {
                    return;
                }
                let seed = hash_str(&format!("{}/{}/{}", o.seed, ck.id, i));
                let mut src = Src::random(seed);
                let (case, r) = run_case(ck, &o.bin, &mut src);
                if stop.load(Ordering::SeqCst) && !matches!(r, Err(Fail::Violation(_))) {
                    return;
                }
                let mut g = sh.lock().unwrap();
                g.done += 1;
                let h = hash_str(&format!("{:?}{:?}", case.docs, case.notes));
                g.distinct.insert(h);
                if case.nontrivial {
                    g.nontrivial.insert(h);
                }
                for l in &case.labels {
                    *g.labels.entry(l.clone()).or_default() += 1;
                }
                for (k, n) in &case.count {
                    *g.counts.entry(k.to_string()).or_default() += n;
                }
                if case.nontrivial && i < 200 {
                    g.samples.push((i, json!({"case": i, "documents": case.docs, "notes": case.notes})));
                }
                match r {
                    Ok(()) => {}
                    Err(Fail::Violation(m)) => {
                        // only report what can be reproduced from its choices
                        drop(g);
                        let seen = (0..15).find_map(|_| {
                            if stop.load(Ordering::SeqCst) {
                                return None;
                            }
                            match run_case(ck, &o.bin, &mut Src::replay(src.rec.clone())).1 {
                                Err(Fail::Violation(m)) => Some(m),
                                _ => None,
                            }
                        });
                        g = sh.lock().unwrap();
                        if seen.is_none() && stop.load(Ordering::SeqCst) {
                            return;
                        }
                        if seen.is_none() {
                            g.unreproducible.push(format!("case {i}: {m}"));
                            continue;
                        }
                        if g.fail.as_ref().map_or(true, |f| i < f.0) {
                            g.fail = Some((i, src.rec.clone(), m));
                        }
                        stop.store(true, Ordering::SeqCst);
                        ABORT_AT.store(now_ms(), Ordering::SeqCst);
                    }
                    Err(Fail::Inconclusive(m)) => {
                        if g.inconclusive.len() < 5 {
                            g.inconclusive.push(format!("case {i}: {m}"));
                        }
                        if g.inconclusive.len() >= 5 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
    });
    ABORT_AT.store(0, Ordering::SeqCst);
    let mut sh = sh.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    let mut known_lines = vec![];
    if let Some((i, rec, msg)) = sh.fail.take() {
        violations = 1;
        code = 1;
        let dir = format!("{}/replay", o.out);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-seed{}.json", ck.id, o.seed);
        let (best, tries, msg, case) = minimise(ck, &o.bin, rec, msg);
        let tr = case.transcript.lock().unwrap().clone();
        let rep = json!({
            "property": ck.id, "seed": o.seed, "case": i, "choices": best, "message": msg,
            "documents": case.docs, "notes": case.notes, "messages_sent": tr,
            "shrink_attempts": tries,
            "how": format!("bash run_check.sh {} --replay {}", ck.id, path),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("case {i} (seed {}): {msg}", o.seed);
        for d in &case.docs {
            println!("--- document\n{d}\n---");
        }
        for n in &case.notes {
            println!("note: {n}");
        }
        println!("VIOLATION property={} replay={path}", ck.id);
    } else if !sh.inconclusive.is_empty() {
        for m in &sh.inconclusive {
            println!("INCONCLUSIVE property={} {m}", ck.id);
        }
        code = 3;
    } else {
        for k in ck.known {
            let mut case = Case::new(&o.bin);
            match (k.probe)(&mut case) {
                Ok(true) => {
                    let line = format!("KNOWN-FINDING: property={} {}", ck.id, k.what);
                    if KNOWN_FINDINGS.lines().any(|l| l == line) {
                        println!("{line}");
                        known_lines.push(k.what);
                    } else {
                        println!("{}\nVIOLATION property={} replay={}", k.what, ck.id, concat!(env!("CARGO_MANIFEST_DIR"), "/../known_findings.txt"));
                        violations = 1;
                        code = 1;
                    }
                }
                Ok(false) => {}
                Err(e) => {
                    println!("INCONCLUSIVE property={} known finding probe: {e:?}", ck.id);
                    code = 3;
                }
            }
        }
    }
    sh.samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = sh.samples.iter().take(3).map(|s| s.1.clone()).collect();
    let ev = json!({
        "property": ck.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sh.done,
            "planned": total,
            "distinct_cases": sh.distinct.len(),
            "distinct_nontrivial": sh.nontrivial.len(),
            "rule": ck.rule,
            "samples": samples,
            "labels": sh.labels,
            "counters": sh.counts,
            "known_findings_seen": known_lines,
            "unreproducible_observations": sh.unreproducible,
        },
        "assumptions": [
            "the server binary under test is built from /repo's working tree with the dev profile (overflow checks on)",
            "the harness's own text, token and symbol model is correct"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(&o.out);
    let p = format!("{}/{}.json", o.out, ck.id);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write {p}: {e}");
        code = 2;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s, exit {}",
        ck.id,
        o.tier,
        sh.done,
        sh.nontrivial.len(),
        t0.elapsed().as_secs_f64(),
        code
    );
    code
}

fn minimise(ck: &Check, bin: &str, rec: Vec<u64>, msg: String) -> (Vec<u64>, usize, String, Case) {
    let deadline = Instant::now() + Duration::from_secs(45);
    ABORT_AT.store(now_ms() + 60_000, Ordering::SeqCst);
    let (best, tries) = shrink(rec.clone(), 1500, deadline, |cand| {
        let mut s = Src::replay(cand.to_vec());
        match run_case(ck, bin, &mut s) {
            (_, Err(Fail::Violation(_))) => Some(s.rec),
            _ => None,
        }
    });
    ABORT_AT.store(0, Ordering::SeqCst);
    for cand in [best, rec.clone()] {
        let mut s = Src::replay(cand.clone());
        if let (case, Err(Fail::Violation(m))) = run_case(ck, bin, &mut s) {
            return (cand, tries, m, case);
        }
    }
    // did not reproduce: report the original observation
    let mut s = Src::replay(rec.clone());
    let (case, _) = run_case(ck, bin, &mut s);
    (rec, tries, format!("{msg} (observed once; did not reproduce on replay)"), case)
}

pub fn replay(checks: &[Check], bin: &str, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let ck = checks.iter().find(|c| c.id == id).expect("check");
    let ch: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let mut s = Src::replay(ch);
    let (case, r) = run_case(ck, bin, &mut s);
    for d in &case.docs {
        println!("--- document\n{d}\n---");
    }
    for n in &case.notes {
        println!("note: {n}");
    }
    match r {
        Ok(()) => {
            println!("{id}: the replayed case passes");
            0
        }
        Err(Fail::Violation(m)) => {
            println!("{m}\nVIOLATION property={id} replay={file}");
            1
        }
        Err(Fail::Inconclusive(m)) => {
            println!("INCONCLUSIVE {m}");
            3
        }
    }
}
