mod checks;
mod choice;
mod gen;
mod lsp;
mod runner;
mod text;

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut id, mut bin, mut out, mut replay, mut cases, mut threads) =
        (None, String::new(), String::from("evidence"), None, None, 8usize);
    let mut list = false;
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("argument value");
        match &a[..] {
            "--bin" => bin = val(),
            "--out" => out = val(),
            "--replay" => replay = Some(val()),
            "--cases" => cases = Some(val().parse().unwrap()),
            "--threads" => threads = val().parse().unwrap(),
            "--list" => list = true,
            _ => id = Some(a),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let all = checks::all();
    if list {
        for c in &all {
            println!("{}", c.id);
        }
        return;
    }
    if let Some(f) = replay {
        std::process::exit(runner::replay(&all, &bin, &f));
    }
    let id = id.expect("property id");
    let ck = all.iter().find(|c| c.id == id).expect("unknown property");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let o = runner::RunOpts { bin, seed, tier, out, cases, threads };
    std::process::exit(runner::run(ck, &o));
}
