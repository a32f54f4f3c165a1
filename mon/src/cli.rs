use crate::report::*;

fn field<'a>(s: &'a str, key: &str) -> &'a str {
    let k = format!("\"{}\":", key);
    let i = s.find(&k).expect("replay file") + k.len();
    let r = &s[i..];
    if let Some(r) = r.strip_prefix('"') {
        &r[..r.find('"').unwrap()]
    } else {
        &r[..r.find([',', '}']).unwrap()]
    }
}

/// Command line of every monitor binary
pub fn main(ids: &[(&'static str, fn(&Run) -> i32)]) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let (id, tier, seed, case) = match args.get(1).map(|s| s.as_str()) {
        Some("run") => (
            args[2].clone(),
            opt("--tier").unwrap_or("quick".into()),
            opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64),
            opt("--case").and_then(|s| s.parse().ok()),
        ),
        Some("replay") => {
            let s = std::fs::read_to_string(&args[2]).expect("replay file");
            (
                field(&s, "property").to_string(),
                field(&s, "tier").to_string(),
                field(&s, "seed").parse().unwrap(),
                Some(field(&s, "case").parse().unwrap()),
            )
        }
        _ => {
            eprintln!("mon run ID [--tier quick|thorough] [--seed N] [--case N] [--evidence FILE] [--replay-dir DIR] [--findings FILE] | mon replay FILE");
            std::process::exit(3);
        }
    };
    let (id, f) = *ids.iter().find(|x| x.0 == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(3);
    });
    let mut run = Run::new(id, if tier == "thorough" { Tier::Thorough } else { Tier::Quick }, seed);
    run.only_case = case;
    run.evidence = opt("--evidence");
    if let Some(d) = opt("--replay-dir") {
        run.replay_dir = d;
    }
    if let Some(b) = opt("--budget") {
        run.budget = std::time::Duration::from_secs(b.parse().unwrap());
    } else if run.tier == Tier::Thorough {
        run.budget = std::time::Duration::from_secs(600);
    }
    if let Some(p) = opt("--findings") {
        // lines "known: property=<id> <signature> | description"
        let text = std::fs::read_to_string(p).expect("findings file");
        for l in text.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} ", id)) {
                run.known.push(r.split(" | ").next().unwrap().trim().to_string());
            }
        }
    }
    let run: &'static Run = Box::leak(Box::new(run));
    run.watch();
    std::process::exit(f(run));
}
