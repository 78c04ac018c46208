use harness::{checks, runner};

#[global_allocator]
static ALLOC: harness::alloc::Counting = harness::alloc::Counting;

fn usage() -> i32 {
    eprintln!(
        "usage: harness check <ID> [quick|thorough] | replay <file> | list\n\
         environment: VERIF_SEED, VERIF_TIER, VERIF_SCALE (percent), VERIF_FAMILY"
    );
    2
}

fn settings(tier: Option<&String>) -> runner::Settings {
    let env = |k: &str| std::env::var(k).ok();
    let tier = tier.cloned().or_else(|| env("VERIF_TIER")).unwrap_or_default();
    runner::Settings {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: tier == "thorough",
        trace: std::env::var_os("VERIF_TRACE").map(Into::into),
        scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(100),
        only: env("VERIF_FAMILY"),
    }
}

fn run() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = |id: &String| checks::all().into_iter().find(|p| p.id == *id);
    match args.first().map(String::as_str) {
        Some("list") => {
            for p in checks::all() {
                println!("{} {}", p.id, p.families.iter().map(|f| f.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some(cmd @ ("check" | "worker")) => {
            let Some(p) = args.get(1).and_then(prop) else { return usage() };
            let s = settings(args.get(2));
            if cmd == "check" {
                runner::supervise(&p, &s, &args[1..])
            } else {
                runner::worker(&p, &s)
            }
        }
        Some("transcript") => checks::pure::transcripts(),
        Some("one") => {
            let (Some(p), Some(f), Some(file)) = (args.get(1).and_then(prop), args.get(2), args.get(3)) else {
                return usage();
            };
            runner::one(&p, f, file)
        }
        Some("replay") => {
            let Some(path) = args.get(1) else { return usage() };
            let Ok(text) = std::fs::read_to_string(path) else { return usage() };
            let Ok(j) = serde_json::from_str::<serde_json::Value>(&text) else { return usage() };
            let id = j["property"].as_str().unwrap_or_default().to_string();
            let family = j["family"].as_str().unwrap_or_default().to_string();
            let Some(c) = j["choices"].as_str().and_then(runner::unhex) else { return usage() };
            let Some(p) = prop(&id) else { return usage() };
            runner::replay(&p, &family, &c)
        }
        _ => usage(),
    }
}

fn main() {
    runner::memory();
    std::process::exit(run())
}
