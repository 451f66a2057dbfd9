#![allow(dead_code, deprecated, unused_imports)]
mod gen;
mod mem;
mod props;
mod refm;
mod rt;
mod sut;

#[global_allocator]
static HEAP: mem::Counting = mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: monitor <property> [--replay FILE]");
        std::process::exit(2);
    }
    if args[0] == "--digest" {
        for d in props::global::digests(args[1].parse().unwrap(), args[2].parse().unwrap()) {
            println!("{d}");
        }
        return;
    }
    if args[0] == "--twins" {
        for d in props::global::twin_digests(args[1].parse().unwrap(), args[2].parse().unwrap()) {
            println!("{d}");
        }
        return;
    }
    let Some((id, f)) = props::ALL.iter().find(|p| p.0 == args[0]) else {
        eprintln!("unknown property {}", args[0]);
        std::process::exit(2);
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => rt::Tier::Thorough,
        _ => rt::Tier::Quick,
    };
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let mut replay = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let field = |k: &str| -> String {
            let p = txt.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
            txt[p..].trim_start_matches('"').chars().take_while(|c| *c != '"' && *c != ',' && *c != '}').collect()
        };
        seed = field("seed").parse().expect("seed");
        tier = if field("tier") == "thorough" { rt::Tier::Thorough } else { rt::Tier::Quick };
        replay = Some((field("phase"), field("index").parse().expect("index")));
    }
    let run = rt::Run::new(id, tier, seed, replay);
    f(&run);
    std::process::exit(run.finish());
}
