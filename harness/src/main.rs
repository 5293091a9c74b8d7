mod engine;
mod fam;
mod orch;
mod props;
mod repl;
mod rng;
mod sim;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("AXSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("repl") => repl::run(&args[2]),
        Some("check") => {
            let id = &args[2];
            let thorough = args.get(3).map(|s| s.as_str()) == Some("thorough");
            match props::PROPS.iter().find(|p| p.id == *id) {
                Some(p) => std::process::exit(orch::check(p, thorough, &root)),
                None => {
                    eprintln!("unknown property {id}");
                    std::process::exit(2)
                }
            }
        }
        Some("replay") => std::process::exit(orch::replay(&args[2])),
        _ => std::process::exit(2),
    }
}
