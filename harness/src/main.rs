mod cluster;
mod d07;
mod exec;
mod gen;
mod net;
mod pinned;
mod props;
mod pure;
mod runner;
mod store;
mod types;
mod world;

use runner::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = vec![];
    let mut o = Opts { thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false), seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), cases: None, jobs: 8 };
    let mut save = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                o.thorough = args[i] == "thorough";
            }
            "--seed" => {
                i += 1;
                o.seed = args[i].parse().unwrap();
            }
            "--cases" => {
                i += 1;
                o.cases = Some(args[i].parse().unwrap());
            }
            "--jobs" => {
                i += 1;
                o.jobs = args[i].parse().unwrap();
            }
            "--save" => {
                i += 1;
                save = Some(args[i].clone());
            }
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    let all: Vec<&Prop> = props::PROPS.iter().collect();
    let find = |id: &str| -> &Prop { all.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}")) };
    let code = match pos.first().map(|s| s.as_str()) {
        Some("check") => check(find(&pos[1]), &o),
        Some("survey") => survey(find(&pos[1]), &o),
        Some("case") => one_case(find(&pos[1]), o.seed, pos[2].parse().unwrap(), o.thorough, save.as_deref()),
        Some("pinned") => pinned_case(find(&pos[1]), &pos[2]),
        Some("replay") => replay(&all, &pos[1], false),
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: orpbt check|survey|case|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
