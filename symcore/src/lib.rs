//! The symbolic executor: expression DAG and solver front end (`engine`), small prime fields over
//! it (`field`), and the exploration driver (`driver`).
pub mod driver;
pub mod engine;
pub mod field;

use driver::{Prop, Tier};

/// the command line shared by the harness binaries
pub fn cli(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut verbose = false;
    let mut pos = vec![];
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--thorough" => tier = Tier::Thorough,
            "--quick" => tier = Tier::Quick,
            "-v" => verbose = true,
            "--case" => {
                i += 1;
                only = Some(args[i].clone())
            }
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    if pos.first().map(|x| x.as_str()) == Some("list") {
        for p in &props {
            println!("{} quick={} thorough={}", p.id, (p.cases)(Tier::Quick).len(), (p.cases)(Tier::Thorough).len());
        }
        std::process::exit(0);
    }
    if pos.first().map(|x| x.as_str()) == Some("replay") {
        let p = props.iter().find(|p| p.id == pos[1]).expect("property");
        std::process::exit(driver::replay(&(p.cases)(Tier::Thorough), &pos[2]));
    }
    let p = match pos.first().and_then(|x| props.iter().find(|p| p.id == *x)) {
        Some(p) => p,
        None => {
            eprintln!("usage: <harness> <property> [--quick|--thorough] [--case substr] [-v] | replay <property> <file> | list");
            std::process::exit(3);
        }
    };
    std::process::exit(driver::run(p, tier, only.as_deref(), verbose, &root));
}
