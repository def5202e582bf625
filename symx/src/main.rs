pub use symcore::{driver, engine, field};
mod curve;
mod eng;
mod full;
mod gadget;
mod ground;
mod props;
mod reccs;
mod tok;
mod wide;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|x| x.as_str()) == Some("C20") {
        let thorough = args.iter().any(|x| x == "--thorough") || std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
        std::process::exit(ground::run(thorough && !args.iter().any(|x| x == "--quick"), &root));
    }
    symcore::cli(props::all())
}
