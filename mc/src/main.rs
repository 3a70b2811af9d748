mod checks;
mod ctx;
mod dec;
mod hash;
mod imports;
mod journal;
mod merge;
mod rules;
mod sut;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    hash::selftest();
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = &args[2];
            let tier = args.get(3).map(String::as_str).unwrap_or("quick");
            let ctx = ctx::Ctx::new(id, tier, &root);
            let (level, rule) = checks::run(id, &ctx).unwrap_or_else(|| {
                eprintln!("mc: unknown property {}", id);
                std::process::exit(2)
            });
            std::process::exit(ctx.finish(&level, &rule));
        }
        Some("orders") => checks::determinism::orders(args[2].parse().expect("number of seeds")),
        _ => {
            eprintln!("usage: mc check <property> <quick|thorough>");
            std::process::exit(2);
        }
    }
}
