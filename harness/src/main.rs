mod alloc;
mod ast;
mod checks;
mod common;
mod compose;
mod doc;
mod dt;
mod fault;
mod garble;
mod gen;
mod ir;
mod known;
mod lex;
mod mon;
mod print_rnc;
mod print_rng;
mod re;
mod restrict;
mod rncgram;
mod rng;
mod rnggram;
mod run;
mod scale;
mod sem_decl;
mod sem_deriv;
mod wf;
mod xml;

use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn find(id: &str) -> &'static mon::Check {
    match checks::ALL.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no check {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    match args.first().map(|s| &s[..]) {
        Some("check") => {
            let tier = match args.get(2).cloned().or(env("VERIF_TIER")).as_deref() {
                Some("thorough") => mon::Tier::Thorough,
                _ => mon::Tier::Quick,
            };
            let o = mon::Opts {
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                tier,
                root: PathBuf::from(env("RNGMON_ROOT").unwrap_or("/verif".into())),
                cases: env("RNGMON_CASES").and_then(|s| s.parse().ok()),
                seconds: env("RNGMON_SECONDS").and_then(|s| s.parse().ok()),
            };
            std::process::exit(mon::check(find(&args[1]), &o));
        }
        Some("worker") => mon::worker(find(&args[1]), &args[2..]),
        Some("case") => std::process::exit(mon::single(find(&args[1]), &args[2..])),
        Some("digest") => {
            mon::install_hook();
            let a: Vec<u64> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
            println!("{:x}", mon::big_stack(move || checks::c13::digest(a[0], a[1])));
        }
        Some("list") => checks::ALL.iter().for_each(|c| println!("{}", c.id)),
        _ => {
            eprintln!("usage: rngmon check <id> [quick|thorough] | case <id> <seed> <tier> <index> | list");
            std::process::exit(2)
        }
    }
}
