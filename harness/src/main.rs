mod gen;
mod geom;
mod hall;
mod p_analyze;
mod p_cross;
mod p_group;
mod p_more;
mod p_py;
mod p_reduce;
mod p_struct;
mod runner;

use runner::{DynProp, Env};
use std::path::PathBuf;

#[global_allocator]
static A: runner::Counting = runner::Counting;

fn all() -> Vec<Box<dyn DynProp>> {
    vec![
        Box::new(p_struct::s01()),
        Box::new(p_struct::s02()),
        Box::new(p_struct::s03()),
        Box::new(p_struct::s04()),
        Box::new(p_struct::s05()),
        Box::new(p_struct::s06()),
        Box::new(p_more::s07()),
        Box::new(p_reduce::r01()),
        Box::new(p_reduce::r02()),
        Box::new(p_reduce::r03()),
        Box::new(p_reduce::r04()),
        Box::new(p_reduce::r05()),
        Box::new(p_more::r06()),
        Box::new(p_group::o01()),
        Box::new(p_group::o02()),
        Box::new(p_group::o03()),
        Box::new(p_group::o04()),
        Box::new(p_group::p01()),
        Box::new(p_group::p02()),
        Box::new(p_group::d01()),
        Box::new(p_group::d02()),
        Box::new(p_group::d03()),
        Box::new(p_more::d04()),
        Box::new(p_more::d05()),
        Box::new(p_group::u01()),
        Box::new(p_analyze::a01()),
        Box::new(p_analyze::a02()),
        Box::new(p_analyze::a03()),
        Box::new(p_analyze::a04()),
        Box::new(p_analyze::a05()),
        Box::new(p_analyze::a06()),
        Box::new(p_analyze::a07()),
        Box::new(p_cross::a08()),
        Box::new(p_cross::a09()),
        Box::new(p_cross::a10()),
        Box::new(p_py::b01()),
        Box::new(p_py::b02()),
    ]
}

fn main() {
    runner::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => t,
        _ => "quick".into(),
    };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 32);
    let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok());
    let env = Env { dir, seed, tier, threads, cases };
    let props = all();
    let find = |id: &str| props.iter().find(|p| p.id() == id);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => match args.get(2).and_then(|i| find(i)) {
            Some(p) => p.run(&env),
            None => {
                eprintln!("unknown property");
                2
            }
        },
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&txt).expect("replay file is not JSON");
            match find(v["property"].as_str().unwrap_or("")) {
                Some(p) => p.replay(&v["case"], &env),
                None => 2,
            }
        }
        _ => {
            for p in &props {
                println!("{}", p.id());
            }
            0
        }
    };
    std::process::exit(code);
}
