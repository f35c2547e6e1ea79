//! Driver of the library: replays behaviours of the specification and
//! records behaviours of the library
mod binding;
mod catalog;
mod conv;
mod convert;
mod gen;
mod layout;
mod mo;
mod po;
mod render;
mod util;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().expect("command").clone();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str| o.get(k).unwrap_or_else(|| panic!("missing --{k}")).clone();
    let num = |k: &str| get(k).parse::<u64>().expect("number");
    util::quiet_panics();
    util::start_watchdog(o.get("current").map(|s| s.as_str()), 20);
    let code = match cmd.as_str() {
        "replay-po" => po::replay(&get("in"), &get("prop"), &get("scratch")),
        "gen-po" => {
            po::generate(&get("prop"), num("seed"), num("n"), &get("out"), &get("scratch"));
            0
        }
        "replay-layout" => layout::replay(&get("in"), &get("scratch")),
        "gen-layout" => {
            layout::generate(num("seed"), num("n"), &get("out"), &get("scratch"));
            0
        }
        "replay-escape" => layout::replay_escapes(&get("in")),
        "gen-escape" => {
            layout::generate_escapes(num("seed"), num("n"), &get("out"));
            0
        }
        "record-render" => {
            render::record(&get("in"), &get("prop"), &get("widths"), &get("out"), &get("scratch"));
            0
        }
        "gen-render" => {
            render::generate(&get("prop"), num("seed"), num("n"), &get("out"), &get("scratch"));
            0
        }
        "known-render" => {
            render::known(&get("out"));
            0
        }
        "replay-meta" => render::replay_meta(&get("in")),
        "gen-meta" => {
            render::generate_meta(num("seed"), num("n"), &get("out"));
            0
        }
        "replay-mo" => mo::replay(&get("in"), &get("scratch")),
        "rewrite-mo" => {
            mo::rewrite(&get("in"), num("step") as usize, &get("out"), &get("scratch"));
            0
        }
        "compile-mo" => {
            mo::record(&get("in"), &get("out"), &get("scratch"));
            0
        }
        "gen-mo" => {
            mo::generate(&get("prop"), num("seed"), num("n"), &get("out"), &get("scratch"));
            0
        }
        "replay-search" => catalog::replay_search(&get("in")),
        "replay-history" => catalog::replay_history(&get("in")),
        "replay-merge" => catalog::replay_merge(&get("in")),
        "replay-status" => catalog::replay_status(&get("in")),
        "replay-order" => catalog::replay_order(&get("in")),
        "replay-disk" => catalog::replay_disk(&get("in"), &get("scratch")),
        "ways" => {
            catalog::ways(&get("in"), num("step") as usize, &get("out"), &get("scratch"));
            0
        }
        "gen-catalog" => {
            catalog::generate(&get("prop"), num("seed"), num("n"), &get("out"), &get("scratch"));
            0
        }
        "replay-convert" => convert::replay(&get("in")),
        "gen-convert" => {
            convert::generate(num("seed"), num("n"), &get("out"));
            0
        }
        "gen-binding" => {
            binding::generate(num("seed"), num("n"), &get("out"), &get("scratch"));
            0
        }
        _ => {
            eprintln!("unknown command {cmd}");
            2
        }
    };
    std::process::exit(code);
}
