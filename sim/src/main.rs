#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
#[macro_use]
mod core;
mod cli;
mod bind;
mod engines;
mod gadget;
mod gen;
mod net;
mod wire;
mod zk;
mod prog;
mod rec;
mod refmodel;
mod runner;
mod sched;
mod simos;
mod sol;
mod streams;
mod worlds;

use runner::World;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

static WORLDS: &[World] = &[
    worlds::c01::WORLD,
    worlds::c02::WORLD,
    worlds::c03::WORLD,
    worlds::c04::WORLD,
    worlds::c05::WORLD,
    worlds::c06::WORLD,
    worlds::c07::WORLD,
    worlds::c08::WORLD,
    worlds::c09::WORLD,
    worlds::c10::WORLD,
    worlds::c11::WORLD,
    worlds::c12::WORLD,
    worlds::c13::WORLD,
    worlds::c14::WORLD,
    worlds::c15::WORLD,
    worlds::c16::WORLD,
    worlds::c17::WORLD,
    worlds::c18::WORLD,
    worlds::c19::WORLD,
];

fn main() {
    runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static World {
        WORLDS.iter().find(|w| w.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    let usage = || -> ! {
        eprintln!("usage: fawkes-sim check ID | search ID DIR | one ID RUN | trace ID N | replay FILE | list");
        std::process::exit(2)
    };
    if a.len() < 2 {
        usage();
    }
    let code = match (a[1].as_str(), a.len()) {
        ("list", _) => {
            for w in WORLDS {
                println!("{}", w.id);
            }
            0
        }
        ("check", 3) => runner::check_main(find(&a[2])),
        ("search", 4) => runner::search_main(find(&a[2]), Some(a[3].clone().into())),
        ("search", 3) => runner::search_main(find(&a[2]), None),
        ("shrink", 5) => runner::shrink_main(find(&a[2]), a[3].parse().unwrap(), a[4].clone()),
        ("one", 4) => runner::one_main(find(&a[2]), a[3].parse().unwrap()),
        ("trace", 4) => runner::trace_main(find(&a[2]), a[3].parse().unwrap()),
        ("replay", 3) => runner::replay_main(WORLDS, &a[2]),
        _ => usage(),
    };
    std::process::exit(code);
}
