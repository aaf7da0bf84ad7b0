#![feature(f16)]
#![allow(clippy::too_many_arguments)]
mod case;
mod cpu;
mod drive;
mod exec;
mod filt;
mod fresh;
mod guard;
mod isa;
mod pict;
mod props;
mod refm;
mod rng;

#[cfg(not(any(psv_system_alloc, miri)))]
#[global_allocator]
static ALLOC: guard::Watch = guard::Watch;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => drive::run(&a[1..]),
        Some("replay") => drive::replay(&a[1..]),
        Some("list") => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        Some("cpu") => {
            println!("masking {}", cpu::available());
            for k in cpu::usable_models() {
                println!("{}", cpu::name(k));
            }
            0
        }
        Some("worker") => {
            let tier = if a[2] == "thorough" { drive::Tier::Thorough } else { drive::Tier::Quick };
            drive::worker(
                drive::find(&a[1]).expect("property"),
                tier,
                a[3].parse().unwrap(),
                a[4].parse().unwrap(),
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                a[7].parse().unwrap(),
                a.get(8).map(|s| s.as_str()).unwrap_or(""),
            )
        }
        _ => {
            eprintln!("psv run|replay|worker|list|cpu");
            2
        }
    };
    std::process::exit(code);
}
