//! Deterministic simulation of rphonetic: see /verif/DESIGN.md.
#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs, clippy::all)]
#![allow(invalid_runtime_symbol_definitions)]
mod alloc;
mod exec;
mod gen;
mod interpose;
mod model;
mod multi;
mod orch;
mod pack;
mod plan;
mod proc;
mod props;
mod rng;
mod rt;
mod vfs;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    // addresses must not depend on chance
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("RPHSIM_FIXED").is_none() {
            std::env::set_var("RPHSIM_FIXED", "1");
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let mut it = std::env::args_os();
                it.next();
                let e = std::process::Command::new("/proc/self/exe").args(it).exec();
                eprintln!("{e}");
            }
        }
    }
    let env = |k: &str| std::env::var(k).ok();
    let mut a = orch::Args {
        prop: String::new(),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: None,
        from: 0,
        wall: None,
        workers: interpose::real_cpus().clamp(1, 16),
        replay: None,
        out: "/verif".into(),
        digests: None,
        quiet: false,
        show: false,
        prices: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match x.as_str() {
            "--tier" => a.thorough = val() == "thorough",
            "--seed" => a.seed = val().parse().expect("seed"),
            "--runs" => a.runs = Some(val().parse().expect("runs")),
            "--from" => a.from = val().parse().expect("from"),
            "--wall" => a.wall = Some(val().parse().expect("wall")),
            "--workers" => a.workers = val().parse().expect("workers"),
            "--replay" => a.replay = Some(val()),
            "--out" => a.out = val(),
            "--digests" => a.digests = Some(val()),
            "--quiet" => a.quiet = true,
            "--show" => a.show = true,
            "--prices" => a.prices = true,
            p => a.prop = p.to_string(),
        }
    }
    if a.replay.is_none() && !props::PROPS.contains(&a.prop.as_str()) {
        eprintln!("usage: rphsim C01..C14 [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]");
        std::process::exit(2);
    }
    std::process::exit(orch::main(a));
}
