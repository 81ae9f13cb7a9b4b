#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod common;
mod dump;
mod gen;
mod hooks;
mod orch;
mod p_acct;
mod p_comp;
mod p_conc;
mod p_hist;
mod p_io;
mod p_text;
mod props;
mod rng;
mod scen;
mod world;

fn no_aslr() {
	unsafe {
		// the same 8 MiB main stack everywhere
		let l = [8u64 << 20, u64::MAX];
		let mut old = [0u64; 2];
		hooks::sys6(302, 0, 3, 0, old.as_mut_ptr() as usize, 0, 0);
		let l = [l[0].min(old[1]), old[1]];
		hooks::sys6(302, 0, 3, l.as_ptr() as usize, 0, 0, 0);
		let p = hooks::sys6(135, 0xffff_ffff, 0, 0, 0, 0, 0);
		if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("DSIM_NOASLR").is_none() {
			if hooks::sys6(135, (p | 0x0040000) as usize, 0, 0, 0, 0, 0) >= 0 {
				use std::os::unix::process::CommandExt;
				let exe = std::env::current_exe().unwrap();
				let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("DSIM_NOASLR", "1").exec();
			}
		}
	}
}
fn main() {
	no_aslr();
	hooks::init_bulk();
	hooks::init_statics();
	// std remembers per process whether statx works; settle that before any run, so that no run's
	// sequence of system calls depends on it
	let _ = std::fs::metadata("/");
	orch::install_panic_hook();
	let a: Vec<String> = std::env::args().collect();
	let opt = |n: &str, d: &str| -> String { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) };
	let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
	let exe = std::env::current_exe().unwrap().to_string_lossy().into_owned();
	let seed: u64 = opt("--seed", "1").parse().unwrap_or(1);
	let code = match cmd {
		"check" => {
			let prop = a[2].clone();
			let tier = opt("--tier", "quick");
			let (runs, wall) = props::plan(&prop, &tier);
			let job = orch::Job {
				runs: opt("--runs", &runs.to_string()).parse().unwrap(),
				wall: opt("--wall", &wall.to_string()).parse().unwrap(),
				workers: opt("--workers", "8").parse().unwrap(),
				evidence: a.iter().position(|x| x == "--evidence").and_then(|i| a.get(i + 1)).cloned(),
				replays: opt("--replays", "/tmp"),
				known: opt("--known", "/verif/known-findings.txt"),
				keep_going: a.iter().any(|x| x == "--all"),
				first: opt("--first", "0").parse().unwrap(),
				prop,
				tier,
				seed,
				exe,
			};
			orch::check(&job)
		}
		"replay" => {
			let t = std::fs::read_to_string(&a[2]).unwrap_or_default();
			match scen::Scenario::from_text(&t) {
				None => {
					eprintln!("not a scenario file");
					2
				}
				Some(s) => {
					let trace = a.iter().any(|x| x == "--trace");
					let e = orch::run_scenario(&s, trace);
					if let orch::End::Done(r) = &e {
						for l in &r.out {
							println!("  {l}");
						}
						if let Some(h) = &r.harness {
							eprintln!("simulator error: {h}");
						}
						println!("event log hash {:016x}, {} steps, {} context switches", r.log, r.steps, r.switches);
					}
					match orch::verdict(&e) {
						Some((c, m)) => {
							println!("class '{c}': {m}");
							println!("VIOLATION property={} replay={}", s.prop, a[2]);
							1
						}
						None => {
							println!("the property holds on this scenario");
							0
						}
					}
				}
			}
		}
		"show" => {
			let s = props::generate(&a[2], seed, a[3].parse().unwrap());
			println!("{}", s.to_text());
			0
		}
		_ => {
			eprintln!("usage: dsim check <ID> [--tier quick|thorough] [--seed N] | replay <file> [--trace] | show <ID> <run>");
			2
		}
	};
	std::process::exit(code);
}
