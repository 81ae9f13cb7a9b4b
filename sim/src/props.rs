//! property table: generator, executor, size of the quick and thorough searches
use crate::orch::Job;
use crate::rng::{hash_bytes, Rng};
use crate::scen::Scenario;
use crate::{p_acct, p_comp, p_conc, p_hist, p_io, p_text};

type Gen = fn(&mut Rng, &mut Scenario);
type Exec = fn(&Scenario);
pub struct Info {
	pub id: &'static str,
	gen: Gen,
	exec: Exec,
	quick: u64,
	thorough: u64,
	pub level: &'static str,
	pub rule: &'static str,
	pub states: &'static str,
	pub assume: &'static [&'static str],
}
const SEAMS: &str = "all randomness, scheduling, clock reads, heap addresses and file system calls of the library go through the simulator's seams; threads spawned by the library itself would not be scheduled by it";
const FSMODEL: &str = "the simulated file system resolves paths, links and descriptors like a local POSIX file system";
const TABLE: &[Info] = &[
	Info { id: "C01", gen: p_conc::gen_c01, exec: p_conc::exec_c01, quick: 20000, thorough: 1000000, level: "exploration", rule: "2-4 client threads with seeded programs, schedule (sparse preemptions, dense seeded switching at basic-block/load/store/allocation/IO granularity, or switching at accesses to shared statics), I/O faults and environment; non-trivial: more context switches than threads; distinct by event log", states: "event log (who ran when, which calls, which faults)", assume: &[SEAMS, "memory is sequentially consistent between preemption points; data races in unsafe code are seen only through their effect on results"] },
	Info { id: "C02", gen: p_conc::gen_c02, exec: p_conc::exec_c02, quick: 12000, thorough: 500000, level: "exploration", rule: "seeded single-thread histories of parse/render/clone/lookup/drop calls, each call compared with the same call in a pristine process, under varied hash seeds, heap layouts and clocks; non-trivial: a call preceded by others; distinct by (position, call, result)", states: "result of a call", assume: &[SEAMS] },
	Info { id: "C03", gen: p_io::gen_c03, exec: p_io::exec_c03, quick: 190000, thorough: 8000000, level: "exploration", rule: "seeded file texts, options, path spellings, read sizes, interruptions and metadata sizes; non-trivial: more than two reads or an interruption happened; distinct by (text, plan, path, options)", states: "(outcome kind, number of reads, errors, interruptions, calls)", assume: &[SEAMS, FSMODEL] },
	Info { id: "C04", gen: p_io::gen_c04, exec: p_io::exec_c04, quick: 240000, thorough: 12000000, level: "exploration", rule: "seeded files with hard errors injected at any system call, missing/unreadable/looping paths and invalid UTF-8; non-trivial: at least one failure or interruption reached the library; distinct by (text, plan, path, options)", states: "(outcome kind, number of reads, errors, interruptions, calls)", assume: &[SEAMS, FSMODEL, "allocation failure aborts the process by Rust's design and is not injected"] },
	Info { id: "C05", gen: p_text::gen_c05, exec: p_text::exec_c05, quick: 110000, thorough: 5000000, level: "exploration", rule: "seeded documents damaged by truncation, bit flips, zeroed, lost, duplicated, stale or swapped blocks, parsed under seeded options from memory or through a faulty file, then rendered, cloned, inspected and dropped; non-trivial: a document or a syntax error came back; distinct by (bytes, options)", states: "returned document or error", assume: &[SEAMS, "the search nests up to 3000 levels; nesting deep enough to exhaust the stack is a recorded known finding, probed separately"] },
	Info { id: "C06", gen: p_text::gen_c06, exec: p_text::exec_c06, quick: 75000, thorough: 4500000, level: "exploration", rule: "seeded texts cut at every or many characters, consecutive accepted cuts compared as prefix trees, automatic closing on against off; non-trivial: a pair of accepted cuts was compared; distinct by (cut, text)", states: "outcome at a cut", assume: &[SEAMS] },
	Info { id: "C07", gen: p_text::gen_c07, exec: p_text::exec_c07, quick: 95000, thorough: 6000000, level: "exploration", rule: "seeded failing texts, cut and continued differently, from memory and from a file with seeded read sizes; non-trivial: a continuation of a failing text was compared; distinct by (length, text)", states: "syntax error", assume: &[SEAMS] },
	Info { id: "C08", gen: p_conc::gen_c08, exec: p_conc::exec_c08, quick: 45000, thorough: 4000000, level: "exploration", rule: "seeded call sequences with I/O faults, failing and panicking calls, handles kept and dropped in seeded order, repeated 40 times with fresh text; non-trivial: every sequence; distinct by (texts, calls, faults, drop order)", states: "result of a call", assume: &[SEAMS, "memory kept by one-time initialisation or bounded reuse is not a leak: only growth with repetition is"] },
	Info { id: "C09", gen: p_io::gen_c09, exec: p_io::exec_c09, quick: 210000, thorough: 11000000, level: "exploration", rule: "seeded replace/unlink/relink/rename/chdir events at seeded system calls of one parse; non-trivial: the path denoted more than one thing during the call; distinct by (texts, events, plan)", states: "(what the path denoted, events)", assume: &[SEAMS, FSMODEL] },
	Info { id: "C10", gen: p_hist::gen_c10, exec: p_hist::exec_c10, quick: 250000, thorough: 15000000, level: "exploration", rule: "seeded histories of taking, following and dropping document and node handles against a reachability model; non-trivial: something was dropped while handles remained; distinct by (texts, history)", states: "set of held handles and documents", assume: &[SEAMS] },
	Info { id: "C11", gen: p_hist::gen_c11, exec: p_hist::exec_c11, quick: 280000, thorough: 15000000, level: "exploration", rule: "seeded histories of clones, edits, insertions and moves against model trees; non-trivial: at least one clone and one edit; distinct by (texts, history)", states: "model tree", assume: &[SEAMS, "offsets of nodes that lie before the cloned node's start (assembled trees) are unspecified"] },
	Info { id: "C12", gen: p_hist::gen_c12, exec: p_hist::exec_c12, quick: 270000, thorough: 14000000, level: "exploration", rule: "seeded interleavings of reads with outstanding shared and exclusive borrows of nodes, tag data and the document; non-trivial: a read happened while a guard was held; distinct by (text, history)", states: "(read, exclusive guards, result)", assume: &[SEAMS] },
	Info { id: "C13", gen: p_text::gen_c13, exec: p_text::exec_c13, quick: 230000, thorough: 12000000, level: "exploration", rule: "seeded damaged, cut and faultily delivered texts; every returned tree is walked; non-trivial: the tree has more than two nodes; distinct by (text, options)", states: "returned document", assume: &[SEAMS] },
	Info { id: "C14", gen: p_io::gen_c14, exec: p_io::exec_c14, quick: 240000, thorough: 12000000, level: "exploration", rule: "seeded files under one-byte reads, interruption bursts and hard errors, and long repetitive inputs; non-trivial: more than three reads or an interruption; distinct by (text, plan, path, options)", states: "(outcome kind, number of reads, errors, interruptions, calls)", assume: &[SEAMS, FSMODEL, "work is counted in executed basic blocks, loads and stores of the library plus 16-byte units of bulk copies"] },
	Info { id: "C15", gen: p_text::gen_c15, exec: p_text::exec_c15, quick: 70000, thorough: 3200000, level: "exploration", rule: "seeded texts, damaged and cut anywhere, repaired, saved and reloaded strictly; non-trivial: repair changed the text; distinct by text", states: "repaired text", assume: &[SEAMS] },
	Info { id: "C16", gen: p_text::gen_c13, exec: p_acct::exec_c16, quick: 210000, thorough: 12000000, level: "exploration", rule: "seeded damaged, cut and faultily delivered texts; the source is read from left to right and ticked off against the returned tree; non-trivial: the tree has more than two nodes; distinct by (text, options)", states: "returned document", assume: &[SEAMS] },
	Info { id: "C17", gen: p_acct::gen_c17, exec: p_acct::exec_c17, quick: 7000, thorough: 400000, level: "exploration", rule: "seeded repetitive inputs at four sizes, delivered at once and in pieces with up to tens of thousands of interruptions, then rendered, extracted, cloned, inspected and dropped under the counting allocator; non-trivial: every input; distinct by (text, options, delivery, size)", states: "(outcome kinds, peak memory per operation in steps of 10 kB)", assume: &[SEAMS, FSMODEL, "heap memory is what passes through the global allocator; the stack is not counted"] },
	Info { id: "C18", gen: p_comp::gen_c18, exec: p_comp::exec_c18, quick: 100000, thorough: 8000000, level: "exploration", rule: "seeded parts put one after the other, inside an element, and appended to a file while it is parsed; non-trivial: at least two whole parts were joined; distinct by (parts, options)", states: "joined document", assume: &[SEAMS, FSMODEL] },
];
fn find(p: &str) -> &'static Info {
	TABLE.iter().find(|i| i.id == p).unwrap_or_else(|| {
		eprintln!("unknown property {p}");
		std::process::exit(2)
	})
}
pub fn info(p: &str) -> &'static Info {
	find(p)
}
/// (runs, wall-clock cap in seconds)
pub fn plan(p: &str, tier: &str) -> (u64, f64) {
	let i = find(p);
	if tier == "thorough" {
		(i.thorough, 600.0)
	} else {
		(i.quick, 150.0)
	}
}
pub fn cpu_limit(p: &str) -> u64 {
	if p == "C02" || p == "C01" {
		120
	} else {
		60
	}
}
pub fn generate(p: &str, seed: u64, run: u64) -> Scenario {
	let mut r = Rng::new(hash_bytes(seed, p.as_bytes()) ^ crate::rng::mix(run.wrapping_mul(0x9E37)));
	let mut s = Scenario { prop: p.to_string(), seed, run, ..Default::default() };
	(find(p).gen)(&mut r, &mut s);
	s
}
pub fn exec(s: &Scenario) {
	(find(&s.prop).exec)(s)
}
/// recorded defects of the unchanged tree, each with the one scenario that shows it. A probe that
/// fails is a KNOWN-FINDING if the committed file lists it and a violation otherwise; the search
/// itself never consults the list. Returns (listed findings seen, unlisted failing scenarios).
pub fn known_findings(job: &Job) -> (Vec<String>, Vec<(Scenario, String, String)>) {
	let (mut seen, mut bad) = (vec![], vec![]);
	if job.prop != "C05" {
		return (seen, bad);
	}
	let list = std::fs::read_to_string(&job.known).unwrap_or_default();
	for (op, name) in p_text::DEEP_OPS.iter().enumerate() {
		let s = p_text::deep_scenario(op, job.seed);
		if let Some((c, m)) = crate::orch::verdict(&crate::orch::run_scenario(&s, false)) {
			let id = format!("finding: property=C05 id=deep-nesting-{name} ");
			if list.lines().any(|l| l.starts_with(&id)) {
				seen.push(format!("property=C05 deep-nesting-{name}: an element nested {} levels deep: {name}: {c}", p_text::DEEP));
			} else {
				bad.push((s, c, m));
			}
		}
	}
	(seen, bad)
}
