//! Process orchestration: every simulated run executes in its own forked process, so every run
//! starts from the same pristine state and a crash of the code under test is just an outcome.
//! The processes that fork never call the library themselves.
use crate::hooks::{self, sys6, ACTIVE, COV, MAXG, NGUARDS, STEPS};
use crate::scen::{shrink, Scenario};
use crate::world;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Default, Clone, Debug)]
pub struct Report {
	pub viol: Option<(String, String)>,
	pub harness: Option<String>,
	pub counts: BTreeMap<String, u64>,
	pub states: Vec<u64>,
	pub evals: u64,
	pub nontrivial: Vec<u64>,
	pub steps: u64,
	pub log: u64,
	pub switches: u64,
	pub rec: Vec<(u64, u8)>,
	pub pairs: Vec<u64>,
	pub cov: Vec<u8>,
	pub out: Vec<String>,
}
// ------------------------------------------------ serialisation
struct W(Vec<u8>);
impl W {
	fn u(&mut self, v: u64) {
		self.0.extend_from_slice(&v.to_le_bytes());
	}
	fn b(&mut self, v: &[u8]) {
		self.u(v.len() as u64);
		self.0.extend_from_slice(v);
	}
}
struct R<'a>(&'a [u8]);
impl R<'_> {
	fn u(&mut self) -> Option<u64> {
		if self.0.len() < 8 {
			return None;
		}
		let (a, b) = self.0.split_at(8);
		self.0 = b;
		Some(u64::from_le_bytes(a.try_into().unwrap()))
	}
	fn b(&mut self) -> Option<Vec<u8>> {
		let n = self.u()? as usize;
		if self.0.len() < n {
			return None;
		}
		let (a, b) = self.0.split_at(n);
		self.0 = b;
		Some(a.to_vec())
	}
	fn s(&mut self) -> Option<String> {
		Some(String::from_utf8_lossy(&self.b()?).into_owned())
	}
}
impl Report {
	fn enc(&self) -> Vec<u8> {
		let mut w = W(vec![]);
		let (a, b) = self.viol.clone().unwrap_or_default();
		w.b(a.as_bytes());
		w.b(b.as_bytes());
		w.b(self.harness.clone().unwrap_or_default().as_bytes());
		w.u(self.counts.len() as u64);
		for (k, v) in &self.counts {
			w.b(k.as_bytes());
			w.u(*v);
		}
		for l in [&self.states, &self.nontrivial, &self.pairs] {
			w.u(l.len() as u64);
			for x in l.iter() {
				w.u(*x);
			}
		}
		w.u(self.evals);
		w.u(self.steps);
		w.u(self.log);
		w.u(self.switches);
		w.u(self.rec.len() as u64);
		for (a, b) in &self.rec {
			w.u(*a);
			w.u(*b as u64);
		}
		w.b(&self.cov);
		w.u(self.out.len() as u64);
		for o in &self.out {
			w.b(o.as_bytes());
		}
		w.0
	}
	fn dec(v: &[u8]) -> Option<Report> {
		let mut r = R(v);
		let mut p = Report::default();
		let (a, b) = (r.s()?, r.s()?);
		if !a.is_empty() {
			p.viol = Some((a, b));
		}
		let h = r.s()?;
		if !h.is_empty() {
			p.harness = Some(h);
		}
		for _ in 0..r.u()? {
			let k = r.s()?;
			let v = r.u()?;
			p.counts.insert(k, v);
		}
		for i in 0..3 {
			let n = r.u()?;
			let l = match i {
				0 => &mut p.states,
				1 => &mut p.nontrivial,
				_ => &mut p.pairs,
			};
			for _ in 0..n {
				l.push(r.u()?);
			}
		}
		p.evals = r.u()?;
		p.steps = r.u()?;
		p.log = r.u()?;
		p.switches = r.u()?;
		for _ in 0..r.u()? {
			let a = r.u()?;
			p.rec.push((a, r.u()? as u8));
		}
		p.cov = r.b()?;
		for _ in 0..r.u()? {
			let s = r.s()?;
			p.out.push(s);
		}
		Some(p)
	}
	/// fold the statistics of a sub-process into this one
	pub fn absorb(&mut self, o: &Report) {
		for (k, v) in &o.counts {
			*self.counts.entry(k.clone()).or_insert(0) += v;
		}
		self.states.extend_from_slice(&o.states);
		self.steps += o.steps;
		if self.cov.len() < o.cov.len() {
			self.cov.resize(o.cov.len(), 0);
		}
		for (i, b) in o.cov.iter().enumerate() {
			self.cov[i] |= b;
		}
	}
}
// ------------------------------------------------ the report of the current process
static mut CUR: *mut Report = std::ptr::null_mut();
static mut OUT_FD: i32 = -1;
pub fn rep() -> &'static mut Report {
	unsafe {
		if CUR.is_null() {
			CUR = Box::into_raw(Box::default());
		}
		&mut *CUR
	}
}
pub fn violation(class: &str, msg: String) {
	let r = rep();
	if r.viol.is_none() {
		let mut m = msg;
		if m.len() > 3000 {
			let mut k = 3000;
			while !m.is_char_boundary(k) {
				k -= 1;
			}
			m.truncate(k);
		}
		r.viol = Some((class.to_string(), m));
	}
}
pub fn failed() -> bool {
	rep().viol.is_some()
}
pub fn bump(k: &str, n: u64) {
	*rep().counts.entry(k.to_string()).or_insert(0) += n;
}
fn write_all(fd: i32, b: &[u8]) {
	let mut o = 0;
	while o < b.len() {
		let n = unsafe { sys6(1, fd as usize, b[o..].as_ptr() as usize, b.len() - o, 0, 0, 0) };
		if n == -4 {
			continue;
		}
		if n <= 0 {
			return;
		}
		o += n as usize;
	}
}
fn finish_report() {
	let r = rep();
	let x = world::w();
	for (k, v) in &x.counts {
		*r.counts.entry(k.clone()).or_insert(0) += v;
	}
	x.counts.clear();
	r.steps += STEPS.load(Relaxed);
	r.log ^= x.log;
	r.switches += x.switches;
	r.rec = x.rec.clone();
	r.pairs.extend_from_slice(&x.pairs);
	let n = (NGUARDS.load(Relaxed) + 1).min(MAXG);
	let mut cov = vec![0u8; n.div_ceil(8)];
	for i in 0..n {
		if unsafe { *COV.ptr().add(i) } != 0 {
			cov[i / 8] |= 1 << (i % 8);
		}
	}
	let mut o = Report { cov, ..Default::default() };
	std::mem::swap(&mut o.cov, &mut r.cov);
	r.absorb(&o);
	let b = r.enc();
	unsafe { write_all(OUT_FD, &b) };
}
pub fn exit_now(code: i32) -> ! {
	unsafe { sys6(231, code as usize, 0, 0, 0, 0, 0) };
	loop {}
}
/// abort this simulated process with a verdict (used where no unwinding is possible)
pub fn child_abort(class: &str, msg: &str) -> ! {
	ACTIVE.set(false);
	violation(class, msg.to_string());
	finish_report();
	exit_now(0)
}
#[derive(Debug, Clone)]
pub enum End {
	Done(Box<Report>),
	Crash(String),
}
pub fn set_cpu_limit(secs: u64) {
	let l = [secs, secs + 2];
	unsafe { sys6(302, 0, 0, l.as_ptr() as usize, 0, 0, 0) };
}
/// run `f` in a forked process and collect its report
pub fn fork_run(cpu: u64, f: impl FnOnce()) -> End {
	let mut fds = [0i32; 2];
	unsafe { sys6(293, fds.as_mut_ptr() as usize, 0, 0, 0, 0, 0) };
	let pid = unsafe { sys6(57, 0, 0, 0, 0, 0, 0) };
	if pid == 0 {
		unsafe {
			sys6(3, fds[0] as usize, 0, 0, 0, 0, 0);
			OUT_FD = fds[1];
			*rep() = Report::default();
		}
		STEPS.store(0, Relaxed);
		set_cpu_limit(cpu);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
		ACTIVE.set(false);
		if r.is_err() {
			rep().harness = Some(format!("simulator panicked: {}", take_panic()));
		}
		finish_report();
		exit_now(0);
	}
	if pid < 0 {
		unsafe {
			sys6(3, fds[0] as usize, 0, 0, 0, 0, 0);
			sys6(3, fds[1] as usize, 0, 0, 0, 0, 0);
		}
		return End::Done(Box::new(Report { harness: Some(format!("fork failed: errno {}", -pid)), ..Default::default() }));
	}
	unsafe { sys6(3, fds[1] as usize, 0, 0, 0, 0, 0) };
	let mut data = vec![];
	let mut buf = vec![0u8; 1 << 16];
	loop {
		let n = unsafe { sys6(0, fds[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
		if n == -4 {
			continue;
		}
		if n <= 0 {
			break;
		}
		data.extend_from_slice(&buf[..n as usize]);
	}
	unsafe { sys6(3, fds[0] as usize, 0, 0, 0, 0, 0) };
	let mut st = 0i32;
	while unsafe { sys6(61, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0) } == -4 {}
	if st & 0x7f != 0 {
		return End::Crash(match st & 0x7f {
			11 | 7 => "crash: stack overflow or invalid memory access (SIGSEGV)".into(),
			6 => "crash: abort (SIGABRT)".into(),
			24 | 9 => "hang: the process used up its CPU limit".into(),
			s => format!("crash: signal {s}"),
		});
	}
	match Report::dec(&data) {
		Some(r) => End::Done(Box::new(r)),
		None => End::Crash(format!("crash: process ended without a report (status {st:#x})")),
	}
}
// ------------------------------------------------ calling the library
thread_local! {
	static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
	static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let was = ACTIVE.replace(false);
		let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = i.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".to_string()
		};
		let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC.with(|p| *p.borrow_mut() = m);
		PANIC_AT.with(|p| *p.borrow_mut() = at);
		ACTIVE.set(was);
	}));
}
pub fn take_panic() -> String {
	format!("{} at {}", PANIC.with(|p| p.borrow().clone()), PANIC_AT.with(|p| p.borrow().clone()))
}
pub fn panic_at() -> String {
	PANIC_AT.with(|p| p.borrow().clone())
}
/// every call into the library goes through here: the seams are active inside
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	ACTIVE.set(true);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
	ACTIVE.set(false);
	match r {
		Ok(v) => Ok(v),
		Err(p) => {
			drop(p);
			Err(PANIC.with(|p| p.borrow().clone()))
		}
	}
}

// ------------------------------------------------ one run
pub fn set_env(s: &Scenario) {
	hooks::HASH_SEED.store(s.env.first().copied().unwrap_or(1), Relaxed);
	hooks::HEAP_SEED.store(s.env.get(1).copied().unwrap_or(0), Relaxed);
	hooks::CLOCK0.store(s.env.get(2).copied().unwrap_or(1_000_000_000), Relaxed);
	hooks::CLOCK_JUMPS.store(s.env.get(3).copied().unwrap_or(0), Relaxed);
}
pub fn run_scenario(s: &Scenario, trace: bool) -> End {
	fork_run(crate::props::cpu_limit(&s.prop), || {
		hooks::fresh_heap();
		if trace {
			world::w().trace = Some(vec![]);
		}
		world::reset(s);
		set_env(s);
		crate::props::exec(s);
		if let Some(t) = &world::w().trace {
			rep().out = t.clone();
		}
	})
}
pub fn verdict(e: &End) -> Option<(String, String)> {
	match e {
		End::Done(r) => r.viol.clone(),
		End::Crash(c) => Some((c.clone(), c.clone())),
	}
}

// ------------------------------------------------ search
#[derive(Default)]
struct Agg {
	runs: u64,
	last_run: u64,
	evals: u64,
	steps: u64,
	switches: u64,
	counts: BTreeMap<String, u64>,
	states: BTreeSet<u64>,
	nontrivial: BTreeSet<u64>,
	pairs: BTreeSet<u64>,
	inter: BTreeSet<u64>,
	cov: Vec<u8>,
	fails: Vec<(u64, String, String, Vec<(u64, u8)>)>,
	harness: Vec<String>,
	samples: Vec<(u64, String)>,
	redo: u64,
	mismatch: u64,
	digest: u64,
}
impl Agg {
	fn enc(&self) -> Vec<u8> {
		let mut w = W(vec![]);
		for v in [self.runs, self.last_run, self.evals, self.steps, self.switches, self.redo, self.mismatch, self.digest] {
			w.u(v);
		}
		w.u(self.counts.len() as u64);
		for (k, v) in &self.counts {
			w.b(k.as_bytes());
			w.u(*v);
		}
		for l in [&self.states, &self.nontrivial, &self.pairs, &self.inter] {
			w.u(l.len() as u64);
			for x in l.iter() {
				w.u(*x);
			}
		}
		w.b(&self.cov);
		w.u(self.fails.len() as u64);
		for (r, c, m, rec) in &self.fails {
			w.u(*r);
			w.b(c.as_bytes());
			w.b(m.as_bytes());
			w.u(rec.len() as u64);
			for (a, b) in rec {
				w.u(*a);
				w.u(*b as u64);
			}
		}
		w.u(self.harness.len() as u64);
		for h in &self.harness {
			w.b(h.as_bytes());
		}
		w.u(self.samples.len() as u64);
		for (r, h) in &self.samples {
			w.u(*r);
			w.b(h.as_bytes());
		}
		w.0
	}
	fn merge(&mut self, d: &[u8]) -> Option<()> {
		let mut r = R(d);
		self.runs += r.u()?;
		self.last_run = self.last_run.max(r.u()?);
		self.evals += r.u()?;
		self.steps += r.u()?;
		self.switches += r.u()?;
		self.redo += r.u()?;
		self.mismatch += r.u()?;
		self.digest ^= r.u()?;
		for _ in 0..r.u()? {
			let k = r.s()?;
			let v = r.u()?;
			*self.counts.entry(k).or_insert(0) += v;
		}
		for i in 0..4 {
			let n = r.u()?;
			let l = match i {
				0 => &mut self.states,
				1 => &mut self.nontrivial,
				2 => &mut self.pairs,
				_ => &mut self.inter,
			};
			for _ in 0..n {
				l.insert(r.u()?);
			}
		}
		let c = r.b()?;
		if self.cov.len() < c.len() {
			self.cov.resize(c.len(), 0);
		}
		for (i, b) in c.iter().enumerate() {
			self.cov[i] |= b;
		}
		for _ in 0..r.u()? {
			let n = r.u()?;
			let (c, m) = (r.s()?, r.s()?);
			let mut rec = vec![];
			for _ in 0..r.u()? {
				let a = r.u()?;
				rec.push((a, r.u()? as u8));
			}
			self.fails.push((n, c, m, rec));
		}
		for _ in 0..r.u()? {
			self.harness.push(r.s()?);
		}
		for _ in 0..r.u()? {
			let a = r.u()?;
			self.samples.push((a, r.s()?));
		}
		Some(())
	}
}
fn now() -> f64 {
	let mut ts = [0i64; 2];
	unsafe { sys6(228, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
	ts[0] as f64 + ts[1] as f64 * 1e-9
}
pub struct Job {
	pub prop: String,
	pub tier: String,
	pub seed: u64,
	pub runs: u64,
	pub wall: f64,
	pub workers: u64,
	pub evidence: Option<String>,
	pub replays: String,
	pub known: String,
	pub exe: String,
	pub keep_going: bool,
	pub first: u64,
}
fn worker(job: &Job, id: u64, stop: &AtomicU64, t0: f64) -> Vec<u8> {
	let mut a = Agg::default();
	let mut i = job.first + id;
	while i < job.first + job.runs {
		if i > stop.load(Relaxed) || now() - t0 > job.wall {
			break;
		}
		let s = crate::props::generate(&job.prop, job.seed, i);
		let e = run_scenario(&s, false);
		a.runs += 1;
		a.last_run = i;
		let mut log = 0;
		match &e {
			End::Done(r) => {
				log = r.log;
				if let Some(h) = &r.harness {
					a.harness.push(format!("run {i}: {h}"));
				}
				a.evals += r.evals;
				a.steps += r.steps;
				a.switches += r.switches;
				for (k, v) in &r.counts {
					*a.counts.entry(k.clone()).or_insert(0) += v;
				}
				if a.states.len() < 400_000 {
					a.states.extend(r.states.iter());
				}
				if a.nontrivial.len() < 400_000 {
					a.nontrivial.extend(r.nontrivial.iter());
				}
				a.pairs.extend(r.pairs.iter());
				if r.switches > 0 {
					a.inter.insert(r.log);
				}
				if a.cov.len() < r.cov.len() {
					a.cov.resize(r.cov.len(), 0);
				}
				for (k, b) in r.cov.iter().enumerate() {
					a.cov[k] |= b;
				}
				if a.samples.len() < 2 && !r.nontrivial.is_empty() {
					let t = s.to_text();
					if t.len() < 1500 {
						a.samples.push((i, t));
					}
				}
			}
			End::Crash(_) => {}
		}
		a.digest ^= crate::rng::mix(log ^ crate::rng::mix(i));
		let v = verdict(&e);
		// determinism self-check: a sample of runs is executed twice
		if i % 61 == 7 {
			let e2 = run_scenario(&s, false);
			a.redo += 1;
			let same = match (&e, &e2) {
				(End::Done(x), End::Done(y)) => x.log == y.log && x.viol == y.viol && x.steps == y.steps && x.states == y.states,
				(End::Crash(x), End::Crash(y)) => x == y,
				_ => false,
			};
			if !same {
				a.mismatch += 1;
				eprintln!("determinism mismatch: property {} seed {} run {}", job.prop, job.seed, i);
			}
		}
		if let Some((c, m)) = v {
			let rec = match &e {
				End::Done(r) => r.rec.clone(),
				_ => vec![],
			};
			a.fails.push((i, c, m, rec));
			if !job.keep_going {
				stop.fetch_min(i, Relaxed);
			}
			if a.fails.len() > 2000 {
				break;
			}
		}
		if a.harness.len() > 5 {
			break;
		}
		i += job.workers;
	}
	a.enc()
}
fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
/// returns the exit code
pub fn check(job: &Job) -> i32 {
	let t0 = now();
	let shared = unsafe { sys6(9, 0, 4096, 3, 0x21, usize::MAX, 0) } as *const AtomicU64;
	let stop = unsafe { &*shared };
	stop.store(u64::MAX, Relaxed);
	let mut kids = vec![];
	for id in 0..job.workers {
		let mut fds = [0i32; 2];
		unsafe { sys6(293, fds.as_mut_ptr() as usize, 0, 0, 0, 0, 0) };
		let pid = unsafe { sys6(57, 0, 0, 0, 0, 0, 0) };
		if pid == 0 {
			let b = worker(job, id, stop, t0);
			write_all(fds[1], &b);
			exit_now(0);
		}
		unsafe { sys6(3, fds[1] as usize, 0, 0, 0, 0, 0) };
		kids.push((pid, fds[0]));
	}
	let mut a = Agg::default();
	let mut bad = vec![];
	for (pid, fd) in kids {
		let mut data = vec![];
		let mut buf = vec![0u8; 1 << 18];
		loop {
			let n = unsafe { sys6(0, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
			if n == -4 {
				continue;
			}
			if n <= 0 {
				break;
			}
			data.extend_from_slice(&buf[..n as usize]);
		}
		unsafe { sys6(3, fd as usize, 0, 0, 0, 0, 0) };
		let mut st = 0i32;
		while unsafe { sys6(61, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0) } == -4 {}
		if a.merge(&data).is_none() {
			bad.push(format!("worker process failed (status {st:#x})"));
		}
	}
	let search = now() - t0;
	a.fails.sort_by_key(|f| f.0);
	a.harness.extend(bad);
	if job.keep_going {
		let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
		for (i, c, m, _) in &a.fails {
			let e = by.entry(c.clone()).or_insert((0, *i, m.clone()));
			e.0 += 1;
		}
		for (c, (n, i, m)) in &by {
			println!("CLASS {c}: {n} runs, first run {i}: {m}");
		}
	}
	let mut code = 0;
	let mut viols = 0;
	if let Some((i, class, msg, rec)) = a.fails.first().cloned() {
		viols = 1;
		code = report_violation(job, i, &class, &msg, &rec);
	}
	for h in &a.harness {
		eprintln!("simulator error: {h}");
	}
	if code == 0 && !a.harness.is_empty() {
		code = 2;
	}
	let (known, unlisted) = crate::props::known_findings(job);
	for k in &known {
		println!("KNOWN-FINDING: {k}");
	}
	if viols == 0 {
		if let Some((s, c, m)) = unlisted.first() {
			println!("violation class '{c}': {m}");
			viols = 1;
			code = save_violation(job, s, s, 0, &format!("{}/{}-probe.txt", job.replays, job.prop));
		}
	}
	if let Some(p) = &job.evidence {
		let (cov_hit, cov_all) = (a.cov.iter().map(|b| b.count_ones() as u64).sum::<u64>(), NGUARDS.load(Relaxed) as u64);
		let info = crate::props::info(&job.prop);
		let faults: Vec<String> = a.counts.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
		a.samples.sort_by_key(|s| s.0);
		let samples: Vec<String> = a.samples.iter().take(4).map(|(i, t)| format!("{{\"run\": {i}, \"scenario\": {}}}", json_str(t))).collect();
		let ev = format!(
			"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"runs_per_hour\": {},\n  \"simulated_steps\": {},\n  \"simulated_time\": \"one step = one executed basic block, load, store, allocation or system call inside the library; the simulated clock advances 10 ns per step\",\n  \"simulated_seconds\": {:.6},\n  \"counters\": {{{}}},\n  \"context_switches\": {},\n  \"distinct_interleavings\": {},\n  \"distinct_preemption_sites\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \"library_blocks_reached\": {},\n  \"library_blocks_total\": {},\n  \"runs_executed_twice\": {},\n  \"determinism_mismatches\": {},\n  \"digest\": \"{:016x}\",\n  \"real_components\": [\"rphtml (all of src/)\", \"htmlentity\", \"lazy_static\", \"std BufReader/File/Mutex/Once/HashMap code\"],\n  \"stub_components\": [\"kernel file system, working directory and path resolution\", \"futex, scheduler, clock, sleep\", \"random seed source\", \"heap allocator\"],\n  \"known_findings\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
			json_str(&job.prop), json_str(&job.tier), job.seed, json_str(info.level), a.evals, a.nontrivial.len(), json_str(info.rule), samples.join(", "),
			a.runs, (a.runs as f64 / search.max(0.001) * 3600.0) as u64, a.steps, a.steps as f64 * 1e-8, faults.join(", "), a.switches, a.inter.len(), a.pairs.len(), a.states.len(),
			json_str(info.states), cov_hit, cov_all, a.redo, a.mismatch, a.digest,
			known.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", "),
			info.assume.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", "),
			now() - t0, viols
		);
		if std::fs::write(p, ev).is_err() {
			eprintln!("cannot write {p}");
			if code == 0 {
				code = 2;
			}
		}
	}
	println!("property={} runs={} evaluations={} distinct_nontrivial={} steps={} wall={:.1}s violations={} determinism_mismatches={}", job.prop, a.runs, a.evals, a.nontrivial.len(), a.steps, now() - t0, viols, a.mismatch);
	if viols > 0 && code == 0 {
		code = 2;
	}
	code
}
fn report_violation(job: &Job, run: u64, class: &str, msg: &str, rec: &[(u64, u8)]) -> i32 {
	let mut s = crate::props::generate(&job.prop, job.seed, run);
	println!("violation class '{class}' in run {run} (seed {}): {msg}", job.seed);
	let t0 = now();
	if s.dense.is_some() || s.statics.is_some() {
		// turn the seeded scheduler into its explicit list of preemptions
		let mut x = s.clone();
		x.dense = None;
		x.statics = None;
		x.sched = rec.to_vec();
		if verdict(&run_scenario(&x, false)).map(|v| v.0).as_deref() == Some(class) {
			s = x;
		}
	}
	let mut evals = 0;
	crate::scen::SHRINK_STOP.store(false, Relaxed);
	let limit = if job.tier == "quick" { 25.0 } else { 120.0 };
	let small = shrink(&s, |c| {
		evals += 1;
		if evals > 4000 || now() - t0 > limit {
			crate::scen::SHRINK_STOP.store(true, Relaxed);
			return false;
		}
		verdict(&run_scenario(c, false)).map(|v| v.0).as_deref() == Some(class)
	});
	save_violation(job, &s, &small, evals, &format!("{}/{}-seed{}-run{}.txt", job.replays, job.prop, job.seed, run))
}
fn save_violation(job: &Job, s: &Scenario, small: &Scenario, evals: u64, path: &str) -> i32 {
	let _ = std::fs::create_dir_all(&job.replays);
	let e1 = run_scenario(small, false);
	let e2 = run_scenario(small, false);
	let (v1, v2) = (verdict(&e1), verdict(&e2));
	let mut text = small.to_text();
	if let Some((c, m)) = &v1 {
		text.push_str(&format!("# violation class: {c}\n"));
		for l in m.lines() {
			text.push_str(&format!("# {l}\n"));
		}
	}
	text.push_str(&format!("# minimised from size {} to {} in {} simulated runs\n", s.size(), small.size(), evals));
	if std::fs::write(path, text).is_err() {
		eprintln!("cannot write {path}");
	}
	// confirm in a fresh process
	let fresh = std::process::Command::new(&job.exe).arg("replay").arg(path).output();
	let ok = matches!(&fresh, Ok(o) if o.status.code() == Some(1));
	if v1.is_none() || v1 != v2 || !ok {
		eprintln!("warning: replay did not reproduce identically: {v1:?} / {v2:?} / fresh process ok={ok}");
	}
	if v1.is_none() && !ok {
		return 2;
	}
	if let Some((_, m)) = v1 {
		println!("minimised ({} runs): {}", evals, m);
	}
	println!("VIOLATION property={} replay={}", job.prop, path);
	1
}
