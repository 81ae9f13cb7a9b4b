//! A scenario is the complete, explicit description of one simulated run: inputs, client programs,
//! schedule, faults, storage mutations and environment. Running it is a pure function of it and the
//! code. Replay files are scenarios in text form.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind {
	Short(u32),
	Eintr,
	Err(i32),
}
impl FaultKind {
	pub fn name(&self) -> String {
		match self {
			FaultKind::Short(_) => "short".into(),
			FaultKind::Eintr => "eintr".into(),
			FaultKind::Err(e) => format!("errno{e}"),
		}
	}
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
	pub tid: u8,
	pub idx: u32,
	pub kind: FaultKind,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
	Replace(String, usize),
	Unlink(String),
	Relink(String, String),
	Chdir(String),
	Rename(String, String),
	Append(String, usize),
}
impl Event {
	pub fn name(&self) -> &'static str {
		match self {
			Event::Replace(..) => "replace",
			Event::Unlink(..) => "unlink",
			Event::Relink(..) => "relink",
			Event::Chdir(..) => "chdir",
			Event::Rename(..) => "rename",
			Event::Append(..) => "append",
		}
	}
}
#[derive(Clone, Debug, PartialEq)]
pub struct FileEnt {
	pub path: String,
	pub kind: char, // f file, u unreadable file, d directory, l symlink
	pub text: usize,
	pub target: String,
	pub lie: Option<u64>,
}
impl FileEnt {
	pub fn file(path: &str, text: usize) -> Self {
		FileEnt { path: path.into(), kind: 'f', text, target: String::new(), lie: None }
	}
}
/// one client step; integer arguments are interpreted modulo what exists, so that steps stay
/// meaningful when others are removed by the minimiser
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
	pub k: char,
	pub a: Vec<i64>,
}
impl Op {
	pub fn new(k: char, a: &[i64]) -> Op {
		Op { k, a: a.to_vec() }
	}
	pub fn g(&self, i: usize) -> usize {
		self.a.get(i).copied().unwrap_or(0).max(0) as usize
	}
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scenario {
	pub prop: String,
	pub seed: u64,
	pub run: u64,
	pub cwd: String,
	pub texts: Vec<Vec<u8>>,
	pub files: Vec<FileEnt>,
	pub progs: Vec<Vec<Op>>,
	pub order: Vec<u8>,
	pub faults: Vec<Fault>,
	pub events: Vec<(u8, u32, Event)>,
	pub sched: Vec<(u64, u8)>,
	pub dense: Option<(u64, u32)>,
	/// preemptions at accesses to shared statics: seed, twice the mean number of accesses
	/// between them, plus one if only stores count
	pub statics: Option<(u64, u32)>,
	pub env: Vec<u64>, // hash seed, heap seed, clock
	pub nums: Vec<i64>,
	pub cuts: Vec<u32>,
	pub path: String,
	/// default for every read: [short read size (0 = none), EINTR on every n-th call (0 = never)]
	pub io: Vec<i64>,
}
fn enc(b: &[u8]) -> String {
	let mut s = String::from("'");
	for c in b {
		match c {
			b'\\' => s.push_str("\\\\"),
			b'\n' => s.push_str("\\n"),
			b'\r' => s.push_str("\\r"),
			b'\t' => s.push_str("\\t"),
			b' ' => s.push_str("\\s"),
			33..=126 => s.push(*c as char),
			_ => {
				let _ = write!(s, "\\x{c:02x}");
			}
		}
	}
	s
}
fn dec(s: &str) -> Vec<u8> {
	let b = s.as_bytes();
	let mut o = vec![];
	let mut i = 1;
	while i < b.len() {
		if b[i] == b'\\' && i + 1 < b.len() {
			i += 1;
			match b[i] {
				b'n' => o.push(b'\n'),
				b'r' => o.push(b'\r'),
				b't' => o.push(b'\t'),
				b's' => o.push(b' '),
				b'x' => {
					o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
					i += 2;
				}
				c => o.push(c),
			}
		} else {
			o.push(b[i]);
		}
		i += 1;
	}
	o
}
fn decs(s: &str) -> String {
	String::from_utf8_lossy(&dec(s)).into_owned()
}
impl Scenario {
	pub fn to_text(&self) -> String {
		let mut s = String::new();
		let _ = writeln!(s, "# rphtml deterministic simulation scenario; run with: /verif/replay.sh <this file>");
		let _ = writeln!(s, "property {}", self.prop);
		let _ = writeln!(s, "seed {} run {}", self.seed, self.run);
		let _ = writeln!(s, "cwd {}", enc(self.cwd.as_bytes()));
		let _ = writeln!(s, "path {}", enc(self.path.as_bytes()));
		for t in &self.texts {
			let _ = writeln!(s, "text {}", enc(t));
		}
		for f in &self.files {
			let lie = f.lie.map(|l| l.to_string()).unwrap_or("-".into());
			let _ = writeln!(s, "file {} {} {} {} {}", enc(f.path.as_bytes()), f.kind, f.text, enc(f.target.as_bytes()), lie);
		}
		for p in &self.progs {
			let _ = writeln!(s, "client");
			for o in p {
				let a: Vec<String> = o.a.iter().map(|x| x.to_string()).collect();
				let _ = writeln!(s, "  op {} {}", o.k, a.join(" "));
			}
		}
		if !self.order.is_empty() {
			let a: Vec<String> = self.order.iter().map(|x| x.to_string()).collect();
			let _ = writeln!(s, "order {}", a.join(" "));
		}
		for f in &self.faults {
			let (k, v) = match f.kind {
				FaultKind::Short(n) => ("short", n as i64),
				FaultKind::Eintr => ("eintr", 0),
				FaultKind::Err(e) => ("err", e as i64),
			};
			let _ = writeln!(s, "fault {} {} {} {}", f.tid, f.idx, k, v);
		}
		for (t, i, e) in &self.events {
			let (a, b, n) = match e {
				Event::Replace(p, n) | Event::Append(p, n) => (p.clone(), String::new(), *n),
				Event::Unlink(p) | Event::Chdir(p) => (p.clone(), String::new(), 0),
				Event::Relink(p, q) | Event::Rename(p, q) => (p.clone(), q.clone(), 0),
			};
			let _ = writeln!(s, "event {} {} {} {} {} {}", t, i, e.name(), enc(a.as_bytes()), enc(b.as_bytes()), n);
		}
		for (a, b) in &self.sched {
			let _ = writeln!(s, "preempt {a} {b}");
		}
		if let Some((a, b)) = self.dense {
			let _ = writeln!(s, "dense {a} {b}");
		}
		if let Some((a, b)) = self.statics {
			let _ = writeln!(s, "statics {a} {b}");
		}
		if !self.env.is_empty() {
			let a: Vec<String> = self.env.iter().map(|x| x.to_string()).collect();
			let _ = writeln!(s, "env {}", a.join(" "));
		}
		if !self.io.is_empty() {
			let a: Vec<String> = self.io.iter().map(|x| x.to_string()).collect();
			let _ = writeln!(s, "io {}", a.join(" "));
		}
		if !self.nums.is_empty() {
			let a: Vec<String> = self.nums.iter().map(|x| x.to_string()).collect();
			let _ = writeln!(s, "nums {}", a.join(" "));
		}
		if !self.cuts.is_empty() {
			let a: Vec<String> = self.cuts.iter().map(|x| x.to_string()).collect();
			let _ = writeln!(s, "cuts {}", a.join(" "));
		}
		s
	}
	pub fn from_text(src: &str) -> Option<Scenario> {
		let mut s = Scenario::default();
		for l in src.lines() {
			let w: Vec<&str> = l.split_whitespace().collect();
			if w.is_empty() || w[0].starts_with('#') {
				continue;
			}
			match w[0] {
				"property" => s.prop = w[1].into(),
				"seed" => {
					s.seed = w[1].parse().ok()?;
					s.run = w[3].parse().ok()?;
				}
				"cwd" => s.cwd = decs(w[1]),
				"path" => s.path = decs(w[1]),
				"text" => s.texts.push(dec(w[1])),
				"file" => s.files.push(FileEnt {
					path: decs(w[1]),
					kind: w[2].chars().next()?,
					text: w[3].parse().ok()?,
					target: decs(w[4]),
					lie: w[5].parse().ok(),
				}),
				"client" => s.progs.push(vec![]),
				"op" => {
					let a = w[2..].iter().filter_map(|x| x.parse().ok()).collect();
					s.progs.last_mut()?.push(Op { k: w[1].chars().next()?, a });
				}
				"order" => s.order = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
				"fault" => {
					let v: i64 = w[4].parse().ok()?;
					let kind = match w[3] {
						"short" => FaultKind::Short(v as u32),
						"eintr" => FaultKind::Eintr,
						_ => FaultKind::Err(v as i32),
					};
					s.faults.push(Fault { tid: w[1].parse().ok()?, idx: w[2].parse().ok()?, kind });
				}
				"event" => {
					let (a, b, n) = (decs(w[4]), decs(w[5]), w[6].parse().ok()?);
					let e = match w[3] {
						"replace" => Event::Replace(a, n),
						"append" => Event::Append(a, n),
						"unlink" => Event::Unlink(a),
						"chdir" => Event::Chdir(a),
						"relink" => Event::Relink(a, b),
						_ => Event::Rename(a, b),
					};
					s.events.push((w[1].parse().ok()?, w[2].parse().ok()?, e));
				}
				"preempt" => s.sched.push((w[1].parse().ok()?, w[2].parse().ok()?)),
				"statics" => s.statics = Some((w[1].parse().ok()?, w[2].parse().ok()?)),
				"dense" => s.dense = Some((w[1].parse().ok()?, w[2].parse().ok()?)),
				"env" => s.env = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
				"cuts" => s.cuts = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
				"io" => s.io = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
				"nums" => s.nums = w[1..].iter().filter_map(|x| x.parse().ok()).collect(),
				_ => {}
			}
		}
		if s.prop.is_empty() {
			None
		} else {
			Some(s)
		}
	}
	pub fn size(&self) -> usize {
		self.texts.iter().map(|t| t.len()).sum::<usize>()
			+ self.progs.iter().map(|p| p.len() * 4).sum::<usize>()
			+ self.faults.len() * 4
			+ self.events.len() * 4
			+ self.sched.len() * 4
			+ self.cuts.len()
			+ self.order.len()
	}
}
/// remove chunks from a list, largest first, keeping every removal after which `fails` still holds
/// set when the time for minimising is used up
pub static SHRINK_STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn stop() -> bool {
	SHRINK_STOP.load(std::sync::atomic::Ordering::Relaxed)
}
fn ddmin<T: Clone>(list: &[T], mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
	let mut cur = list.to_vec();
	let mut chunk = (cur.len() + 1) / 2;
	if !cur.is_empty() && !stop() && fails(&[]) {
		return vec![];
	}
	while chunk >= 1 && !cur.is_empty() && !stop() {
		let mut i = 0;
		let mut removed = false;
		while i < cur.len() && !stop() {
			let mut cand = cur[..i].to_vec();
			cand.extend_from_slice(&cur[(i + chunk).min(cur.len())..]);
			if fails(&cand) {
				cur = cand;
				removed = true;
			} else {
				i += chunk;
			}
		}
		if chunk == 1 && !removed {
			break;
		}
		chunk = if chunk == 1 { 1 } else { chunk / 2 };
	}
	cur
}
/// minimise a failing scenario; `fails` runs a candidate and says whether the same class persists
pub fn shrink(s: &Scenario, mut fails: impl FnMut(&Scenario) -> bool) -> Scenario {
	let mut best = s.clone();
	for _round in 0..3 {
		let before = best.clone();
		macro_rules! list {
			($get:expr, $set:expr) => {{
				let base = best.clone();
				let l = $get(&base);
				let r = ddmin(&l, |c| {
					let mut x = base.clone();
					$set(&mut x, c.to_vec());
					fails(&x)
				});
				$set(&mut best, r);
			}};
		}
		list!(|s: &Scenario| s.sched.clone(), |s: &mut Scenario, v| s.sched = v);
		list!(|s: &Scenario| s.faults.clone(), |s: &mut Scenario, v| s.faults = v);
		list!(|s: &Scenario| s.events.clone(), |s: &mut Scenario, v| s.events = v);
		if best.progs.len() > 1 {
			list!(|s: &Scenario| s.progs.clone(), |s: &mut Scenario, v| s.progs = v);
		}
		for p in 0..best.progs.len() {
			list!(|s: &Scenario| s.progs[p].clone(), |s: &mut Scenario, v| s.progs[p] = v);
		}
		list!(|s: &Scenario| s.order.clone(), |s: &mut Scenario, v| s.order = v);
		list!(|s: &Scenario| s.cuts.clone(), |s: &mut Scenario, v| s.cuts = v);
		// texts: drop spans of characters (bytes when not UTF-8)
		for t in 0..best.texts.len() {
			match String::from_utf8(best.texts[t].clone()) {
				Ok(u) => {
					let chars: Vec<char> = u.chars().collect();
					let base = best.clone();
					let r = ddmin(&chars, |c| {
						let mut x = base.clone();
						x.texts[t] = c.iter().collect::<String>().into_bytes();
						fails(&x)
					});
					best.texts[t] = r.iter().collect::<String>().into_bytes();
				}
				Err(_) => {
					let base = best.clone();
					let r = ddmin(&base.texts[t].clone(), |c| {
						let mut x = base.clone();
						x.texts[t] = c.to_vec();
						fails(&x)
					});
					best.texts[t] = r;
				}
			}
		}
		// simpler arguments
		for p in 0..best.progs.len() {
			for o in 0..best.progs[p].len() {
				for a in 0..best.progs[p][o].a.len() {
					let v = best.progs[p][o].a[a];
					for cand in [0, v & (v - 1).max(0), v / 2] {
						if cand != best.progs[p][o].a[a] && cand >= 0 {
							let mut x = best.clone();
							x.progs[p][o].a[a] = cand;
							if fails(&x) {
								best = x;
							}
						}
					}
				}
			}
		}
		for i in 0..best.nums.len() {
			for cand in [0, best.nums[i] / 2, best.nums[i] - 1] {
				if cand != best.nums[i] && cand >= 0 {
					let mut x = best.clone();
					x.nums[i] = cand;
					if fails(&x) {
						best = x;
					}
				}
			}
		}
		for i in 0..best.io.len() {
			if best.io[i] != 0 {
				let mut x = best.clone();
				x.io[i] = 0;
				if fails(&x) {
					best = x;
				}
			}
		}
		if stop() || best == before {
			break;
		}
	}
	best
}
