//! The simulated world: filesystem with fault plan and concurrent mutator, futexes, and the
//! one-thread-at-a-time scheduler. All of it is driven by the scenario, never by real time.
use crate::hooks::{self, NEXT, STEPS, STEP_LIMIT, TID, VFD};
use crate::rng::{hash_bytes, Rng};
use crate::scen::{Event, Fault, FaultKind, Scenario};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering, Ordering::Relaxed};

pub const MAXT: usize = 8;
pub const EINTR: i32 = 4;
pub const ENOENT: i32 = 2;
pub const EACCES: i32 = 13;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const ELOOP: i32 = 40;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum CallKind {
	Open,
	Read,
	Close,
	Stat,
	Lseek,
	Getcwd,
	Realpath,
	Other,
}

#[derive(Clone, Debug)]
pub enum Node {
	File(Vec<u8>),
	Dir(BTreeMap<Vec<u8>, usize>, usize),
	Link(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Inode {
	pub node: Node,
	pub readable: bool,
	pub size_lie: Option<u64>,
	/// index of the text this file holds (version id), if any
	pub text: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct OpenFile {
	pub ino: usize,
	pub pos: usize,
	pub seekable: bool,
}
/// what one library call saw of the world
#[derive(Clone, Default, Debug)]
pub struct Obs {
	pub errors: Vec<(CallKind, i32)>,
	pub eintr: u64,
	pub reads: u64,
	pub reads_ok: u64,
	pub bytes: u64,
	pub eof_reads: u64,
	pub reads_after_end: u64,
	pub opens: u64,
	pub open_attempts: u64,
	pub calls: u64,
	pub delivered: Vec<u8>,
	pub first_opened: Option<usize>,
	/// inodes (Ok) or errors the path resolved to during the call
	pub denoted: Vec<Result<usize, i32>>,
	pub path: Vec<u8>,
	pub destructive: Vec<String>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
	Runnable,
	Blocked(usize, Option<u64>),
	Done,
}
#[derive(Default)]
pub struct World {
	pub inodes: Vec<Inode>,
	pub cwd: usize,
	pub fds: Vec<Option<OpenFile>>,
	pub call_idx: [u32; MAXT],
	pub short_all: u32,
	pub eintr_every: u32,
	pub burst: u32,
	pub faults: BTreeMap<(usize, u32), FaultKind>,
	pub events: Vec<(usize, u32, Event)>,
	pub texts: Vec<Vec<u8>>,
	pub obs: Vec<Obs>,
	pub counts: BTreeMap<String, u64>,
	pub log: u64,
	pub trace: Option<Vec<String>>,
	// scheduler
	pub nthreads: usize,
	state: Vec<TState>,
	cur: usize,
	plan: Vec<(u64, u8)>,
	pos: usize,
	dense: Option<(Rng, u32)>,
	statics: Option<(Rng, u32)>,
	pub rec: Vec<(u64, u8)>,
	pub switches: u64,
	pub blocks: u64,
	pub pairs: Vec<u64>,
	woken: [bool; MAXT],
}
static mut WORLD: *mut World = std::ptr::null_mut();
static TOK: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
	unsafe {
		if WORLD.is_null() {
			WORLD = Box::into_raw(Box::new(World::default()));
		}
		&mut *WORLD
	}
}
pub fn count(k: &str) {
	*w().counts.entry(k.to_string()).or_insert(0) += 1;
}
pub fn count_env(k: &'static str) {
	let was = hooks::ACTIVE.replace(false);
	count(k);
	hooks::ACTIVE.set(was);
}
fn log(s: &str) {
	let x = w();
	x.log = hash_bytes(x.log, s.as_bytes());
	if let Some(t) = &mut x.trace {
		t.push(s.to_string());
	}
}
pub fn log_event(s: &str) {
	log(s)
}

// ---------------------------------------------------------------- setup
impl World {
	fn add(&mut self, node: Node) -> usize {
		self.inodes.push(Inode { node, readable: true, size_lie: None, text: None });
		self.inodes.len() - 1
	}
	fn mkdirs(&mut self, comps: &[&[u8]]) -> usize {
		let mut d = 0;
		for c in comps {
			let next = match &self.inodes[d].node {
				Node::Dir(m, _) => m.get(*c).copied(),
				_ => None,
			};
			d = match next {
				Some(n) => n,
				None => {
					let n = self.add(Node::Dir(BTreeMap::new(), d));
					if let Node::Dir(m, _) = &mut self.inodes[d].node {
						m.insert(c.to_vec(), n);
					}
					n
				}
			};
		}
		d
	}
	fn place(&mut self, path: &[u8], ino: Option<usize>) {
		let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
		if comps.is_empty() {
			return;
		}
		let d = self.mkdirs(&comps[..comps.len() - 1]);
		let name = comps[comps.len() - 1].to_vec();
		if let Node::Dir(m, _) = &mut self.inodes[d].node {
			match ino {
				Some(i) => {
					m.insert(name, i);
				}
				None => {
					m.remove(&name);
				}
			}
		}
	}
	fn new_file(&mut self, text: usize) -> usize {
		let data = self.texts.get(text).cloned().unwrap_or_default();
		let i = self.add(Node::File(data));
		self.inodes[i].text = Some(text);
		i
	}
}
pub fn reset(s: &Scenario) {
	let x = w();
	let trace = x.trace.is_some();
	*x = World::default();
	if trace {
		x.trace = Some(vec![]);
	}
	x.log = 0x1234_5678;
	x.texts = s.texts.clone();
	x.inodes.push(Inode { node: Node::Dir(BTreeMap::new(), 0), readable: true, size_lie: None, text: None });
	x.obs = vec![Obs::default(); MAXT];
	let comps: Vec<&[u8]> = s.cwd.as_bytes().split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
	x.cwd = x.mkdirs(&comps);
	for f in &s.files {
		let ino = match f.kind {
			'f' | 'u' => x.new_file(f.text),
			'd' => {
				let comps: Vec<&[u8]> = f.path.as_bytes().split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
				x.mkdirs(&comps);
				continue;
			}
			_ => x.add(Node::Link(f.target.as_bytes().to_vec())),
		};
		if f.kind == 'u' {
			x.inodes[ino].readable = false;
		}
		x.inodes[ino].size_lie = f.lie;
		x.place(f.path.as_bytes(), Some(ino));
	}
	for Fault { tid, idx, kind } in &s.faults {
		x.faults.insert((*tid as usize, *idx), kind.clone());
	}
	x.short_all = s.io.first().copied().unwrap_or(0).max(0) as u32;
	x.eintr_every = s.io.get(1).copied().unwrap_or(0).max(0) as u32;
	x.events = s.events.iter().map(|(t, i, e)| (*t as usize, *i, e.clone())).collect();
	x.plan = s.sched.clone();
	x.plan.sort_by_key(|p| p.0);
	crate::hooks::SHARED_LEFT.store(0, Relaxed);
	x.statics = s.statics.map(|(seed, mean)| (Rng::new(seed), mean));
	x.dense = s.dense.map(|(seed, mean)| (Rng::new(seed), mean));
}

// ---------------------------------------------------------------- path resolution
fn lookup(path: &[u8], follow_last: bool) -> Result<usize, i32> {
	let x = w();
	if path.is_empty() {
		return Err(ENOENT);
	}
	if path.len() > 4095 {
		return Err(36);
	}
	let mut stack: Vec<Vec<u8>> = path.split(|c| *c == b'/').rev().map(|c| c.to_vec()).collect();
	let mut d = if path[0] == b'/' { 0 } else { x.cwd };
	let mut links = 0;
	while let Some(c) = stack.pop() {
		if c.is_empty() || c == b"." {
			// a trailing slash or dot requires a directory
			if !matches!(x.inodes[d].node, Node::Dir(..)) {
				return Err(ENOTDIR);
			}
			continue;
		}
		if c.len() > 255 {
			return Err(36);
		}
		let (m, parent) = match &x.inodes[d].node {
			Node::Dir(m, p) => (m, *p),
			_ => return Err(ENOTDIR),
		};
		if !x.inodes[d].readable {
			return Err(EACCES);
		}
		if c == b".." {
			d = parent;
			continue;
		}
		let n = *m.get(&c).ok_or(ENOENT)?;
		if let Node::Link(t) = &x.inodes[n].node {
			if stack.is_empty() && !follow_last {
				return Ok(n);
			}
			links += 1;
			if links > 40 {
				return Err(ELOOP);
			}
			if t.first() == Some(&b'/') {
				d = 0;
			}
			stack.extend(t.split(|c| *c == b'/').rev().map(|c| c.to_vec()));
			continue;
		}
		d = n;
	}
	Ok(d)
}
fn path_of_ino(target: usize) -> Option<Vec<u8>> {
	fn go(x: &World, d: usize, target: usize, acc: &mut Vec<u8>) -> bool {
		if d == target {
			return true;
		}
		if let Node::Dir(m, _) = &x.inodes[d].node {
			for (k, v) in m {
				if matches!(x.inodes[*v].node, Node::Link(_)) {
					continue;
				}
				let l = acc.len();
				acc.push(b'/');
				acc.extend_from_slice(k);
				if go(x, *v, target, acc) {
					return true;
				}
				acc.truncate(l);
			}
		}
		false
	}
	let mut acc = vec![];
	if go(w(), 0, target, &mut acc) {
		if acc.is_empty() {
			acc.push(b'/');
		}
		Some(acc)
	} else {
		None
	}
}

// ---------------------------------------------------------------- observation of one library call
pub fn begin_call(path: &[u8]) {
	let t = TID.get();
	let denoted = vec![lookup(path, true)];
	w().obs[t] = Obs { path: path.to_vec(), denoted, ..Default::default() };
}
pub fn end_call() -> Obs {
	std::mem::take(&mut w().obs[TID.get()])
}
fn note_denotation() {
	for t in 0..MAXT {
		let p = w().obs[t].path.clone();
		if !p.is_empty() {
			let d = lookup(&p, true);
			let o = &mut w().obs[t];
			if !o.denoted.contains(&d) {
				o.denoted.push(d);
			}
		}
	}
}
fn apply_event(e: &Event) {
	let x = w();
	match e {
		Event::Replace(p, text) => {
			let i = x.new_file(*text);
			x.place(p.as_bytes(), Some(i));
		}
		Event::Append(p, text) => {
			let more = x.texts.get(*text).cloned().unwrap_or_default();
			if let Ok(i) = lookup(p.as_bytes(), true) {
				if let Node::File(d) = &mut w().inodes[i].node {
					d.extend_from_slice(&more);
				}
			}
		}
		Event::Unlink(p) => x.place(p.as_bytes(), None),
		Event::Relink(p, t) => {
			let i = x.add(Node::Link(t.as_bytes().to_vec()));
			x.place(p.as_bytes(), Some(i));
		}
		Event::Chdir(p) => {
			if let Ok(d) = lookup(p.as_bytes(), true) {
				if matches!(x.inodes[d].node, Node::Dir(..)) {
					x.cwd = d;
				}
			}
		}
		Event::Rename(a, b) => {
			if let Ok(i) = lookup(a.as_bytes(), false) {
				x.place(a.as_bytes(), None);
				x.place(b.as_bytes(), Some(i));
			}
		}
	}
	count(&format!("event_{}", e.name()));
}
/// forget call counters so that the same plan applies again
pub fn rewind() {
	let x = w();
	x.call_idx = [0; MAXT];
}
pub fn clear_faults() {
	let x = w();
	x.faults.clear();
	x.events.clear();
	x.short_all = 0;
	x.eintr_every = 0;
}
/// from now on reads return at most `short` bytes, every `eintr`-th call and the next `burst` reads are interrupted
pub fn deliver(short: u32, eintr: u32, burst: u32) {
	let x = w();
	x.short_all = short;
	x.eintr_every = eintr;
	x.burst = burst;
}
/// every simulated system call comes through here: mutator events, then the planned fault
fn enter(kind: CallKind) -> Option<FaultKind> {
	let t = TID.get();
	let x = w();
	let idx = x.call_idx[t];
	x.call_idx[t] += 1;
	x.obs[t].calls += 1;
	let evs: Vec<Event> = x.events.iter().filter(|e| e.0 == t && e.1 == idx).map(|e| e.2.clone()).collect();
	for e in &evs {
		apply_event(e);
		log(&format!("event t{t} #{idx} {}", e.name()));
	}
	if !evs.is_empty() {
		note_denotation();
	}
	let mut f = x.faults.get(&(t, idx)).cloned();
	if f.is_none() && kind == CallKind::Read {
		if x.burst > 0 {
			x.burst -= 1;
			f = Some(FaultKind::Eintr);
		} else if x.eintr_every > 1 && idx % x.eintr_every == x.eintr_every - 1 {
			f = Some(FaultKind::Eintr);
		} else if x.short_all > 0 {
			f = Some(FaultKind::Short(x.short_all));
		}
	}
	let f = match (&f, kind) {
		(Some(FaultKind::Short(_)), CallKind::Read) => f,
		(Some(FaultKind::Eintr), CallKind::Read | CallKind::Open) => f,
		(Some(FaultKind::Err(_)), k) if k != CallKind::Other => f,
		_ => None,
	};
	if let Some(f) = &f {
		count(&format!("fault_{}_{}", hooks::kind_name(kind), f.name()));
	}
	f
}
fn fail(kind: CallKind, e: i32) -> i32 {
	let o = &mut w().obs[TID.get()];
	if e == EINTR {
		o.eintr += 1;
	} else {
		o.errors.push((kind, e));
	}
	e
}
fn fault_errno(f: &Option<FaultKind>) -> Option<i32> {
	match f {
		Some(FaultKind::Err(e)) => Some(*e),
		Some(FaultKind::Eintr) => Some(EINTR),
		_ => None,
	}
}

// ---------------------------------------------------------------- file calls
pub fn open(path: &[u8], flags: i32) -> i32 {
	let f = enter(CallKind::Open);
	let x = w();
	let t = TID.get();
	x.obs[t].open_attempts += 1;
	if flags & 3 != 0 || flags & (0o100 | 0o1000) != 0 {
		destructive("open-for-write");
		return -fail(CallKind::Open, EACCES);
	}
	if let Some(e) = fault_errno(&f) {
		log(&format!("open t{t} -> errno {e}"));
		return -fail(CallKind::Open, e);
	}
	match lookup(path, true) {
		Ok(i) if !x.inodes[i].readable => -fail(CallKind::Open, EACCES),
		Ok(i) => {
			if x.obs[t].first_opened.is_none() {
				x.obs[t].first_opened = Some(i);
			}
			x.obs[t].opens += 1;
			let of = OpenFile { ino: i, pos: 0, seekable: x.inodes[i].size_lie.is_none() };
			let fd = match x.fds.iter().position(|f| f.is_none()) {
				Some(k) => {
					x.fds[k] = Some(of);
					k
				}
				None => {
					x.fds.push(Some(of));
					x.fds.len() - 1
				}
			};
			log(&format!("open t{t} ino{i} -> {fd}"));
			VFD + fd as i32
		}
		Err(e) => {
			log(&format!("open t{t} -> errno {e}"));
			-fail(CallKind::Open, e)
		}
	}
}
pub fn read(fd: i32, buf: &mut [u8], at: Option<u64>) -> isize {
	let f = enter(CallKind::Read);
	let t = TID.get();
	let x = w();
	x.obs[t].reads += 1;
	let (ino, pos) = match x.fds.get(fd as usize) {
		Some(Some(o)) => (o.ino, at.map(|a| a as usize).unwrap_or(o.pos)),
		_ => return -(fail(CallKind::Read, 9) as isize),
	};
	let ended = x.obs[t].eof_reads > 0 || x.obs[t].errors.iter().any(|e| e.0 == CallKind::Read);
	if ended {
		x.obs[t].reads_after_end += 1;
	}
	if let Some(e) = fault_errno(&f) {
		log(&format!("read t{t} -> errno {e}"));
		return -(fail(CallKind::Read, e) as isize);
	}
	let data = match &x.inodes[ino].node {
		Node::File(d) => d,
		_ => return -(fail(CallKind::Read, EISDIR) as isize),
	};
	let mut n = data.len().saturating_sub(pos).min(buf.len());
	if let Some(FaultKind::Short(k)) = f {
		n = n.min((k as usize).max(1));
	}
	if n > 0 {
		buf[..n].copy_from_slice(&data[pos..pos + n]);
	}
	if at.is_none() {
		if let Some(Some(o)) = x.fds.get_mut(fd as usize) {
			o.pos += n;
		}
		x.obs[t].delivered.extend_from_slice(&buf[..n]);
	}
	x.obs[t].bytes += n as u64;
	if n == 0 && !buf.is_empty() {
		x.obs[t].eof_reads += 1;
	} else {
		x.obs[t].reads_ok += 1;
	}
	log(&format!("read t{t} -> {n}"));
	n as isize
}
pub fn close(fd: i32) -> i32 {
	let f = enter(CallKind::Close);
	let x = w();
	match x.fds.get_mut(fd as usize) {
		Some(s @ Some(_)) => *s = None,
		_ => return -9,
	}
	log(&format!("close {fd}"));
	match fault_errno(&f) {
		Some(e) => -e,
		None => 0,
	}
}
pub fn dup(fd: i32) -> i32 {
	let x = w();
	match x.fds.get(fd as usize).cloned().flatten() {
		Some(o) => {
			x.fds.push(Some(o));
			VFD + x.fds.len() as i32 - 1
		}
		None => -9,
	}
}
fn meta(i: usize) -> (u32, u64, u64) {
	let n = &w().inodes[i];
	match &n.node {
		Node::File(d) => (0o100644, n.size_lie.unwrap_or(d.len() as u64), i as u64),
		Node::Dir(..) => (0o040755, 4096, i as u64),
		Node::Link(t) => (0o120777, t.len() as u64, i as u64),
	}
}
pub fn fstat(fd: i32) -> Result<(u32, u64, u64), i32> {
	let f = enter(CallKind::Stat);
	if let Some(e) = fault_errno(&f) {
		return Err(fail(CallKind::Stat, e));
	}
	match w().fds.get(fd as usize) {
		Some(Some(o)) => Ok(meta(o.ino)),
		_ => Err(9),
	}
}
pub fn stat(path: &[u8], follow: bool) -> Result<(u32, u64, u64), i32> {
	let f = enter(CallKind::Stat);
	if let Some(e) = fault_errno(&f) {
		return Err(fail(CallKind::Stat, e));
	}
	lookup(path, follow).map(meta).map_err(|e| fail(CallKind::Stat, e))
}
pub fn lseek(fd: i32, off: i64, wh: i32) -> i64 {
	let f = enter(CallKind::Lseek);
	if let Some(e) = fault_errno(&f) {
		return -(fail(CallKind::Lseek, e) as i64);
	}
	let x = w();
	let len = match x.fds.get(fd as usize) {
		Some(Some(o)) if !o.seekable => return -29,
		Some(Some(o)) => match &x.inodes[o.ino].node {
			Node::File(d) => d.len() as i64,
			_ => 0,
		},
		_ => return -9,
	};
	if let Some(Some(o)) = x.fds.get_mut(fd as usize) {
		let p = match wh {
			0 => off,
			1 => o.pos as i64 + off,
			_ => len + off,
		};
		if p < 0 {
			return -22;
		}
		o.pos = p as usize;
		return p;
	}
	-9
}
pub fn getcwd() -> Result<Vec<u8>, i32> {
	let f = enter(CallKind::Getcwd);
	if let Some(e) = fault_errno(&f) {
		log(&format!("getcwd -> errno {e}"));
		return Err(fail(CallKind::Getcwd, e));
	}
	let r = path_of_ino(w().cwd).ok_or(ENOENT).map_err(|e| fail(CallKind::Getcwd, e));
	log(&format!("getcwd -> {r:?}"));
	r
}
pub fn realpath(path: &[u8]) -> Result<Vec<u8>, i32> {
	let f = enter(CallKind::Realpath);
	if let Some(e) = fault_errno(&f) {
		log(&format!("realpath -> errno {e}"));
		return Err(fail(CallKind::Realpath, e));
	}
	let r = lookup(path, true).and_then(|i| path_of_ino(i).ok_or(ENOENT)).map_err(|e| fail(CallKind::Realpath, e));
	log(&format!("realpath -> {r:?}"));
	r
}
pub fn readlink(path: &[u8]) -> Result<Vec<u8>, i32> {
	enter(CallKind::Other);
	match lookup(path, false) {
		Ok(i) => match &w().inodes[i].node {
			Node::Link(t) => Ok(t.clone()),
			_ => Err(22),
		},
		Err(e) => Err(e),
	}
}
pub fn destructive(what: &str) {
	let t = TID.get();
	log(&format!("destructive {what}"));
	let x = w();
	if x.obs.len() > t {
		x.obs[t].destructive.push(what.to_string());
	}
	count("destructive_call");
}
pub fn open_fds() -> usize {
	w().fds.iter().filter(|f| f.is_some()).count()
}

// ---------------------------------------------------------------- scheduler
unsafe fn fwait(a: &AtomicU32, v: u32) {
	hooks::sys6(202, a as *const _ as usize, 128, v as usize, 0, 0, 0);
}
unsafe fn fwake(a: &AtomicU32) {
	hooks::sys6(202, a as *const _ as usize, 129, 1, 0, 0, 0);
}
fn wait_token(i: usize) {
	while TOK[i].swap(0, Ordering::AcqRel) != 1 {
		unsafe { fwait(&TOK[i], 0) };
	}
}
fn give_token(i: usize) {
	TOK[i].store(1, Ordering::Release);
	unsafe { fwake(&TOK[i]) };
}
fn arm() {
	let x = w();
	let lim = STEP_LIMIT.load(Relaxed);
	let mut nx = u64::MAX;
	if x.nthreads > 1 {
		if let Some((r, mean)) = &mut x.dense {
			nx = STEPS.load(Relaxed) + 1 + r.below(2 * *mean as usize) as u64;
		} else if let Some((r, mean)) = &mut x.statics {
			let m = *mean as usize / 2;
			crate::hooks::SHARED_STORES.store(*mean as u64 & 1, Relaxed);
			crate::hooks::SHARED_LEFT.store(1 + r.below(2 * m) as u64, Relaxed);
			let j = *r.pick(&[0usize, 3, 12, 40]);
			crate::hooks::SHARED_JITTER.store(r.below(j + 1) as u64, Relaxed);
		} else if x.pos < x.plan.len() {
			nx = x.plan[x.pos].0;
		}
	}
	NEXT.store(nx.min(lim), Relaxed);
}
pub fn arm_limit(limit: u64) {
	if w().nthreads > 1 {
		return; // one budget for the whole concurrent run
	}
	STEP_LIMIT.store(STEPS.load(Relaxed).saturating_add(limit), Relaxed);
	arm();
}
fn runnable_others(me: usize) -> Vec<usize> {
	let x = w();
	(0..x.nthreads).filter(|i| *i != me && x.state[*i] == TState::Runnable).collect()
}
fn hand_over(me: usize, to: usize) {
	let x = w();
	x.switches += 1;
	let site = hooks::LAST_SITE.load(Relaxed) as u64;
	x.pairs.push((site << 8) | (me as u64) << 4 | to as u64);
	log(&format!("switch {me}->{to} @{}", STEPS.load(Relaxed)));
	x.cur = to;
	give_token(to);
	wait_token(me);
}
/// a planned preemption is due
pub fn sched_point(s: u64) {
	let x = w();
	if x.nthreads > 1 {
		let me = TID.get();
		let others = runnable_others(me);
		let choice = if let Some((r, _)) = x.dense.as_mut().or(x.statics.as_mut()) {
			r.below(64) as u8
		} else if x.pos < x.plan.len() && x.plan[x.pos].0 <= s {
			x.pos += 1;
			x.plan[x.pos - 1].1
		} else {
			arm();
			return;
		};
		x.rec.push((s, choice));
		arm();
		if !others.is_empty() {
			let to = others[choice as usize % others.len()];
			hand_over(me, to);
		}
	} else {
		arm();
	}
}
pub fn yield_now() {
	let x = w();
	if x.nthreads > 1 {
		let me = TID.get();
		let o = runnable_others(me);
		if !o.is_empty() {
			let to = *o.iter().find(|i| **i > me).unwrap_or(&o[0]);
			hand_over(me, to);
		}
	}
}
/// simulated futex: blocks in the scheduler, never in the kernel
pub fn futex(addr: *const AtomicU32, op: i32, val: u32, timeout: usize) -> isize {
	let x = w();
	let me = TID.get();
	match op & 0x7f {
		0 | 9 => {
			if unsafe { (*addr).load(Ordering::SeqCst) } != val {
				return -11;
			}
			if x.nthreads <= 1 {
				if timeout != 0 {
					return -110;
				}
				crate::orch::child_abort("deadlock", "the only thread blocks on a lock nobody will release");
			}
			x.state[me] = TState::Blocked(addr as usize, if timeout != 0 { Some(1) } else { None });
			x.blocks += 1;
			x.woken[me] = false;
			count("blocked_on_lock");
			log(&format!("block {me}"));
			let to = pick_next(me);
			hand_over(me, to);
			if x.woken[me] || timeout == 0 {
				0
			} else {
				-110
			}
		}
		1 | 10 => {
			let mut n = 0;
			for i in 0..x.nthreads {
				if n < val as isize {
					if let TState::Blocked(a, _) = x.state[i] {
						if a == addr as usize {
							x.state[i] = TState::Runnable;
							x.woken[i] = true;
							n += 1;
						}
					}
				}
			}
			n
		}
		_ => -38,
	}
}
fn pick_next(me: usize) -> usize {
	let x = w();
	let o = runnable_others(me);
	if !o.is_empty() {
		return o[0];
	}
	// nobody runnable: fire the earliest simulated timeout
	for i in 0..x.nthreads {
		if let TState::Blocked(_, Some(_)) = x.state[i] {
			x.state[i] = TState::Runnable;
			return i;
		}
	}
	crate::orch::child_abort("deadlock", "all simulated threads are blocked");
}
/// run `n` simulated threads to completion, one at a time, under the scenario's schedule
pub fn run_threads(n: usize, body: fn(usize)) {
	let x = w();
	x.nthreads = n;
	x.state = vec![TState::Runnable; n];
	x.cur = 0;
	let mut hs = vec![];
	for i in 0..n {
		hs.push(std::thread::spawn(move || {
			TID.set(i);
			give_token(MAXT); // parked
			wait_token(i);
			body(i);
			let x = w();
			x.state[i] = TState::Done;
			log(&format!("done {i}"));
			if (0..x.nthreads).all(|k| x.state[k] == TState::Done) {
				give_token(MAXT);
			} else {
				let to = pick_next(i);
				x.cur = to;
				give_token(to);
			}
			// stay parked until the controller lets threads exit one by one
			wait_token(i);
		}));
		wait_token(MAXT);
	}
	arm();
	give_token(0);
	wait_token(MAXT);
	x.nthreads = 0;
	for (i, h) in hs.into_iter().enumerate() {
		give_token(i);
		let _ = h.join();
	}
}

// ---------------------------------------------------------------- for the oracles
pub fn content_of(i: usize) -> Option<Vec<u8>> {
	match &w().inodes[i].node {
		Node::File(d) => Some(d.clone()),
		_ => None,
	}
}
pub fn content_at(path: &[u8]) -> Option<Vec<u8>> {
	lookup(path, true).ok().and_then(content_of)
}
pub fn unreadable(path: &[u8]) -> bool {
	match lookup(path, true) {
		Ok(i) => !w().inodes[i].readable,
		Err(_) => true,
	}
}
pub fn set_content(path: &[u8], b: &[u8]) {
	if let Ok(i) = lookup(path, true) {
		if let Node::File(d) = &mut w().inodes[i].node {
			*d = b.to_vec();
		}
	}
}
