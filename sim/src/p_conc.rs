//! C01 concurrent threads, C02 histories and environment, C08 resource balance
use crate::common::*;
use crate::dump::*;
use crate::gen;
use crate::hooks::{self, TID};
use crate::orch::{bump, failed, fork_run, lib, rep, violation, End};
use crate::rng::{hash_bytes, Rng};
use crate::scen::{Fault, FaultKind, FileEnt, Op, Scenario};
use crate::world;
use rphtml::parser::*;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

const SLOTS: usize = 3;
const IDS: &[&str] = &["main", "n1", "n2", "1", "abc", "", "x", "q", "id", "nope"];
const NAMES: &[&str] = &["br", "IMG", "title", "textarea", "svg", "Math", "div", "script", "BR", "wbr", "style"];
#[derive(Default)]
struct Client {
	docs: Vec<Option<DocHolder>>,
	nodes: Vec<RefNode>,
	/// callers often read every input into the same buffer
	buf: String,
}
impl Client {
	fn new() -> Client {
		let mut docs = vec![];
		docs.resize_with(SLOTS, || None);
		Client { docs, nodes: vec![], buf: String::new() }
	}
}
fn text_of(i: usize) -> String {
	let t = &world::w().texts;
	if t.is_empty() {
		return String::new();
	}
	String::from_utf8_lossy(&t[i % t.len()]).into_owned()
}
fn store(c: &mut Client, slot: usize, r: ParseRes) -> String {
	let o = outcome(&r);
	let t = otext(&o);
	match r {
		Ok(Ok(d)) => {
			let old = c.docs[slot % SLOTS].replace(d);
			let _ = lib(move || drop(old));
		}
		r => {
			let old = c.docs[slot % SLOTS].take();
			let _ = lib(move || drop(old));
			drop_doc(r);
		}
	}
	t
}
fn show(r: Result<String, String>) -> String {
	match r {
		Ok(s) => format!("= {s}"),
		Err(m) => format!("panic {m}"),
	}
}
/// one client step; the returned text is everything observable about it
fn edit(root: &RefNode, at: usize, kind: usize, v: usize) {
	let all = preorder(root);
	let n = &all[at % all.len()];
	let new: Vec<char> = ["", " ", "x", "new  text", "&lt;", "main"][v % 6].chars().collect();
	let mut b = n.borrow_mut();
	let ty = b.node_type;
	match (kind % 5, ty) {
		(0, NodeType::Text | NodeType::Comment | NodeType::XMLCDATA) => b.content = Some(new),
		(0 | 1, NodeType::Tag) => {
			if let Some(m) = &b.meta {
				let mut m = m.borrow_mut();
				match m.attrs.last_mut() {
					Some(a) if v % 2 == 0 => {
						a.value = Some(AttrData { content: new });
						a.quote = Some('"');
						a.need_quote = true;
					}
					_ => m.attrs.push(Attr { key: Some(AttrData { content: vec!['k'] }), value: Some(AttrData { content: new }), quote: Some('\''), need_quote: v % 3 == 0 }),
				}
			}
		}
		(2, NodeType::Tag | NodeType::AbstractRoot) if b.childs.is_some() => {
			let mut t = Node::create_text_node(new, None);
			t.parent = Some(Rc::downgrade(n));
			let k = b.childs.as_mut().unwrap();
			t.index = k.len();
			k.push(Rc::new(std::cell::RefCell::new(t)));
		}
		(3, NodeType::Tag | NodeType::AbstractRoot) if b.childs.as_ref().map(|c| c.len() > 1).unwrap_or(false) => {
			b.childs.as_mut().unwrap().pop();
		}
		(4, NodeType::Tag) => {
			let name: Vec<char> = ["pre", "b", "title", "X"][v % 4].chars().collect();
			if let Some(m) = &b.meta {
				m.borrow_mut().name = name.clone();
			}
			if let Some(e) = &b.end_tag {
				e.borrow_mut().content = Some(name);
			}
		}
		_ => {}
	}
}
fn run_op(c: &mut Client, s: &Scenario, o: &Op) -> String {
	let slot = o.g(0) % SLOTS;
	let st = |v: Vec<char>| v.into_iter().collect::<String>();
	match o.k {
		'P' => {
			let t = text_of(o.g(1));
			c.buf.clear();
			c.buf.push_str(&t);
			let r = parse_mem(&c.buf, o.g(2));
			store(c, slot, r)
		}
		'F' => {
			if s.files.is_empty() {
				return "no file".into();
			}
			let f = &s.files[o.g(1) % s.files.len()];
			let p = if o.g(3) == 1 { f.path.strip_prefix(&format!("{}/", s.cwd)).unwrap_or(&f.path).to_string() } else { f.path.clone() };
			let n = world::content_at(p.as_bytes()).map(|b| b.len()).unwrap_or(0);
			let (r, obs) = parse_path(&p, o.g(2), n);
			if !obs.destructive.is_empty() {
				violation("destructive", format!("{:?}", obs.destructive));
			}
			store(c, slot, r)
		}
		'S' => {
			// soak: the same small call many times
			let t = text_of(o.g(1));
			let n = o.g(3);
			let kind = o.g(4) % 6;
			let base = if kind > 0 { Some(parse_mem(&t, o.g(2))) } else { None };
			// every call is compared with the first of its kind unless that is too costly
			let all = t.len() * n < 3_000_000;
			let cycle = if kind == 0 && o.g(0) & 1 == 1 { world::w().texts.len().max(1) } else { 1 };
			let mut first: Vec<Option<String>> = vec![None; cycle];
			let mut odd = None;
			for i in 0..n {
				let seen = all || i < cycle || i + 1 == n;
				let x = match (&base, kind) {
					(Some(Ok(Ok(d))), 1) => show(lib(|| d.render(&ropts(o.g(2))))),
					(Some(Ok(Ok(d))), 2) => show(lib(|| d.render_text(&ropts(o.g(2) & !256)))),
					(Some(Ok(Ok(d))), 3) => match lib(|| d.get_root_node().borrow().clone_node()) {
						Ok(c) => {
							let x = if seen { dref(&c).text() } else { String::new() };
							let _ = lib(move || drop(c));
							x
						}
						Err(m) => m,
					},
					(Some(Ok(Ok(d))), 4) => show(lib(|| format!("{:?}", d.get_root_node().borrow().is_document()))),
					_ if kind == 5 && !s.files.is_empty() => {
						let f = &s.files[o.g(1) % s.files.len()];
						let (r, _) = parse_path(&f.path, o.g(2), t.len());
						let x = if seen { otext(&outcome(&r)) } else { String::new() };
						drop_doc(r);
						x
					}
					_ => {
						let other;
						let u = if cycle > 1 && i % cycle > 0 {
							other = text_of(o.g(1) + i);
							&other
						} else {
							&t
						};
						let r = parse_mem(u, o.g(2));
						let x = if seen { otext(&outcome(&r)) } else { String::new() };
						drop_doc(r);
						x
					}
				};
				if seen {
					match &first[i % cycle] {
						None => first[i % cycle] = Some(x),
						Some(f) if *f != x => {
							odd = Some(format!("call {}: {x}", i + 1));
							break;
						}
						_ => {}
					}
				}
			}
			let mut last = first[0].clone().unwrap_or_default();
			if let Some(x) = odd {
				last = format!("call 1: {last} {x}");
			}
			if let Some(b) = base {
				drop_doc(b);
			}
			last
		}
		'E' => {
			// the caller edits the document
			if let Some(Some(d)) = c.docs.get(slot) {
				edit(&d.get_root_node(), o.g(1), o.g(2), o.g(3));
			}
			"edited".into()
		}
		'A' => {
			let n: Vec<char> = NAMES[o.g(1) % NAMES.len()].chars().collect();
			show(lib(|| {
				use NodeType::*;
				let a: Vec<bool> = [Text, SpacesBetweenTag, Tag, Comment, XMLCDATA].iter().map(|t| allow_insert(&n, *t)).collect();
				let q: Vec<bool> = " \"'<>=`a\n/".chars().map(|c| Attr::need_quoted_char(&c)).collect();
				format!("{a:?} {} {q:?}", is_content_tag(&n, &Some(NameCase::Lower)))
			}))
		}
		'D' => {
			let d = c.docs[slot].take();
			show(lib(move || {
				drop(d);
				String::new()
			}))
		}
		'X' => {
			if c.nodes.is_empty() {
				return "-".into();
			}
			let k = o.g(1) % c.nodes.len();
			let n = c.nodes.remove(k);
			show(lib(move || {
				drop(n);
				String::new()
			}))
		}
		k => {
			let d = match &c.docs[slot] {
				Some(d) => d,
				None => return "no document".into(),
			};
			match k {
				'R' => show(lib(|| d.render(&ropts(o.g(1))))),
				'T' => show(lib(|| d.render_text(&ropts(o.g(1))))),
				'Z' => show(lib(|| format!("{:?}", d.get_root_node().borrow().is_document()))),
				'I' => {
					let all = preorder(&d.get_root_node());
					show(lib(|| d.get_element_by_id(IDS[o.g(1) % IDS.len()])).map(|x| match x {
						None => "none".to_string(),
						Some(n) => format!("{:?}", all.iter().position(|y| Node::is_same(y, &n))),
					}))
				}
				_ => {
					let all = preorder(&d.get_root_node());
					let n = all[o.g(1) % all.len()].clone();
					match k {
						'N' => match o.g(3) % 3 {
							0 => show(lib(|| st(n.borrow().build(&ropts(o.g(2)), false)))),
							1 => show(lib(|| st(n.borrow().build(&ropts(o.g(2) | 256), false)))),
							_ => show(lib(|| st(n.borrow().build(&ropts(o.g(2)), true)))),
						},
						'C' => match lib(|| n.borrow().clone_node()) {
							Ok(x) => {
								let t = dref(&x).text();
								let y = show(lib(|| st(x.borrow().build(&ropts(o.g(2)), false))));
								let _ = lib(move || drop(x));
								format!("{t} {y}")
							}
							Err(m) => format!("panic {m}"),
						},
						'H' => {
							c.nodes.push(n);
							"held".into()
						}
						_ => "?".into(),
					}
				}
			}
		}
	}
}
fn finish(c: &mut Client, order: &[u8]) {
	// drop what is left, in the scenario's order
	for o in order {
		if o & 1 == 0 && !c.nodes.is_empty() {
			let k = *o as usize / 2 % c.nodes.len();
			let n = c.nodes.remove(k);
			let _ = lib(move || drop(n));
		} else {
			let d = c.docs[*o as usize / 2 % SLOTS].take();
			let _ = lib(move || drop(d));
		}
	}
	let docs = std::mem::take(&mut c.docs);
	let nodes = std::mem::take(&mut c.nodes);
	let _ = lib(move || {
		drop(nodes);
		drop(docs);
	});
	c.docs.resize_with(SLOTS, || None);
}
// ------------------------------------------------------------------ generation
fn texts(r: &mut Rng, s: &mut Scenario) {
	// texts that react to options, and near copies of each other
	let sensitive = ["<p></P>", "<p/>x", "<a =b>", "<p>", "a</x>b", "1 < 2", "<svg><g/></svg><g/>", "<script>a</SCRIPT></script>", "<ul> <li>a &amp; b</ul>", "a &lt; b &gt; &#65; &copy;", "a &le; b &ge; &#66; &cent;", "<p id=main>a  b<br></p>", "<pre> a </pre><p> b </p>", "<!-- c --><b id=n1>x</b>", "<title>a&lt;b</title>", "<![CDATA[", "<!DOCTYPE html><html></html>", "<svg><t><![CDATA[x]]></t></svg>", "<textarea><b></textarea>", "<br><p><br><b>x<hr><i>y<br>", "<P><BR><p><br><Svg><svg><A><a>", "<b a=1 B=2><br a b><b A b=3><br>"];
	for _ in 0..r.range(1, 4) {
		let t = match r.below(6) {
			0 | 1 => r.pick(&sensitive).to_string(),
			2 => format!("{}{}", r.pick(&sensitive), r.pick(&sensitive)),
			3 => gen::doc(r),
			4 => gen::clean_doc(r),
			_ if !s.texts.is_empty() => {
				// same length, one character different
				let k = r.below(s.texts.len());
				let mut c: Vec<char> = String::from_utf8_lossy(&s.texts[k]).chars().collect();
				for _ in 0..r.range(1, 3) {
					if !c.is_empty() {
						let i = r.below(c.len());
						c[i] = *r.pick(&['a', 'b', '<', '>', ' ', '1', 'P', '\n', '\n', '中']);
					}
				}
				c.into_iter().collect()
			}
			_ => gen::plain_doc(r),
		};
		let mut t: String = t.chars().take(300).collect();
		if r.chance(1, 120) {
			let k = *r.pick(&[1100usize, 2200, 5000, 9000]);
			while t.len() < k {
				t.push_str(&gen::clean_doc(r));
			}
		}
		s.texts.push(t.into_bytes());
	}
}
fn files(r: &mut Rng, s: &mut Scenario, clients: usize) {
	s.cwd = "/w".into();
	for i in 0..r.below(3) {
		s.files.push(FileEnt::file(&format!("/w/f{i}"), r.below(s.texts.len())));
	}
	if r.chance(1, 3) {
		s.files.push(FileEnt { path: "/w/missing/x".into(), kind: 'l', text: 0, target: "nowhere".into(), lie: None });
	}
	if r.chance(1, 2) {
		s.io = vec![*r.pick(&[0i64, 1, 5, 40]), *r.pick(&[0i64, 0, 3])];
	}
	for _ in 0..r.below(4) {
		let kind = match r.below(3) {
			0 => FaultKind::Eintr,
			1 => FaultKind::Short(r.range(1, 9) as u32),
			_ => FaultKind::Err(*r.pick(&[5, 13, 24, 12])),
		};
		s.faults.push(Fault { tid: r.below(clients) as u8, idx: r.below(12) as u32, kind });
	}
}
fn popt(r: &mut Rng) -> i64 {
	gen::opts(r) as i64
}
fn program(r: &mut Rng, n: usize, nfiles: usize) -> Vec<Op> {
	let mut p = vec![];
	for i in 0..n {
		let slot = r.below(SLOTS) as i64;
		let slot = if r.chance(2, 3) { 0 } else { slot };
		let k = if i == 0 { r.below(6) } else { r.below(22) };
		p.push(match k {
			0..=4 => Op::new('P', &[slot, r.below(8) as i64, popt(r)]),
			5 if nfiles > 0 => Op::new('F', &[slot, r.below(8) as i64, popt(r), r.below(2) as i64]),
			5 | 6 => Op::new('P', &[slot, r.below(8) as i64, popt(r)]),
			7 if nfiles > 0 => Op::new('F', &[slot, r.below(8) as i64, popt(r), r.below(2) as i64]),
			7..=10 => Op::new('R', &[slot, gen::render_opts(r) as i64]),
			11 => Op::new('R', &[slot, gen::render_opts(r) as i64 | 256]),
			12 | 13 => Op::new('T', &[slot, gen::render_opts(r) as i64]),
			14 | 15 => Op::new('N', &[slot, r.below(12) as i64, gen::render_opts(r) as i64, r.below(3) as i64]),
			16 => Op::new('C', &[slot, r.below(12) as i64, gen::render_opts(r) as i64]),
			17 => Op::new('I', &[slot, r.below(IDS.len()) as i64]),
			18 => Op::new('Z', &[slot]),
			19 => Op::new('A', &[slot, r.below(NAMES.len()) as i64]),
			20 => Op::new('D', &[slot]),
			_ => Op::new('R', &[slot, 0]),
		});
	}
	p
}
pub fn gen_c01(r: &mut Rng, s: &mut Scenario) {
	texts(r, s);
	let n = *r.pick(&[2usize, 2, 2, 3, 3, 4]);
	files(r, s, n);
	let mut len = 0;
	for t in 0..n {
		let k = *r.pick(&[1usize, 2, 3, 5, 8]);
		let mut p = program(r, k, s.files.len());
		if t > 0 && r.chance(1, 3) {
			// the same calls on several threads, with other options
			p = s.progs[0].clone();
			for o in &mut p {
				if o.k == 'P' && r.chance(1, 2) {
					o.a[2] = popt(r);
				}
			}
		}
		len += p.len();
		s.progs.push(p);
	}
	let span = (len * 12_000).max(4000);
	match r.below(7) {
		0 => {}
		5 | 6 => {
			if r.chance(1, 5) {
				// many small tags, so that one thread can lap another
				let u = *r.pick(&["<br><p>", "<p><br><b>", "<BR><Br><p>", "<a b=1><hr c>", "<i></i><br>"]);
				let k = r.below(s.texts.len());
				s.texts[k] = u.repeat(r.range(10, 140)).into_bytes();
			}
			s.statics = Some((r.next() >> 1, *r.pick(&[2u32, 8, 40, 200, 1000, 4000]) * 2 + r.below(2) as u32));
		}
		1 | 2 => {
			// few preemptions, spread over orders of magnitude, biased to the first use
			for _ in 0..r.range(1, 8) {
				let m = *r.pick(&[60usize, 400, 3000, span]);
				s.sched.push((r.range(1, m) as u64, r.below(8) as u8));
			}
			s.sched.sort();
			s.sched.dedup_by_key(|x| x.0);
		}
		_ => s.dense = Some((r.next() >> 1, *r.pick(&[2u32, 5, 20, 100, 600, 3000]))),
	}
	s.env = vec![r.next() >> 1, if r.chance(1, 3) { r.next() >> 1 } else { 0 }, 1_000_000_000, if r.chance(1, 2) { r.next() >> 1 } else { 0 }];
}
pub fn gen_c02(r: &mut Rng, s: &mut Scenario) {
	texts(r, s);
	files(r, s, 1);
	s.faults.clear();
	s.io.clear();
	let n = *r.pick(&[4usize, 8, 16, 30, 50]);
	let mut p = program(r, n, s.files.len());
	// repeats of earlier calls, sometimes with one option changed
	for _ in 0..r.below(6) {
		let mut o = p[r.below(p.len())].clone();
		if o.k == 'P' && r.chance(1, 2) {
			o.a[2] ^= 1 << r.below(6);
		}
		if o.k == 'R' && r.chance(1, 2) {
			o.a[1] ^= 1 << r.below(8);
		}
		p.push(o);
	}
	if r.chance(1, 2) {
		for _ in 0..r.range(1, 4) {
			// an edit between two equal reads
			let i = r.below(p.len());
			let slot = p[i].g(0) as i64;
			let read = match p[i].k {
				'R' | 'T' | 'N' | 'C' | 'Z' => p[i].clone(),
				_ => Op::new('R', &[slot, gen::render_opts(r) as i64]),
			};
			let e = Op::new('E', &[slot, r.below(20) as i64, r.below(5) as i64, r.below(12) as i64]);
			p.splice(i + 1..i + 1, [read.clone(), e, read]);
		}
	}
	match r.below(300) {
		0 => p.insert(r.below(p.len()), Op::new('S', &[r.below(2) as i64, r.below(4) as i64, popt(r), 70_000, r.below(6) as i64])),
		1..=12 => p.insert(r.below(p.len()), Op::new('S', &[r.below(2) as i64, r.below(4) as i64, popt(r), 5_000, r.below(6) as i64])),
		13..=50 => p.insert(r.below(p.len()), Op::new('S', &[r.below(2) as i64, r.below(4) as i64, popt(r), 300, r.below(6) as i64])),
		_ => {}
	}
	if p.iter().any(|o| o.k == 'S' && o.g(3) > 3_000) {
		// the soak texts have to be tiny
		const TINY: [&str; 20] = ["<p/>", "<svg><g/></svg><g/>", "<a =b>", "<p></P>", "1 < 2", "a</x>b", "<p>", "a", "<", "<b></b>", "", "<p>a</p><!--c-->", "<a id=x b='c'>", " <br> ", "</x>", "<svg><![CDATA[x]]></svg>", "<!DOCTYPE html>", "<script>x</script>", "<p> </p>", "a<b"];
		s.texts = (0..r.range(1, 4)).map(|_| r.pick(&TINY).as_bytes().to_vec()).collect();
		for f in &mut s.files {
			f.text %= s.texts.len();
		}
	}
	s.progs = vec![p];
	s.env = vec![r.next() >> 1, r.next() >> 1, r.next() >> 2, r.next() >> 1];
}
pub fn gen_c08(r: &mut Rng, s: &mut Scenario) {
	texts(r, s);
	for t in &mut s.texts {
		let m = String::from_utf8_lossy(t).replace("main", "@@@@").replace("abc", "@@@@").replace("text", "@@@@");
		*t = format!("{}{m}", if r.chance(1, 3) { "<i id=@@@@>@@@@</i>" } else { "" }).into_bytes();
	}
	files(r, s, 1);
	if s.files.is_empty() {
		s.files.push(FileEnt::file("/w/f0", 0));
	}
	let n = *r.pick(&[1usize, 2, 4, 8]);
	let mut p = program(r, n, s.files.len());
	if r.chance(2, 3) {
		p.insert(0, Op::new('F', &[0, r.below(8) as i64, popt(r), r.below(2) as i64]));
	}
	for _ in 0..r.below(5) {
		let i = r.below(p.len() + 1);
		p.insert(i, if r.chance(2, 3) { Op::new('H', &[r.below(SLOTS) as i64, r.below(12) as i64]) } else { Op::new('X', &[0, r.below(8) as i64]) });
	}
	s.progs = vec![p];
	for _ in 0..r.below(8) {
		s.order.push(r.below(32) as u8);
	}
}

// ------------------------------------------------------------------ C01
static mut SCEN: *const Scenario = std::ptr::null();
static mut RES: Vec<Vec<String>> = Vec::new();
#[allow(static_mut_refs)]
fn body(t: usize) {
	let s = unsafe { &*SCEN };
	let mut c = Client::new();
	for o in &s.progs[t] {
		let x = run_op(&mut c, s, o);
		unsafe { RES[t].push(x) };
	}
	finish(&mut c, &[]);
}
fn total(s: &Scenario) -> u64 {
	let n: usize = s.texts.iter().map(|t| t.len()).max().unwrap_or(0);
	let ops: usize = s.progs.iter().map(|p| p.len()).sum();
	(ops as u64 + 1) * 4 * budget(n)
}
#[allow(static_mut_refs)]
pub fn exec_c01(s: &Scenario) {
	let n = s.progs.len().min(world::MAXT - 1);
	if n == 0 {
		return;
	}
	crate::orch::set_env(&Scenario::default());
	// what each client gets when it is alone in a fresh process
	let mut want = vec![];
	for t in 0..n {
		match fork_run(60, || {
			TID.set(t);
			let mut c = Client::new();
			for o in &s.progs[t] {
				let x = run_op(&mut c, s, o);
				rep().out.push(x);
			}
			finish(&mut c, &[]);
		}) {
			End::Done(r) => {
				rep().absorb(&r);
				if let Some((c, m)) = &r.viol {
					violation(c, format!("client {t} alone: {m}"));
					return;
				}
				want.push(r.out.clone());
			}
			End::Crash(m) => {
				violation(&m, format!("client {t} alone: {m}"));
				return;
			}
		}
	}
	crate::orch::set_env(s);
	unsafe {
		SCEN = s;
		RES = vec![vec![]; n];
	}
	hooks::STEP_LIMIT.store(hooks::STEPS.load(Relaxed) + total(s), Relaxed);
	world::run_threads(n, body);
	hooks::STEP_LIMIT.store(u64::MAX / 2, Relaxed);
	let r = rep();
	r.evals += 1;
	let sw = world::w().switches;
	if sw > n as u64 {
		r.nontrivial.push(world::w().log);
	}
	r.states.push(world::w().log);
	bump("client_calls", s.progs.iter().map(|p| p.len() as u64).sum());
	for t in 0..n {
		let got = unsafe { &RES[t] };
		for (i, w) in want[t].iter().enumerate() {
			if got.get(i) != Some(w) {
				violation("client-result-differs", format!("client {t} call {i} ({:?}): alone {}", s.progs[t][i], diff(w, got.get(i).map(|x| x.as_str()).unwrap_or("(none)"))));
				return;
			}
		}
	}
}

// ------------------------------------------------------------------ C02
pub fn exec_c02(s: &Scenario) {
	let p = match s.progs.first() {
		Some(p) => p,
		None => return,
	};
	crate::orch::set_env(&Scenario::default());
	let mut maker: Vec<Option<usize>> = vec![None; SLOTS];
	let mut want: Vec<String> = vec![];
	for (i, o) in p.iter().enumerate() {
		let slot = o.g(0) % SLOTS;
		let need = match o.k {
			'P' | 'F' => {
				maker[slot] = Some(i);
				None
			}
			'S' | 'A' | 'E' => None,
			'D' => {
				maker[slot] = None;
				None
			}
			_ => maker[slot],
		};
		if o.k == 'D' {
			want.push("= ".into());
			continue;
		}
		match fork_run(60, || {
			let mut c = Client::new();
			if let Some(m) = need {
				run_op(&mut c, s, &p[m]);
				// and what the caller did to the document since
				for e in p[m..i].iter().filter(|e| e.k == 'E' && e.g(0) % SLOTS == slot) {
					run_op(&mut c, s, e);
				}
			}
			let mut o = o.clone();
			if o.k == 'S' {
				o.a[3] = 1;
			}
			let x = run_op(&mut c, s, &o);
			rep().out.push(x);
		}) {
			End::Done(r) => {
				rep().absorb(&r);
				if let Some((c, m)) = &r.viol {
					violation(c, format!("call {i} alone: {m}"));
					return;
				}
				want.push(r.out.first().cloned().unwrap_or_default());
			}
			End::Crash(m) => {
				violation(&m, format!("call {i} alone: {m}"));
				return;
			}
		}
	}
	crate::orch::set_env(s);
	let mut c = Client::new();
	for (i, o) in p.iter().enumerate() {
		world::rewind();
		let got = run_op(&mut c, s, o);
		rep().evals += 1;
		if i > 0 {
			rep().nontrivial.push(hash_bytes(i as u64, format!("{:?}{}", o, got).as_bytes()));
		}
		rep().states.push(h(&got));
		world::log_event(&got);
		if got != want[i] {
			violation("history-dependent", format!("call {i} ({o:?}) gives in this history {}", diff(&got, &want[i])));
			return;
		}
	}
	finish(&mut c, &s.order);
}

// ------------------------------------------------------------------ C08
pub fn exec_c08(s: &Scenario) {
	let p = match s.progs.first() {
		Some(p) => p,
		None => return,
	};
	crate::orch::set_env(s);
	let mut live = Vec::with_capacity(64);
	let iters = 40;
	let base: Vec<Vec<u8>> = s.texts.clone();
	for it in 0..iters {
		world::rewind();
		let mark = format!("{:04}", it * 7 + 1000);
		for (k, t) in base.iter().enumerate() {
			let mut b = t.clone();
			for i in 0..b.len().saturating_sub(3) {
				if &b[i..i + 4] == b"@@@@" {
					b[i..i + 4].copy_from_slice(mark.as_bytes());
				}
			}
			for f in s.files.iter().filter(|f| f.kind == 'f' && f.text == k) {
				world::set_content(f.path.as_bytes(), &b);
			}
			world::w().texts[k] = b;
		}
		let mut c = Client::new();
		for o in p {
			let x = run_op(&mut c, s, o);
			if it == 0 {
				rep().evals += 1;
				rep().states.push(h(&x));
				bump(&format!("op_{}_{}", o.k, x.split(|c: char| !c.is_alphabetic()).next().unwrap_or("")), 1);
			}
			drop(x);
			if o.k == 'F' && world::open_fds() != 0 {
				violation("descriptor-leak", format!("{} descriptor(s) open after {o:?}", world::open_fds()));
				return;
			}
		}
		finish(&mut c, &s.order);
		drop(c);
		live.push((hooks::LIVE_COUNT.load(Relaxed), hooks::LIVE_BYTES.load(Relaxed)));
		if failed() {
			return;
		}
	}
	rep().evals += iters as u64;
	rep().nontrivial.push(hash_bytes(1, format!("{:?}{:?}{:?}{:?}", s.texts, s.progs, s.faults, s.order).as_bytes()));
	let (a, b, c) = (live[9], live[19], live[39]);
	let grows = |f: fn(&(usize, usize)) -> usize| f(&c) > f(&b) && f(&b) > f(&a);
	if grows(|x| x.0) || grows(|x| x.1) {
		violation("memory-leak", format!("live heap after 10, 20 and 40 repetitions: {a:?}, {b:?}, {c:?} (blocks, bytes)"));
		return;
	}
	// the same work once more on a text a hundred kilobytes longer: nothing that grows with the
	// text may stay held afterwards
	let pick = base.iter().flatten().fold(s.progs.len(), |a, b| a.wrapping_mul(31).wrapping_add(*b as usize));
	if pick % 20 != 0 {
		return;
	}
	world::rewind();
	let fill = match pick / 20 % 4 {
		0 => format!("<p>{}</p>", "long text ".repeat(10_000)),
		1 => "<b>x</b>\n".repeat(6_000),
		2 => format!("<!--{}-->", "c".repeat(100_000)),
		_ => format!("<p title='{}'></p>", "v\n".repeat(50_000)),
	};
	for (k, t) in base.iter().enumerate() {
		let mut b = fill.as_bytes().to_vec();
		b.extend_from_slice(t);
		for f in s.files.iter().filter(|f| f.kind == 'f' && f.text == k) {
			world::set_content(f.path.as_bytes(), &b);
		}
		world::w().texts[k] = b;
	}
	let mut cl = Client::new();
	for o in p {
		drop(run_op(&mut cl, s, o));
		if o.k == 'F' && world::open_fds() != 0 {
			violation("descriptor-leak", format!("{} descriptor(s) open after {o:?}", world::open_fds()));
			return;
		}
	}
	finish(&mut cl, &s.order);
	drop(cl);
	for (k, t) in base.iter().enumerate() {
		for f in s.files.iter().filter(|f| f.kind == 'f' && f.text == k) {
			world::set_content(f.path.as_bytes(), t);
		}
		world::w().texts[k] = t.clone();
	}
	let len = fill.len();
	drop(fill);
	let d = hooks::LIVE_BYTES.load(Relaxed);
	bump("large_text_rounds", 1);
	rep().evals += 1;
	if d > c.1 + 16 * 1024 {
		violation("memory-retained", format!("{} bytes more stay held after the same calls on a text of {} bytes", d - c.1, len));
	}
}
