//! C16 conservation: every character of the input is in the tree or is a tag's own syntax
use crate::common::*;
use crate::dump::*;
use crate::gen;
use crate::orch::{bump, failed, lib, rep, violation};
use crate::p_io;
use crate::rng::{hash_bytes, Rng};
use crate::scen::Scenario;
use crate::world;
use rphtml::parser::*;

/// reads the source from left to right and ticks off what the tree holds
struct Acct<'a> {
	src: &'a [char],
	at: usize,
	bits: usize,
	/// cuts after which automatic closing has all it needs: inside text and start tags, after
	/// complete tags and comments
	safe: Vec<(usize, usize)>,
}
type R = Result<(), String>;
fn ws(c: char) -> bool {
	c.is_ascii_whitespace()
}
const RAWS: &[&str] = &["script", "style", "title", "textarea"];
impl Acct<'_> {
	fn left(&self) -> &[char] {
		&self.src[self.at.min(self.src.len())..]
	}
	fn show(&self) -> String {
		self.left().iter().take(40).collect()
	}
	fn eat(&mut self, t: &str) -> bool {
		let n = t.chars().count();
		let ok = self.left().len() >= n && t.chars().zip(self.left()).all(|(a, b)| a == *b);
		if ok {
			self.at += n;
		}
		ok
	}
	fn skip(&mut self, f: impl Fn(char) -> bool) -> usize {
		let n = self.left().iter().take_while(|c| f(**c)).count();
		self.at += n;
		n
	}
	/// stray end tags that were dropped by the repair option
	fn strays(&mut self, to: usize) -> R {
		while self.at < to {
			let from = self.at;
			if self.bits & 16 == 0 || !self.eat("</") {
				return Err(format!("{:?} at {from} is in no node", self.src[from..to].iter().take(60).collect::<String>()));
			}
			self.skip(|c| c != '>');
			self.at += 1;
		}
		if self.at > to {
			return Err(format!("a node begins at {to}, inside a dropped end tag"));
		}
		Ok(())
	}
	/// text, with '<' escaped and stray end tags left out where the options say so
	fn text(&mut self, want: &str, end: usize) -> R {
		let from = self.at;
		let plain = self.src[from..end].iter().take_while(|c| **c != '<').count();
		self.safe.push((from, from + plain));
		let mut w: Vec<char> = want.chars().rev().collect();
		while self.at < end {
			let c = self.src[self.at];
			let next = self.src.get(self.at + 1).copied();
			if c == '<' && next == Some('/') && self.bits & 16 != 0 {
				self.skip(|c| c != '>');
				self.at += 1;
				continue;
			}
			if c == '<' && self.bits & 32 != 0 {
				for x in "&lt;".chars() {
					if w.pop() != Some(x) {
						return Err(format!("the '<' at {} is not in the text {want:?}", self.at));
					}
				}
			} else if w.pop() != Some(c) {
				return Err(format!("the character {c:?} at {} is not in the text {want:?} at {from}..{end}", self.at));
			}
			self.at += 1;
		}
		if !w.is_empty() {
			return Err(format!("text {want:?} at {from}..{end} holds what is not in the input"));
		}
		Ok(())
	}
	/// attributes up to and including '>'; true if the input ends before it
	fn attrs(&mut self, m: &DMeta, doctype: bool) -> Result<bool, String> {
		let mut slash = false;
		for a in &m.attrs {
			self.skip(|c| ws(c) || c == '/');
			let from = self.at;
			let miss = |s: &Self, what: &str, t: &str| Err(format!("attribute {what} {t:?} is not what the source has at {from}: {:?}", s.show()));
			if let Some(k) = &a.key {
				if !self.eat(k) {
					return miss(self, "name", k);
				}
			}
			if let Some(v) = &a.value {
				if a.key.is_some() {
					self.skip(|c| ws(c) || c == '/');
					if !self.eat("=") {
						return miss(self, "value", v);
					}
					self.skip(|c| ws(c) || c == '/');
				} else if !doctype {
					return Err("an attribute without a name".into());
				}
				let t = match a.quote {
					Some(q) => format!("{q}{v}{q}"),
					None => v.clone(),
				};
				if !self.eat(&t) {
					// the input may end inside the value
					let open = a.quote.map(|q| format!("{q}{v}")).unwrap_or_default();
					if self.bits & 8 == 0 || open.is_empty() || self.left().len() != open.chars().count() || !self.eat(&open) {
						return miss(self, "value", &t);
					}
				}
			} else if a.quote.is_some() {
				return Err("a quote without a value".into());
			}
		}
		// what follows the last attribute: nothing but space, slashes and an '=' without a value
		loop {
			match self.left().first() {
				None => return Ok(true),
				Some('>') => {
					self.at += 1;
					if m.self_closed && !slash {
						return Err(format!("<{}> is marked self-closed without a slash", m.name));
					}
					return Ok(false);
				}
				Some('/') => slash = true,
				Some('=') => slash = false,
				Some(c) if ws(*c) => {}
				Some(_) => return Err(format!("the source has {:?} in the tag <{}>, the tree has no such attribute", self.show(), m.name)),
			}
			self.at += 1;
		}
	}
	fn node(&mut self, n: &DNode, path: &str) -> R {
		let err = |e: String| format!("{path}: {e}");
		if n.ty != NodeType::AbstractRoot {
			self.strays(n.begin).map_err(err)?;
		}
		let content = n.content.clone().unwrap_or_default();
		match n.ty {
			NodeType::AbstractRoot => {}
			NodeType::Text | NodeType::SpacesBetweenTag => return self.text(&content, n.end).map_err(err),
			NodeType::Comment | NodeType::XMLCDATA => {
				let (head, tail) = if n.ty == NodeType::Comment { ("<!--", "-->") } else { ("<![CDATA[", "]]>") };
				let from = self.at;
				let up: String = self.left().iter().take(head.len()).collect();
				self.at = (self.at + head.len()).min(self.src.len());
				if !up.eq_ignore_ascii_case(head) || !self.eat(&format!("{content}{tail}")) {
					return Err(format!("{path}: the source at {from} is not {head}{content}{tail}"));
				}
				self.safe.push((self.at, self.at));
			}
			NodeType::HTMLDOCTYPE => {
				let up: String = self.left().iter().take(9).collect();
				if !up.eq_ignore_ascii_case("<!DOCTYPE") {
					return Err(format!("{path}: a doctype node at {up:?}"));
				}
				self.at += 9;
				if let Some(m) = &n.meta {
					self.attrs(m, true).map_err(err)?;
				}
			}
			NodeType::Tag => {
				let m = n.meta.as_ref().ok_or_else(|| format!("{path}: element without a name"))?;
				if !self.eat(&format!("<{}", m.name)) {
					return Err(format!("{path}: element {} where the source has {:?}", m.name, self.show()));
				}
				if self.left().first().map(|c| !ws(*c) && *c != '/' && *c != '>').unwrap_or(false) {
					return Err(format!("{path}: element {} where the source has a longer name", m.name));
				}
				let cut = self.attrs(m, false).map_err(err)?;
				let raw = !m.self_closed && RAWS.contains(&m.name.to_ascii_lowercase().as_str());
				self.safe.push((n.begin + 2, self.at - (raw && !cut) as usize));
				if cut {
					if self.bits & 8 == 0 || !m.auto_fix {
						return Err(format!("{path}: the tag <{}> cut off by the end of input is not marked as repaired", m.name));
					}
				} else if n.content.is_some() && !self.eat(&content) {
					return Err(format!("{path}: the content {content:?} is not what the source has: {:?}", self.show()));
				}
			}
			t => return Err(format!("{path}: unexpected {t:?} node")),
		}
		for (i, k) in n.kids().iter().enumerate() {
			self.node(k, &format!("{path}/{i}"))?;
		}
		if n.ty == NodeType::Tag {
			self.close(n, path)?;
		}
		Ok(())
	}
	fn close(&mut self, n: &DNode, path: &str) -> R {
		let m = match &n.meta {
			Some(m) => m,
			None => return Ok(()),
		};
		let e = match &n.end_tag {
			None => {
				if !(m.is_void || m.self_closed) {
					return Err(format!("{path}: the element {} has no end tag", m.name));
				}
				return Ok(());
			}
			Some(e) => e,
		};
		if m.auto_fix {
			// supplied at the end of input: nothing but dropped end tags may be left
			let end = self.src.len();
			if self.bits & 8 == 0 {
				return Err(format!("{path}: {} repaired although that was not asked for", m.name));
			}
			return self.strays(end).map_err(|e| format!("{path} (closed at the end of input): {e}"));
		}
		if !RAWS.contains(&m.name.to_ascii_lowercase().as_str()) {
			self.strays(e.begin).map_err(|e| format!("{path} before its end tag: {e}"))?;
		}
		let t = format!("</{}>", e.content.clone().unwrap_or_default());
		if !self.eat(&t) {
			return Err(format!("{path}: end tag {t:?} where the source has {:?}", self.show()));
		}
		self.safe.push((self.at, self.at));
		Ok(())
	}
}
pub fn account(d: &DNode, src: &[char], bits: usize) -> R {
	let mut a = Acct { src, at: 0, bits, safe: vec![] };
	a.node(d, "root")?;
	a.strays(src.len())
}
/// the cuts of an accepted text that automatic closing can repair
pub fn repairable(d: &DNode, src: &[char], bits: usize) -> Vec<(usize, usize)> {
	let mut a = Acct { src, at: 0, bits, safe: vec![(0, 0)] };
	let _ = a.node(d, "root");
	a.safe
}
pub fn exec_c16(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let text = String::from_utf8_lossy(&s.texts[0]).into_owned();
	let chars: Vec<char> = text.chars().collect();
	let mut cases: Vec<(ParseRes, String)> = vec![];
	let mut cuts: Vec<usize> = s.cuts.iter().map(|c| (*c as usize).min(chars.len())).collect();
	cuts.push(chars.len());
	for c in cuts {
		let t: String = chars[..c].iter().collect();
		cases.push((parse_mem(&t, bits), t));
	}
	if !s.path.is_empty() && world::content_at(s.path.as_bytes()).is_some() && std::str::from_utf8(&s.texts[0]).is_ok() {
		cases.push((parse_path(&s.path, bits, chars.len()).0, normalise(&text)));
	}
	for (res, t) in cases {
		rep().evals += 1;
		let o = outcome(&res);
		bump(&format!("outcome_{}", o.tag()), 1);
		if let Ok(Ok(d)) = &res {
			let dump = dref(&d.get_root_node());
			rep().states.push(hash_bytes(0, dump.text().as_bytes()));
			if dump.count() > 2 {
				rep().nontrivial.push(hash_bytes(bits as u64, t.as_bytes()));
			}
			if let Err(e) = account(&dump, &t.chars().collect::<Vec<_>>(), bits) {
				violation("not-conserved", format!("text {:?} options {bits}: {e}", clip(&t, 300)));
			}
		}
		drop_doc(res);
		if failed() {
			return;
		}
	}
}

// ------------------------------------------------------------------ C17
/// what one reading operation costs: (name, most memory held at once, work)
type Cost = (&'static str, usize, u64);
pub fn gen_c17(r: &mut Rng, s: &mut Scenario) {
	p_io::gen_scale(r, s);
	s.nums[1] = s.nums[1].min(r.range(30, 150) as i64);
	s.nums.push(gen::render_opts(r) as i64);
	s.nums.push(*r.pick(&[0, 0, 300, 3000, 20000]));
	s.io = match r.below(4) {
		0 => vec![1, 2],
		1 => vec![*r.pick(&[1, 2, 3, 7]), *r.pick(&[0, 2, 3])],
		_ => vec![*r.pick(&[0, 16, 100, 512]), *r.pick(&[0, 2, 3])],
	};
}
fn costed<T>(out: &mut Vec<Cost>, name: &'static str, f: impl FnOnce() -> T) -> T {
	let before = crate::hooks::work();
	let (v, peak) = crate::hooks::measure(f);
	out.push((name, peak, crate::hooks::work() - before));
	v
}
const SLOW: &str = "parsing the file, slowly delivered";
pub fn exec_c17(s: &Scenario) {
	let g = |i: usize| s.nums.get(i).copied().unwrap_or(0);
	let (bits, ro) = (g(0) as usize, g(2) as usize & 255);
	// a multiple of 12, so that units which toggle a state leave the same state at every size
	let n = (g(1).max(1) as usize).min(2_000).div_ceil(12) * 12;
	let io = |i: usize| s.io.get(i).copied().unwrap_or(0).max(0) as u32;
	let mut costs: Vec<Vec<Cost>> = vec![];
	let mut tags = vec![];
	let mut lens = vec![];
	// the first round pays for tables that are built once: it is not measured
	for k in [1, 1, 2, 4, 16] {
		let t = p_io::scaled(s, n * k);
		let (len, text) = (t.len(), String::from_utf8_lossy(&t).into_owned());
		world::set_content(b"/w/a", &t);
		let mut c = vec![];
		world::deliver(0, 0, 0);
		let (res, _) = costed(&mut c, "parsing the file", || parse_path(&s.path, bits, 1000 * len));
		drop_doc(res);
		world::deliver(io(0), io(1), g(3).clamp(0, 50_000) as u32);
		let (res, _) = costed(&mut c, SLOW, || parse_path(&s.path, bits, 1000 * len));
		drop_doc(res);
		let res = costed(&mut c, "parsing the text", || parse_mem(&text, bits));
		world::arm_limit(u64::MAX / 4);
		rep().evals += 3;
		tags.push(p_io::outcome_tag(&res));
		lens.push(len);
		if let Ok(Ok(d)) = &res {
			let root = d.get_root_node();
			let _ = costed(&mut c, "rendering", || lib(|| d.render(&ropts(ro))));
			let _ = costed(&mut c, "rendering with default options", || lib(|| d.render(&ropts(0))));
			let kids = root.borrow().childs.clone().unwrap_or_default();
			if let Some(e) = kids.iter().rev().find(|e| e.borrow().node_type == NodeType::Tag) {
				let _ = costed(&mut c, "extracting text", || lib(|| e.borrow().build(&ropts(ro), true)));
			}
			let x = costed(&mut c, "cloning", || lib(|| root.borrow().clone_node()));
			let _ = costed(&mut c, "dropping a clone", || lib(move || drop(x)));
			let _ = costed(&mut c, "inspecting", || lib(|| (root.borrow().is_document(), d.get_element_by_id("k1").is_some())));
			rep().evals += 4;
		}
		let _ = costed(&mut c, "dropping", || lib(move || drop(res)));
		costs.push(c);
	}
	costs.remove(0);
	tags.remove(0);
	lens.remove(0);
	rep().nontrivial.push(hash_bytes(hash_bytes(17, format!("{:?} {:?} {n}", s.nums, s.io).as_bytes()), &p_io::scaled(s, 1)));
	rep().states.push(hash_bytes(17, format!("{tags:?} {:?}", costs[3].iter().map(|c| c.1 / 10_000).collect::<Vec<_>>()).as_bytes()));
	for (c, len) in costs.iter().zip(&lens) {
		for (what, peak, work) in c {
			if *peak > (256 << 10) + 2000 * len {
				violation("too-much-memory", format!("{what}: {peak} bytes of memory held at once for {len} bytes of input"));
			}
			if *work > 1_000_000 + 2500 * *len as u64 && !what.starts_with("pars") {
				violation("too-much-work", format!("{what}: {work} units of work for {len} bytes of input"));
			}
		}
		if c[1].1 > 2 * c[0].1 + (64 << 10) {
			violation("memory-grows-with-reads", format!("{SLOW} in pieces of {} bytes, every {}th call and {} reads interrupted: {} bytes of memory, delivered at once: {}", io(0), io(1), g(3), c[1].1, c[0].1));
		}
	}
	// the shape of the result has to be the same for the sizes to be comparable
	if tags.iter().any(|t| *t != tags[0]) || costs.iter().any(|c| c.iter().map(|x| x.0).ne(costs[0].iter().map(|x| x.0))) {
		return;
	}
	for i in 0..costs[0].len() {
		let (what, m0, w0) = costs[0][i];
		let (m3, w1, w2) = (costs[3][i].1, costs[1][i].2, costs[2][i].2);
		// buffers that double may be twice as large as needed; a square law would give a factor of 16
		let scale = lens[3] as f64 / lens[0].max(1) as f64;
		if m3 as f64 > 65536.0 + 4.0 * scale * m0 as f64 {
			violation("superlinear-memory", format!("{what}: {m0} bytes of memory for {} bytes of input, {m3} for {}", lens[0], lens[3]));
		}
		let (a, b) = (w1.saturating_sub(w0), w2.saturating_sub(w1));
		if b > 3 * a + 20_000 && !what.starts_with("pars") {
			violation("superlinear-work", format!("{what}: work for {n}, {} and {} repetitions: {w0}, {w1}, {w2}", 2 * n, 4 * n));
		}
	}
}
