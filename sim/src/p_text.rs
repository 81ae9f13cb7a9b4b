//! C05 damaged storage, C06 cut input, C07 error locality, C13 tree consistency, C15 repair
use crate::common::*;
use crate::dump::*;
use crate::gen;
use crate::orch::{bump, failed, lib, rep, violation};
use crate::p_io;
use crate::rng::{hash_bytes, Rng};
use crate::scen::Scenario;
use crate::world;
use rphtml::parser::*;
use std::collections::BTreeMap;
use std::rc::Rc;

// ------------------------------------------------------------------ generation
const DAMAGE: &[&str] = &["none", "truncated", "bit_flip", "zeroed_block", "lost_block", "duplicated_block", "stale_block", "byte_set", "spliced", "swapped_blocks"];
/// what storage does to bytes; returns the kind
fn damage(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> usize {
	let k = r.below(DAMAGE.len());
	if b.is_empty() {
		return 0;
	}
	let i = r.below(b.len());
	let n = (*r.pick(&[1usize, 2, 4, 8, 16, 64])).min(b.len() - i);
	match k {
		1 => b.truncate(i),
		2 => {
			for _ in 0..r.range(1, 3) {
				let j = r.below(b.len());
				b[j] ^= 1 << r.below(8);
			}
		}
		3 => b[i..i + n].fill(0),
		4 => {
			b.drain(i..i + n);
		}
		5 => {
			let t = b[i..i + n].to_vec();
			b.splice(i..i, t);
		}
		6 => {
			let m = n.min(other.len().saturating_sub(i));
			if m > 0 {
				let t = other[i..i + m].to_vec();
				b[i..i + m].copy_from_slice(&t);
			}
		}
		7 => b[i] = *r.pick(b"<>/=\"' -!&;]a\n\x00\xff"),
		8 => {
			let j = r.below(other.len() + 1);
			b.truncate(i);
			b.extend_from_slice(&other[j..]);
		}
		9 => {
			let j = r.below(b.len());
			let m = n.min(b.len() - j);
			for q in 0..m {
				b.swap(i + q, j + q);
			}
		}
		_ => {}
	}
	k
}
fn nested(r: &mut Rng) -> String {
	let d = if r.chance(1, 4) { r.range(480, 3000) } else { r.range(20, 480) };
	let u = *r.pick(&["<div>", "<p a=b>", "<svg>", "<b>\n", "<i>x", "<a id=q>"]);
	let mut s = u.repeat(d);
	if r.chance(2, 3) {
		let name: String = u[1..].chars().take_while(|c| c.is_alphabetic()).collect();
		s.push_str(&format!("</{name}>").repeat(r.range(0, d)));
	}
	s
}
pub fn gen_c05(r: &mut Rng, s: &mut Scenario) {
	let base = if r.chance(1, 40) { nested(r) } else if r.chance(1, 2500) { gen::huge(r) } else { gen::doc(r) };
	let other = gen::doc(r).into_bytes();
	let mut b = base.into_bytes();
	let mut mask = 0i64;
	for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) {
		mask |= 1 << damage(r, &mut b, &other);
	}
	s.texts = vec![b];
	s.nums = vec![gen::opts(r) as i64, mask, r.next() as u32 as i64];
	if r.chance(1, 3) {
		p_io::place(r, s);
		let n = s.texts[0].len();
		p_io::delivery(r, s, n);
	}
}
fn cut_list(r: &mut Rng, n: usize) -> Vec<u32> {
	let mut v: Vec<u32> = if n <= 70 { (0..=n as u32).collect() } else { (0..60).map(|_| r.below(n + 1) as u32).collect() };
	v.push(n as u32);
	if n > 70 {
		let a = r.below(n - 10) as u32;
		v.extend(a..a + 10);
	}
	v.sort();
	v.dedup();
	v
}
fn ascii_case(r: &mut Rng) -> String {
	match r.below(8) {
		0 | 1 => gen::doc(r),
		2 => {
			let n = r.range(4, 20);
			gen::soup(r, n)
		}
		3 => gen::plain_doc(r) + &gen::clean_doc(r),
		_ => gen::plain_doc(r),
	}
}
/// rarely: a long text, so that what depends on size or position shows
fn longer(r: &mut Rng, t: &mut String) -> usize {
	if r.chance(1, 150) {
		let n = *r.pick(&[700usize, 1100, 2100, 4200]);
		while t.chars().count() < n {
			t.push_str(&gen::clean_doc(r));
		}
		n + 100
	} else {
		400
	}
}
pub fn gen_c06(r: &mut Rng, s: &mut Scenario) {
	let mut t = ascii_case(r);
	let max = longer(r, &mut t);
	if t.chars().count() > max {
		t = t.chars().take(max).collect();
	}
	s.cuts = cut_list(r, t.chars().count());
	s.texts = vec![t.into_bytes()];
	let mut o = gen::opts(r);
	if r.chance(3, 4) {
		o |= 8;
	}
	s.nums = vec![o as i64];
}
pub fn gen_c07(r: &mut Rng, s: &mut Scenario) {
	let mut t = match r.below(4) {
		0 => {
			let n = r.range(3, 25);
			gen::soup(r, n)
		}
		1 => gen::doc(r),
		_ => {
			// many lines before something that fails
			let mut d = gen::plain_doc(r);
			for _ in 0..r.below(4) {
				d.push_str(r.pick(&["\n", "\r\n", "\r", "中\n", "a\n\n", "\n\r", "<p>x</p>\n"]));
				d.push_str(&gen::clean_doc(r));
			}
			d.push_str(r.pick(&["</zz>", "<1", "< ", "<!x", "<!Dx", "<![CDATA[", "<p/>", "<a =b>", "<!-x", "<!DOCTYPEx", "</\n>", "<\n", "<p></P\n>", "<p>\n", "<b\n"]));
			d
		}
	};
	if r.chance(1, 3) {
		t = t.replace(' ', r.pick(&["\n", "\r\n", "\r"]));
	}
	let mut max = 500;
	if r.chance(1, 150) {
		// far down or far right
		let k = *r.pick(&[130usize, 260, 300, 1030, 5000, 65_600, 70_000]);
		let u = *r.pick(&["\n", "x", "<p>\n</p>", "\r\n", "中\n", "<br> ", "\r"]);
		let u = if k > 60_000 { *r.pick(&["\n", "x", "中", "\r"]) } else { u };
		t = format!("{}{t}", u.repeat(k));
		max = if k > 60_000 { 80_000 } else { 6000 };
	}
	if t.chars().count() > max {
		t = t.chars().skip(t.chars().count() - max).collect();
	}
	let suffix = match r.below(4) {
		0 => String::new(),
		1 => {
			let n = r.range(1, 9);
			gen::soup(r, n)
		}
		2 => gen::doc(r),
		_ => r.pick(&["\n\n\n", "\r", "-->", "\"'>", "</zz>", ">", "x\ny", "中"]).to_string(),
	};
	let n = t.chars().count();
	s.cuts = if n > 20_000 { [n, n - 1, n - 2, n - 5, n - 9, n - 20, n - 80].iter().map(|x| *x as u32).collect() } else { cut_list(r, n) };
	s.texts = vec![t.into_bytes(), suffix.into_bytes()];
	s.nums = vec![gen::opts(r) as i64];
	s.cwd = "/w".into();
	s.path = "/w/f".into();
	s.files.push(crate::scen::FileEnt::file("/w/f", 0));
	s.io = vec![if n > 20_000 { 0 } else { *r.pick(&[0i64, 0, 1, 3]) }, 0];
}
pub fn gen_c13(r: &mut Rng, s: &mut Scenario) {
	gen_c05(r, s);
	if r.chance(1, 2) {
		let t = gen::plain_doc(r);
		// several ids, some duplicated
		let t = t.replace("a b", "id=main").replace("href", "id");
		s.texts = vec![t.into_bytes()];
		s.nums[1] = 0;
	}
	if r.chance(1, 2) {
		s.nums[0] |= 8;
	}
	let n = String::from_utf8_lossy(&s.texts[0]).chars().count();
	s.cuts = if r.chance(1, 2) { cut_list(r, n.min(300)).into_iter().filter(|_| r.chance(1, 3)).collect() } else { vec![] };
}
pub fn gen_c15(r: &mut Rng, s: &mut Scenario) {
	let t = ascii_case(r);
	let mut b = t.into_bytes();
	let other = gen::plain_doc(r).into_bytes();
	let mut mask = 0;
	for _ in 0..*r.pick(&[0usize, 1, 1, 2]) {
		mask |= 1i64 << damage(r, &mut b, &other);
	}
	// the property is about text
	let mut t = String::from_utf8_lossy(&b).into_owned();
	let max = longer(r, &mut t);
	if t.chars().count() > max {
		t = t.chars().take(max).collect();
	}
	let n = t.chars().count();
	s.cuts = if r.chance(2, 3) { cut_list(r, n) } else { vec![n as u32] };
	s.texts = vec![t.into_bytes()];
	s.nums = vec![0, mask];
	s.cwd = "/w".into();
	s.path = "/w/f".into();
	s.files.push(crate::scen::FileEnt::file("/w/f", 0));
}

// ------------------------------------------------------------------ C05
fn count_damage(mask: i64) {
	for (i, d) in DAMAGE.iter().enumerate() {
		if i > 0 && mask & (1 << i) != 0 {
			bump(&format!("damage_{d}"), 1);
		}
	}
}
fn one_tag_child(n: &DNode) -> bool {
	n.childs.is_none() || n.kids().iter().filter(|k| k.ty == NodeType::Tag).count() == 1
}
fn guard<T>(stage: &str, r: Result<T, String>) -> Option<T> {
	match r {
		Ok(v) => Some(v),
		Err(m) => {
			violation(&format!("panic-{stage}"), format!("{stage} panicked: {m} at {}", crate::orch::panic_at()));
			None
		}
	}
}
/// everything a caller may do with a returned document
fn exercise(d: &DocHolder, r: &mut Rng, size: usize) {
	world::arm_limit(400 * budget(size));
	let root = d.get_root_node();
	let dump = dref(&root);
	let all = preorder(&root);
	let mut ro: Vec<usize> = vec![0, 1, 255, 8, 64 | 1, 64, 128, 16, 2 | 4 | 32];
	for _ in 0..6 {
		ro.push(r.below(256));
	}
	for o in &ro {
		if guard("render", lib(|| d.render(&ropts(*o)))).is_none() {
			return;
		}
		rep().evals += 1;
		if one_tag_child(&dump) {
			guard("render-inner", lib(|| d.render(&ropts(*o | 256))));
			guard("render-text", lib(|| d.render_text(&ropts(*o))));
		}
	}
	let step = (all.len() / 25).max(1);
	for (i, n) in all.iter().enumerate() {
		if i % step != 0 && i + 3 < all.len() {
			continue;
		}
		let ty = n.borrow().node_type;
		let o = *r.pick(&ro);
		guard("build", lib(|| n.borrow().build(&ropts(o), false)));
		if ty == NodeType::Tag {
			guard("inner-html", lib(|| n.borrow().build(&ropts(o | 256), false)));
		}
		if matches!(ty, NodeType::Tag | NodeType::Comment | NodeType::XMLCDATA) {
			guard("inner-text", lib(|| n.borrow().build(&ropts(o), true)));
		}
		if let Some(e) = &n.borrow().end_tag {
			guard("build-end-tag", lib(|| e.borrow().build(&ropts(o), false)));
		}
		if i == 0 || r.chance(1, 4) {
			if let Some(c) = guard("clone", lib(|| n.borrow().clone_node())) {
				guard("drop-clone", lib(move || drop(c)));
			}
			let c = guard("clone-node", lib(|| n.borrow().clone()));
			guard("drop-clone", lib(move || drop(c)));
		}
		if failed() {
			return;
		}
	}
	guard("is-document", lib(|| root.borrow().is_document()));
	guard("debug", lib(|| format!("{:?}", root.borrow())));
	let ids: Vec<String> = d.borrow().id_tags.borrow().keys().cloned().collect();
	for k in ids {
		guard("by-id", lib(|| d.get_element_by_id(&k).is_some()));
	}
	world::arm_limit(u64::MAX / 4);
}
/// the recorded deep-nesting findings: one operation on one fixed input each
pub const DEEP: usize = 300_000;
pub const DEEP_OPS: &[&str] = &["drop", "render", "clone", "debug"];
pub fn deep_scenario(op: usize, seed: u64) -> Scenario {
	Scenario { prop: "C05".into(), seed, run: 0, texts: vec![b"<a>".to_vec()], nums: vec![-1, DEEP as i64, op as i64], ..Default::default() }
}
fn exec_deep(s: &Scenario) {
	let t = String::from_utf8_lossy(&s.texts[0]).repeat(s.nums[1] as usize);
	let d = match parse_mem(&t, 8) {
		Ok(Ok(d)) => d,
		_ => return,
	};
	rep().evals += 1;
	let d = std::mem::ManuallyDrop::new(d);
	guard(DEEP_OPS[s.nums[2] as usize], lib(|| match s.nums[2] {
		0 => drop(std::mem::ManuallyDrop::into_inner(d)),
		1 => drop(d.render(&Default::default())),
		2 => std::mem::forget(d.get_root_node().borrow().clone_node()),
		_ => drop(format!("{:?}", d.get_root_node().borrow())),
	}));
}
pub fn exec_c05(s: &Scenario) {
	if s.nums.first() == Some(&-1) {
		return exec_deep(s);
	}
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	count_damage(s.nums.get(1).copied().unwrap_or(0));
	let mut r = Rng::new(s.nums.get(2).copied().unwrap_or(0) as u64);
	let bytes = &s.texts[0];
	let utf8 = std::str::from_utf8(bytes);
	let mut results = vec![];
	if !s.path.is_empty() {
		let (res, _) = parse_path(&s.path, bits, bytes.len());
		rep().evals += 1;
		match &res {
			Err(m) => violation("panic-parse-file", format!("parse_file panicked: {m} at {}", crate::orch::panic_at())),
			Ok(Ok(_)) if utf8.is_err() => violation("bad-utf8-accepted", "a file that is not UTF-8 was accepted".into()),
			_ => {}
		}
		results.push(res);
	}
	if let Ok(t) = utf8 {
		let res = parse_mem(t, bits);
		rep().evals += 1;
		if let Err(m) = &res {
			violation("panic-parse", format!("parse panicked: {m} at {}", crate::orch::panic_at()));
		}
		results.push(res);
	} else {
		bump("not_utf8", 1);
	}
	for res in results {
		let o = outcome(&res);
		bump(&format!("outcome_{}", o.tag()), 1);
		rep().states.push(h(&otext(&o)));
		if failed() {
			return;
		}
		if let Ok(Ok(d)) = res {
			rep().nontrivial.push(hash_bytes(bits as u64, bytes));
			exercise(&d, &mut r, bytes.len());
			if failed() {
				return;
			}
			guard("drop", lib(move || drop(d)));
		} else if let Outcome::Syntax(..) = o {
			rep().nontrivial.push(hash_bytes(bits as u64, bytes));
		}
	}
}

// ------------------------------------------------------------------ C06
fn is_text(t: NodeType) -> bool {
	matches!(t, NodeType::Text | NodeType::SpacesBetweenTag)
}
fn pre(a: &Option<String>, b: &Option<String>) -> bool {
	match (a, b) {
		(None, _) => true,
		(Some(x), Some(y)) => y.starts_with(x.as_str()),
		(Some(x), None) => x.is_empty(),
	}
}
/// `p` (from the shorter input) may still be open; it must be a prefix of `l`
fn open_prefix(p: &DNode, l: &DNode, path: &str) -> Result<(), String> {
	let at = |m: &str| Err(format!("{path}: {m}: {} vs {}", clip(&p.text(), 300), clip(&l.text(), 300)));
	if is_text(p.ty) && is_text(l.ty) {
		if p.begin != l.begin || p.index != l.index || !pre(&p.content, &l.content) || l.end < p.end {
			return at("text completed before the cut changed");
		}
		return Ok(());
	}
	if p == l {
		return Ok(());
	}
	if p.ty != l.ty || p.begin != l.begin || p.index != l.index {
		return at("node changed");
	}
	if p.ty == NodeType::Tag {
		let (pm, lm) = match (&p.meta, &l.meta) {
			(Some(a), Some(b)) => (a, b),
			_ => return at("element without a name"),
		};
		if !pm.auto_fix {
			return at("element closed before the cut changed");
		}
		let started = p.childs.is_some() || p.content.is_some() || !pm.attrs.is_empty();
		if started && pm.name != lm.name || !lm.name.starts_with(pm.name.as_str()) {
			return at("element name changed");
		}
		if pm.attrs.len() > lm.attrs.len() {
			return at("attributes disappeared");
		}
		for (i, a) in pm.attrs.iter().enumerate() {
			let b = &lm.attrs[i];
			let last = i + 1 == pm.attrs.len() && p.childs.is_none();
			if a == b {
				continue;
			}
			if !last {
				return at("completed attribute changed");
			}
			let keep = if a.value.is_some() { a.key == b.key && pre(&a.value, &b.value) && a.quote == b.quote } else { pre(&a.key, &b.key) };
			if !keep {
				return at("attribute is not a prefix");
			}
		}
		if p.childs.is_some() && pm.attrs.len() != lm.attrs.len() {
			return at("attributes of an element whose start tag was complete changed");
		}
		if !pre(&p.content, &l.content) {
			return at("content is not a prefix");
		}
		return kids_prefix(p, l, path);
	}
	at("node completed before the cut changed")
}
fn kids_prefix(p: &DNode, l: &DNode, path: &str) -> Result<(), String> {
	let (a, b) = (p.kids(), l.kids());
	if a.len() > b.len() {
		return Err(format!("{path}: {} children before the cut, {} in the longer document", a.len(), b.len()));
	}
	for (i, k) in a.iter().enumerate() {
		let here = format!("{path}/{i}");
		if i + 1 < a.len() {
			if k != &b[i] {
				return Err(format!("{here}: node completed before the cut changed: {} vs {}", clip(&k.text(), 300), clip(&b[i].text(), 300)));
			}
		} else {
			open_prefix(k, &b[i], &here)?;
		}
	}
	Ok(())
}
fn prefix_rel(p: &DDoc, l: &DDoc) -> Result<(), String> {
	kids_prefix(&p.root, &l.root, "root")?;
	let last = p.root.count() as i64 - 1;
	for (k, v) in &p.ids {
		if *v == last {
			continue; // its tag may be the one that is cut
		}
		match l.ids.get(k) {
			Some(x) if x >= v => {}
			x => return Err(format!("id {k:?} found at node {v} before, {x:?} in the longer document")),
		}
	}
	Ok(())
}
fn any_fixed(n: &DNode) -> bool {
	n.meta.as_ref().map(|m| m.auto_fix).unwrap_or(false) || n.kids().iter().any(any_fixed)
}
pub fn exec_c06(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let text = String::from_utf8_lossy(&s.texts[0]).into_owned();
	let chars: Vec<char> = text.chars().collect();
	let mut cuts: Vec<usize> = s.cuts.iter().map(|c| (*c as usize).min(chars.len())).collect();
	cuts.sort();
	cuts.dedup();
	let mut prev: Option<(usize, DDoc)> = None;
	let mut first: Option<(usize, DDoc)> = None;
	let mut refused: Vec<(usize, Outcome)> = vec![];
	for c in cuts {
		let t: String = chars[..c].iter().collect();
		let o = mem_outcome(&t, bits);
		rep().evals += 1;
		rep().states.push(h(&otext(&o)));
		bump(&format!("cut_{}", o.tag()), 1);
		match &o {
			Outcome::Panic(m) => {
				violation("panic", format!("parsing {:?} panicked: {m}", clip(&t, 200)));
				return;
			}
			Outcome::Ok(d) => {
				for (pc, p) in prev.iter().chain(first.iter()) {
					rep().nontrivial.push(hash_bytes(*pc as u64, t.as_bytes()));
					if let Err(m) = prefix_rel(p, d) {
						violation("not-a-prefix", format!("cut at {pc} against cut at {c} (options {bits}): {m}"));
						return;
					}
				}
				if let Err(m) = crate::p_acct::account(&d.root, &chars[..c], bits) {
					violation("lost-before-cut", format!("{:?} (options {bits}): {m}", clip(&t, 300)));
					return;
				}
				if first.is_none() && c > 0 {
					first = Some((c, d.clone()));
				}
				if bits & 8 != 0 && !refused.is_empty() {
					let safe = crate::p_acct::repairable(&d.root, &chars[..c], bits);
					if let Some((k, e)) = refused.iter().find(|(k, _)| safe.iter().any(|(a, b)| a <= k && k <= b)) {
						violation("repairable-cut-refused", format!("{:?} is accepted (options {bits}), but cut at {k} with automatic closing it gives {}", clip(&t, 300), clip(&otext(e), 200)));
						return;
					}
					refused.clear();
				}
				prev = Some((c, d.clone()));
			}
			_ => refused.push((c, o.clone())),
		}
		// automatic closing on / off
		if bits & 16 == 0 {
			let on = if bits & 8 != 0 { o } else { mem_outcome(&t, bits | 8) };
			let off = mem_outcome(&t, bits & !8);
			rep().evals += 1;
			let unclosed = |o: &Outcome| matches!(o, Outcome::Syntax(_, k) if k.starts_with("UnclosedTag"));
			let ok = match &on {
				Outcome::Ok(d) if any_fixed(&d.root) => unclosed(&off),
				x if unclosed(x) => unclosed(&off),
				_ => on == off,
			};
			if !ok {
				violation("auto-close-on-off", format!("text {:?} options {bits}: with automatic closing {} without {}", clip(&t, 200), clip(&otext(&on), 400), clip(&otext(&off), 400)));
				return;
			}
		}
	}
}

// ------------------------------------------------------------------ C07
fn region(m: &str) -> Option<(usize, usize, usize)> {
	let m = m.strip_prefix("[line:")?;
	let (a, m) = m.split_once(",col:")?;
	let (b, m) = m.split_once(",index:")?;
	let (c, _) = m.split_once(']')?;
	Some((a.parse().ok()?, b.parse().ok()?, c.parse().ok()?))
}
/// line and column of the character at `index`
fn line_col(chars: &[char], index: usize) -> (usize, usize) {
	let (mut line, mut col) = (1, 0);
	for i in 0..=index.min(chars.len().saturating_sub(1)) {
		match chars[i] {
			'\r' => {
				line += 1;
				col = 0;
			}
			'\n' => {
				if i == 0 || chars[i - 1] != '\r' {
					line += 1;
				}
				col = 0;
			}
			_ => col += 1,
		}
	}
	(line, col)
}
fn check_region(m: &str, chars: &[char]) -> Result<(), String> {
	let (l, c, i) = region(m).ok_or("error without a position")?;
	if i >= chars.len().max(1) {
		return Err(format!("index {i} lies outside the {} characters consumed", chars.len()));
	}
	let want = line_col(chars, i);
	if (l, c) != want {
		return Err(format!("index {i} is at line {} column {}, reported line {l} column {c}", want.0, want.1));
	}
	Ok(())
}
pub fn exec_c07(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let text = String::from_utf8_lossy(&s.texts[0]).into_owned();
	let suffix = String::from_utf8_lossy(s.texts.get(1).map(|x| &x[..]).unwrap_or(b"")).into_owned();
	let chars: Vec<char> = text.chars().collect();
	let mut cuts: Vec<usize> = s.cuts.iter().map(|c| (*c as usize).min(chars.len())).collect();
	cuts.sort();
	cuts.dedup();
	let mut found: Option<(usize, Outcome)> = None;
	for c in cuts {
		let t: String = chars[..c].iter().collect();
		let o = mem_outcome(&t, bits);
		rep().evals += 1;
		bump(&format!("cut_{}", o.tag()), 1);
		rep().states.push(h(&format!("{:?}", if let Outcome::Syntax(m, k) = &o { (m.clone(), k.clone()) } else { Default::default() })));
		if let Some((fc, f)) = &found {
			rep().nontrivial.push(hash_bytes(c as u64, t.as_bytes()));
			if &o != f {
				violation("error-not-local", format!("the first {fc} characters fail with {f:?}, the first {c} give {}", clip(&otext(&o), 300)));
				return;
			}
			continue;
		}
		if let Outcome::Syntax(m, k) = &o {
			if let Err(e) = check_region(m, &chars[..c]) {
				violation("wrong-position", format!("text {:?}: error '{m}': {e}", clip(&t, 200)));
				return;
			}
			if !k.starts_with("UnclosedTag") {
				found = Some((c, o.clone()));
				// any other continuation
				for sfx in [&suffix, &String::from("\n"), &String::from("x")] {
					let o2 = mem_outcome(&format!("{t}{sfx}"), bits);
					rep().evals += 1;
					if o2 != o {
						violation("error-not-local", format!("{:?} fails with {o:?}, followed by {:?} gives {}", clip(&t, 300), clip(sfx, 100), clip(&otext(&o2), 300)));
						return;
					}
				}
			}
		}
	}
	// the same text from a file
	if world::content_at(s.path.as_bytes()).is_some() {
		let (res, _) = parse_path(&s.path, bits, chars.len());
		let got = outcome(&res);
		drop_doc(res);
		rep().evals += 1;
		let norm = normalise(&text);
		if let Outcome::Syntax(m, _) = &got {
			let nc: Vec<char> = norm.chars().collect();
			if let Err(e) = check_region(m, &nc) {
				violation("wrong-position-in-file", format!("file {:?}: error '{m}': {e}", clip(&norm, 200)));
				return;
			}
		}
		let want = mem_outcome(&norm, bits);
		let nonfinal = |o: &Outcome| matches!(o, Outcome::Syntax(_, k) if !k.starts_with("UnclosedTag"));
		if (nonfinal(&want) || nonfinal(&got)) && got != want {
			violation("file-error-differs", format!("from the file {} from memory {}", clip(&otext(&got), 300), clip(&otext(&want), 300)));
			return;
		}
		if let Some((_, f)) = &found {
			// without CR the file's text is a continuation of the failing text
			if !text.contains('\r') && &got != f {
				violation("file-error-differs", format!("from the file {} from memory {f:?}", clip(&otext(&got), 300)));
			}
		}
	}
}

// ------------------------------------------------------------------ C13
fn lc(s: &str) -> String {
	s.to_ascii_lowercase()
}
const VOIDS: &[&str] = &["img", "input", "meta", "link", "br", "hr", "col", "base", "param", "source", "area", "embed", "track", "wbr"];
const RAWS: &[&str] = &["script", "style", "title", "textarea"];
pub fn check_tree(d: &DocHolder, src: &[char]) -> Result<usize, String> {
	let nchars = src.len();
	let root = d.get_root_node();
	{
		let b = root.borrow();
		if b.node_type != NodeType::AbstractRoot || b.parent.is_some() || b.index != 0 {
			return Err("the root node is not a proper root".into());
		}
		if !b.root.as_ref().and_then(|w| w.upgrade()).map(|x| Rc::ptr_eq(&x, &root)).unwrap_or(false) {
			return Err("the root's root link is not itself".into());
		}
		if b.end_at > nchars {
			return Err(format!("root ends at {} of {nchars}", b.end_at));
		}
	}
	let mut ids: BTreeMap<String, RefNode> = BTreeMap::new();
	let mut seen: Vec<*const u8> = vec![];
	let n = walk(&root, &root, src, &mut 0, &mut ids, &mut seen, "root")?;
	seen.sort();
	if seen.windows(2).any(|w| w[0] == w[1]) {
		return Err("a node appears twice in the tree".into());
	}
	let doc = d.borrow();
	let idx = doc.id_tags.borrow();
	for (k, v) in &ids {
		match d.get_element_by_id(k) {
			Some(x) if Rc::ptr_eq(&x, v) => {}
			Some(_) => return Err(format!("id {k:?} leads to another node than the last element carrying it")),
			None => return Err(format!("id {k:?} is in the tree but not found")),
		}
	}
	for k in idx.keys() {
		if !ids.contains_key(k) {
			return Err(format!("id {k:?} is found but no element carries it"));
		}
	}
	Ok(n)
}
/// what the repair options make of a stretch of text: stray end tags are left out, '<' is escaped
fn mended(t: &str) -> String {
	let mut o = String::new();
	let mut rest = t;
	while let Some(i) = rest.find("</") {
		match rest[i..].find('>') {
			Some(k) => {
				o.push_str(&rest[..i]);
				rest = &rest[i + k + 1..];
			}
			None => break,
		}
	}
	o.push_str(rest);
	o.replace('<', "&lt;")
}
/// the offsets of a node delimit exactly the source it came from
fn span(b: &Node, src: &[char]) -> Result<(), String> {
	let here: String = src[b.begin_at..b.end_at].iter().collect();
	let content: String = b.content.as_ref().map(|c| c.iter().collect()).unwrap_or_default();
	let bad = |want: String| Err(format!("{:?} node at {}..{} stands for {here:?}, but holds {want:?}", b.node_type, b.begin_at, b.end_at));
	match b.node_type {
		NodeType::SpacesBetweenTag if !content.chars().all(|c| c.is_ascii_whitespace()) => Err(format!("text {content:?} is marked as white space between tags")),
		NodeType::Text | NodeType::SpacesBetweenTag => {
			if here != content && mended(&here) != content {
				return bad(content);
			}
			Ok(())
		}
		NodeType::Comment if here != format!("<!--{content}-->") => bad(content),
		NodeType::XMLCDATA if !(here.ends_with(&format!("{content}]]>")) && here.len() == content.len() + 12) => bad(content),
		NodeType::Tag => {
			let m = b.meta.as_ref().map(|m| m.borrow().name.iter().collect::<String>()).unwrap_or_default();
			let rest: String = src[b.begin_at..].iter().take(m.chars().count() + 1).collect();
			if rest != format!("<{m}") {
				return bad(m);
			}
			Ok(())
		}
		NodeType::TagEnd if !here.is_empty() && here != format!("</{content}>") => bad(content),
		_ => Ok(()),
	}
}
fn walk(n: &RefNode, root: &RefNode, src: &[char], last: &mut usize, ids: &mut BTreeMap<String, RefNode>, seen: &mut Vec<*const u8>, path: &str) -> Result<usize, String> {
	let nchars = src.len();
	let b = n.borrow();
	seen.push(Rc::as_ptr(n) as *const u8);
	let mut count = 1;
	if b.begin_at > b.end_at || b.end_at > nchars {
		return Err(format!("{path}: offsets {}..{} in an input of {nchars}", b.begin_at, b.end_at));
	}
	span(&b, src).map_err(|e| format!("{path}: {e}"))?;
	if let Some(m) = &b.meta {
		let m = m.borrow();
		if b.node_type == NodeType::Tag {
			for a in &m.attrs {
				let a = dattr(a);
				if let (Some(k), Some(v)) = (&a.key, &a.value) {
					if lc(k) == "id" {
						ids.insert(v.clone(), Rc::clone(n));
					}
				}
			}
			let name: String = lc(&m.name.iter().collect::<String>());
			let empty = b.childs.as_ref().map(|c| c.is_empty()).unwrap_or(true);
			if VOIDS.contains(&name.as_str()) && !empty {
				return Err(format!("{path}: void element {name} has children"));
			}
			if RAWS.contains(&name.as_str()) && !empty {
				return Err(format!("{path}: raw-text element {name} has children"));
			}
			let alone = m.is_void || m.self_closed;
			if m.is_void != VOIDS.contains(&name.as_str()) {
				return Err(format!("{path}: element {name} has is_void {}", m.is_void));
			}
			if alone && (!empty || b.end_tag.is_some()) {
				return Err(format!("{path}: void or self-closed element {name} has children or an end tag"));
			}
			if !alone && b.end_tag.is_none() {
				return Err(format!("{path}: element {name} is neither void nor self-closed and has no end tag"));
			}
		}
	} else if b.node_type == NodeType::Tag {
		return Err(format!("{path}: element without a name"));
	}
	match b.node_type {
		NodeType::Tag | NodeType::AbstractRoot => {}
		t => {
			if b.end_tag.is_some() || b.childs.is_some() {
				return Err(format!("{path}: {t:?} node with an end tag or children"));
			}
		}
	}
	if b.node_type != NodeType::AbstractRoot {
		if b.begin_at < *last {
			return Err(format!("{path}: begins at {}, inside what comes before it (up to {last})", b.begin_at));
		}
		*last = b.end_at.max(b.begin_at + 1);
	}
	let mut prev = b.begin_at;
	if let Some(c) = &b.childs {
		for (i, k) in c.iter().enumerate() {
			let here = format!("{path}/{i}");
			{
				let kb = k.borrow();
				if kb.index != i {
					return Err(format!("{here}: index {} at position {i}", kb.index));
				}
				if kb.node_type == NodeType::TagEnd || kb.node_type == NodeType::AbstractRoot {
					return Err(format!("{here}: {:?} node among the children", kb.node_type));
				}
				if !kb.parent.as_ref().and_then(|w| w.upgrade()).map(|x| Rc::ptr_eq(&x, n)).unwrap_or(false) {
					return Err(format!("{here}: parent link of a {:?} node is not its parent", kb.node_type));
				}
				if !kb.root.as_ref().and_then(|w| w.upgrade()).map(|x| Rc::ptr_eq(&x, root)).unwrap_or(false) {
					return Err(format!("{here}: root link of a {:?} node is not the root", kb.node_type));
				}
				if kb.begin_at < prev {
					return Err(format!("{here}: begins at {} before its predecessor at {prev}", kb.begin_at));
				}
				prev = kb.begin_at;
			}
			count += walk(k, root, src, last, ids, seen, &here)?;
		}
	}
	if let Some(e) = &b.end_tag {
		let eb = e.borrow();
		seen.push(Rc::as_ptr(e) as *const u8);
		if eb.node_type != NodeType::TagEnd {
			return Err(format!("{path}: end tag of type {:?}", eb.node_type));
		}
		if !eb.parent.as_ref().and_then(|w| w.upgrade()).map(|x| Rc::ptr_eq(&x, n)).unwrap_or(false) {
			return Err(format!("{path}: the end tag's parent link is not its element"));
		}
		let name: String = b.meta.as_ref().map(|m| m.borrow().name.iter().collect()).unwrap_or_default();
		let en: String = eb.content.as_ref().map(|c| c.iter().collect()).unwrap_or_default();
		if lc(&name) != lc(en.trim_end_matches(|c: char| c.is_ascii_whitespace())) {
			return Err(format!("{path}: element {name:?} closed by {en:?}"));
		}
		span(&eb, src).map_err(|e| format!("{path} end tag: {e}"))?;
		if eb.begin_at < *last {
			return Err(format!("{path}: the end tag begins at {}, before the end of the element's content at {last}", eb.begin_at));
		}
		*last = eb.end_at;
		if eb.begin_at < b.begin_at || eb.begin_at > eb.end_at || eb.end_at > nchars {
			return Err(format!("{path}: end tag offsets {}..{}", eb.begin_at, eb.end_at));
		}
	}
	Ok(count)
}
pub fn exec_c13(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let text = String::from_utf8_lossy(&s.texts[0]).into_owned();
	let chars: Vec<char> = text.chars().collect();
	let mut cases: Vec<(ParseRes, String)> = vec![];
	let mut cuts: Vec<usize> = s.cuts.iter().map(|c| (*c as usize).min(chars.len())).collect();
	cuts.push(chars.len());
	for c in cuts {
		let t: String = chars[..c].iter().collect();
		cases.push((parse_mem(&t, bits), t));
	}
	if !s.path.is_empty() && world::content_at(s.path.as_bytes()).is_some() && std::str::from_utf8(&s.texts[0]).is_ok() {
		let t = normalise(&text);
		cases.push((parse_path(&s.path, bits, chars.len()).0, t));
	}
	for (res, t) in cases {
		rep().evals += 1;
		let o = outcome(&res);
		bump(&format!("outcome_{}", o.tag()), 1);
		if let Outcome::Panic(m) = &o {
			violation("panic", format!("{:?} (options {bits}): {m}", clip(&t, 200)));
		}
		if let Ok(Ok(d)) = &res {
			rep().states.push(h(&otext(&o)));
			match check_tree(d, &t.chars().collect::<Vec<_>>()) {
				Ok(k) => {
					if k > 2 {
						rep().nontrivial.push(hash_bytes(bits as u64, t.as_bytes()));
					}
				}
				Err(e) => violation("inconsistent-tree", format!("text {:?} options {bits}: {e}", clip(&t, 300))),
			}
		}
		drop_doc(res);
		if failed() {
			return;
		}
	}
}

// ------------------------------------------------------------------ C15
pub fn exec_c15(s: &Scenario) {
	let text = String::from_utf8_lossy(&s.texts[0]).into_owned();
	count_damage(s.nums.get(1).copied().unwrap_or(0));
	let chars: Vec<char> = text.chars().collect();
	const REPAIR: usize = 8 | 16 | 32;
	for c in &s.cuts {
		let c = (*c as usize).min(chars.len());
		let t: String = chars[..c].iter().collect();
		let first = parse_mem(&t, REPAIR);
		rep().evals += 1;
		let o = outcome(&first);
		bump(&format!("repair_{}", o.tag()), 1);
		let d = match &first {
			Ok(Ok(d)) => d,
			Err(m) => {
				violation("panic", format!("repairing {:?} panicked: {m}", clip(&t, 200)));
				return;
			}
			_ => {
				drop_doc(first);
				continue;
			}
		};
		let s1 = match lib(|| d.render(&ropts(0))) {
			Ok(x) => x,
			Err(m) => {
				violation("panic", format!("rendering the repaired {:?} panicked: {m}", clip(&t, 200)));
				return;
			}
		};
		rep().states.push(h(&s1));
		if s1 != t {
			rep().nontrivial.push(h(&t));
		}
		drop_doc(first);
		let mut dumps = vec![];
		for (what, bits) in [("strict", 0usize), ("repairing", REPAIR)] {
			let again = parse_mem(&s1, bits);
			dumps.push(otext(&outcome(&again)));
			match &again {
				Ok(Ok(d2)) => {
					let s2 = lib(|| d2.render(&ropts(0)));
					if s2.as_deref() != Ok(&s1) {
						violation("not-stable", format!("{:?} repaired to {:?}, which after a {what} reload renders as {s2:?}", clip(&t, 300), clip(&s1, 300)));
					}
				}
				_ => {
					violation("not-accepted", format!("{:?} repaired to {:?}, which a {what} parse refuses: {}", clip(&t, 300), clip(&s1, 300), match &again { Err(m) => format!("panic {m}"), Ok(Err(e)) => e.to_string(), _ => String::new() }));
				}
			}
			drop_doc(again);
			if failed() {
				return;
			}
		}
		if dumps[0] != dumps[1] {
			violation("repair-of-sound-text", format!("{:?} is accepted without repair, yet the repair options change the document: {}", clip(&s1, 300), diff(&dumps[1], &dumps[0])));
			return;
		}
		// saved and reloaded from storage, strictly
		if c == chars.len() && !s.path.is_empty() && !s1.contains('\r') {
			world::set_content(s.path.as_bytes(), s1.as_bytes());
			let (res, _) = parse_path(&s.path, 0, s1.len());
			let want = normalise(&s1);
			let got = match &res {
				Ok(Ok(d2)) => lib(|| d2.render(&ropts(0))),
				Ok(Err(e)) => Err(e.to_string()),
				Err(m) => Err(format!("panic {m}")),
			};
			drop_doc(res);
			if got.as_deref() != Ok(&want) {
				violation("not-reloadable", format!("{:?} repaired and saved as {:?} reloads as {got:?}", clip(&t, 300), clip(&s1, 300)));
				return;
			}
		}
	}
}
