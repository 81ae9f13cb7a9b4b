//! C10 handle life times, C11 clones and edits, C12 reads under outstanding borrows
use crate::common::*;
use crate::dump::*;
use crate::gen;
use crate::orch::{bump, failed, lib, rep, violation};
use crate::rng::{hash_bytes, Rng};
use crate::scen::{Op, Scenario};
use rphtml::parser::*;
use std::cell::{Ref, RefMut};
use std::collections::BTreeSet;
use std::rc::Rc;

/// returns how far node numbers should reach
fn small_docs(r: &mut Rng, s: &mut Scenario, n: usize) -> usize {
	let big = r.chance(1, 60);
	for _ in 0..n {
		if big {
			let mut t = String::new();
			let k = *r.pick(&[600usize, 1500, 4000]);
			while t.len() < k {
				t.push_str(&gen::clean_doc(r));
			}
			s.texts.push(t.into_bytes());
			continue;
		}
		let t = match r.below(6) {
			0 => "<p id=main>a<b>x</b></p>".to_string(),
			1 => r.pick(&["<pre> a  <b>  c  d </b> <i> </i></pre>", "<p> a  b <i>c  d</i> &amp; </p>", "<PRE><u> x  y</u>\n</PRE> <p><pre>  <s>  t</s></pre></p>", "<textarea> &lt;  b</textarea><b> <i a='b c' d=\"e\"></i > </b>", "<ul><li>1<li>2</ul>", "<div><br>a<1<!-- c --></div>", "<svg><t><![CDATA[x]]></t></svg>", "<title>x</title> <p id=n1></p>", "a </x> b <i></i>"]).to_string(),
			2 => gen::doc(r),
			_ => gen::plain_doc(r),
		};
		let t: String = t.chars().take(250).collect();
		s.texts.push(t.into_bytes());
	}
	if big {
		300
	} else {
		0
	}
}
fn steps(r: &mut Rng, a: usize, b: usize) -> usize {
	if r.chance(1, 100) {
		r.range(b, 6 * b)
	} else {
		r.range(a, b)
	}
}
fn text(s: &Scenario, i: usize) -> String {
	if s.texts.is_empty() {
		return String::new();
	}
	String::from_utf8_lossy(&s.texts[i % s.texts.len()]).into_owned()
}
const IDS: &[&str] = &["main", "n1", "n2", "1", "abc", "x", ""];
const FIX: i64 = 8 | 16 | 32;
fn st(v: Vec<char>) -> String {
	v.into_iter().collect()
}
/// everything a node shows: rendered plainly, under options, its content, its text
fn shown(n: &RefNode, ro: usize) -> String {
	let f = |ro: usize, text: bool| lib(|| st(n.borrow().build(&ropts(ro), text))).unwrap_or_else(|m| format!("panic {m}"));
	let mut s = f(0, false);
	if ro > 0 {
		s.push_str(&format!("\n{}\n{}\n{}\n{:?}", f(ro & 255, false), f(ro & 255 | 256, false), f(ro & 255, true), lib(|| n.borrow().is_document())));
	}
	s
}
/// a tree made new from its description
fn twin(d: &DNode) -> RefNode {
	let chars = |t: &String| t.chars().collect::<Vec<char>>();
	let mut n = Node::new(d.ty, d.begin);
	n.end_at = d.end;
	n.index = d.index;
	n.content = d.content.as_ref().map(chars);
	n.meta = d.meta.as_ref().map(|m| {
		let mut t = TagMeta::default();
		t.name = chars(&m.name);
		t.is_void = m.is_void;
		t.self_closed = m.self_closed;
		t.auto_fix = m.auto_fix;
		t.attrs = m
			.attrs
			.iter()
			.map(|a| {
				let mut b = Attr::default();
				b.key = a.key.as_ref().map(|k| AttrData { content: chars(k) });
				b.value = a.value.as_ref().map(|k| AttrData { content: chars(k) });
				b.quote = a.quote;
				b.need_quote = a.need_quote;
				b
			})
			.collect();
		t.lc_name_map = m.names.iter().map(|(k, v)| (k.clone(), *v)).collect();
		std::cell::RefCell::new(t)
	});
	n.end_tag = d.end_tag.as_ref().map(|e| twin(e));
	let n = Rc::new(std::cell::RefCell::new(n));
	if let Some(k) = &d.childs {
		let kids: Vec<RefNode> = k.iter().map(twin).collect();
		for k in &kids {
			k.borrow_mut().parent = Some(Rc::downgrade(&n));
		}
		n.borrow_mut().childs = Some(kids);
	}
	n
}
// ================================================================== C10
pub fn gen_c10(r: &mut Rng, s: &mut Scenario) {
	s.nums = vec![if r.chance(1, 2) { gen::render_opts(r) as i64 } else { 0 }];
	let n = r.range(1, 3);
	let far = small_docs(r, s, n);
	let mut p = vec![];
	let docs = r.range(1, 2) as i64;
	for d in 0..docs {
		p.push(Op::new('P', &[d, if r.chance(4, 5) { FIX | (r.below(2) as i64) * 4 } else { gen::opts(r) as i64 }]));
	}
	for _ in 0..steps(r, 4, 30) {
		let a = r.below(16) as i64;
		let b = r.below(if far > 0 { 60 } else { 8 }) as i64;
		p.push(match r.below(24) {
			0..=2 => Op::new('r', &[a]),
			3..=8 => Op::new('c', &[a, b]),
			9..=10 => Op::new('p', &[a]),
			11 => Op::new('o', &[a]),
			12 => Op::new('d', &[a]),
			13 => Op::new('e', &[a]),
			14 | 15 => Op::new('i', &[a, b]),
			16 | 17 => Op::new('x', &[a]),
			18..=20 => Op::new('X', &[a]),
			21 => Op::new('P', &[a, FIX]),
			22 => Op::new('C', &[a]),
			_ => Op::new('R', &[a]),
		});
	}
	s.progs = vec![p];
}
struct Rec {
	parent: Option<usize>,
	is_end: bool,
	dump: DNode,
	render: String,
}
struct DocRec {
	holders: Vec<DocHolder>,
	nodes: Vec<Rec>,
	ids: Vec<(String, usize)>,
}
fn index_doc(d: &DocHolder, ro: usize) -> (Vec<Rec>, Vec<RefNode>) {
	let mut recs = vec![];
	let mut refs = vec![];
	fn go(n: &RefNode, ro: usize, parent: Option<usize>, is_end: bool, recs: &mut Vec<Rec>, refs: &mut Vec<RefNode>) {
		let me = recs.len();
		let render = shown(n, ro);
		recs.push(Rec { parent, is_end, dump: dref(n), render });
		refs.push(Rc::clone(n));
		let b = n.borrow();
		if let Some(c) = &b.childs {
			for k in c {
				go(k, ro, Some(me), false, recs, refs);
			}
		}
		if let Some(e) = &b.end_tag {
			go(e, ro, Some(me), true, recs, refs);
		}
	}
	go(&d.get_root_node(), ro, None, false, &mut recs, &mut refs);
	(recs, refs)
}
fn alive(docs: &[DocRec], hs: &[(usize, usize, RefNode)], d: usize, id: usize) -> bool {
	if !docs[d].holders.is_empty() {
		return true;
	}
	let mut chain = vec![id];
	let mut cur = id;
	while let Some(p) = docs[d].nodes[cur].parent {
		chain.push(p);
		cur = p;
	}
	hs.iter().any(|h| h.0 == d && chain.contains(&h.1))
}
fn check_link(what: &str, docs: &[DocRec], hs: &[(usize, usize, RefNode)], d: usize, target: usize, link: Option<RefNode>) -> Result<(), String> {
	let want = alive(docs, hs, d, target);
	match link {
		None if want => Err(format!("the {what} link reports absence although its target is still held")),
		Some(_) if !want => Err(format!("the {what} link resolves although nobody holds its target")),
		None => Ok(()),
		Some(n) => {
			if dref(&n) != docs[d].nodes[target].dump {
				return Err(format!("the {what} link leads to {} instead of {}", clip(&dref(&n).text(), 200), clip(&docs[d].nodes[target].dump.text(), 200)));
			}
			if let Some(x) = hs.iter().find(|x| x.0 == d && x.1 == target) {
				if !Rc::ptr_eq(&x.2, &n) {
					return Err(format!("the {what} link leads to a copy"));
				}
			}
			Ok(())
		}
	}
}
fn check_handles(docs: &[DocRec], hs: &[(usize, usize, RefNode)]) -> Result<(), String> {
	for (i, (d, id, n)) in hs.iter().enumerate() {
		let rec = &docs[*d].nodes[*id];
		let now = dref(n);
		if now != rec.dump {
			return Err(format!("handle {i} changed: {}", diff(&now.text(), &rec.dump.text())));
		}
		let b = n.borrow();
		match rec.parent {
			Some(p) => {
				let l = match &b.parent {
					Some(w) => w.upgrade(),
					None => return Err(format!("handle {i}: no parent link")),
				};
				check_link("parent", docs, hs, *d, p, l)?;
			}
			None => {
				if b.parent.is_some() {
					return Err(format!("handle {i}: the root has a parent link"));
				}
				let doc = b.document.as_ref().and_then(|w| w.upgrade());
				let held = !docs[*d].holders.is_empty();
				if doc.is_some() != held {
					return Err(format!("handle {i}: document reachable from its root: {}, somebody holds it: {held}", doc.is_some()));
				}
				if let Some(x) = doc {
					if !Rc::ptr_eq(&x.borrow().root, n) {
						return Err(format!("handle {i}: the document link leads to another document"));
					}
				}
			}
		}
		if !rec.is_end {
			let l = match &b.root {
				Some(w) => w.upgrade(),
				None => return Err(format!("handle {i}: no root link")),
			};
			check_link("root", docs, hs, *d, 0, l)?;
		}
	}
	Ok(())
}
pub fn exec_c10(s: &Scenario) {
	let p = match s.progs.first() {
		Some(p) => p,
		None => return,
	};
	let ro = s.nums.first().copied().unwrap_or(0) as usize;
	let mut docs: Vec<DocRec> = vec![];
	let mut hs: Vec<(usize, usize, RefNode)> = vec![];
	let mut drops = 0;
	for (step, o) in p.iter().enumerate() {
		let nh = hs.len();
		let child_id = |docs: &[DocRec], d: usize, id: usize, k: usize| -> Option<usize> {
			let kids: Vec<usize> = (0..docs[d].nodes.len()).filter(|i| docs[d].nodes[*i].parent == Some(id) && !docs[d].nodes[*i].is_end).collect();
			kids.get(k).copied()
		};
		let mut done = true;
		match o.k {
			'P' if docs.len() < 3 => {
				let r = parse_mem(&text(s, o.g(0)), o.g(1));
				match r {
					Ok(Ok(d)) => {
						let (nodes, refs) = index_doc(&d, ro);
						let ids = d.borrow().id_tags.borrow().iter().filter_map(|(k, v)| refs.iter().position(|x| Rc::ptr_eq(x, v)).map(|p| (k.clone(), p))).collect();
						if nodes.len() < 300 {
							docs.push(DocRec { holders: vec![d], nodes, ids });
						} else {
							let _ = lib(move || drop(d));
						}
						let _ = lib(move || drop(refs));
					}
					r => drop_doc(r),
				}
			}
			'r' if !docs.is_empty() => {
				let d = o.g(0) % docs.len();
				if let Some(h) = docs[d].holders.last() {
					let n = lib(|| h.get_root_node());
					match n {
						Ok(n) => hs.push((d, 0, n)),
						Err(m) => violation("panic", m),
					}
				}
			}
			'i' if !docs.is_empty() => {
				let d = o.g(0) % docs.len();
				if let Some(hd) = docs[d].holders.last() {
					let k = IDS[o.g(1) % IDS.len()];
					let got = lib(|| hd.get_element_by_id(k)).unwrap_or(None);
					let want = docs[d].ids.iter().find(|x| x.0 == k).map(|x| x.1);
					match (got, want) {
						(Some(n), Some(w)) => {
							hs.push((d, w, n));
						}
						(None, None) => {}
						(g, w) => violation("id-changed", format!("step {step}: id {k:?} found {} expected {w:?}", g.is_some())),
					}
				}
			}
			'X' if !docs.is_empty() => {
				let d = o.g(0) % docs.len();
				if let Some(h) = docs[d].holders.pop() {
					drops += 1;
					if let Err(m) = lib(move || drop(h)) {
						violation("panic", format!("dropping a document: {m}"));
					}
				}
			}
			_ if nh == 0 => done = false,
			'c' => {
				let (d, id, n) = &hs[o.g(0) % nh];
				let (d, id) = (*d, *id);
				let k = n.borrow().childs.as_ref().map(|c| c.len()).unwrap_or(0);
				if k > 0 {
					let k = o.g(1) % k;
					let c = Rc::clone(&n.borrow().childs.as_ref().unwrap()[k]);
					match child_id(&docs, d, id, k) {
						Some(ci) => hs.push((d, ci, c)),
						None => violation("children-changed", format!("step {step}: unexpected child {k}")),
					}
				}
			}
			'p' => {
				let (d, id, n) = &hs[o.g(0) % nh];
				let (d, id) = (*d, *id);
				let l = n.borrow().parent.as_ref().and_then(|w| w.upgrade());
				if let (Some(l), Some(pi)) = (l, docs[d].nodes[id].parent) {
					hs.push((d, pi, l));
				}
			}
			'o' => {
				let (d, _, n) = &hs[o.g(0) % nh];
				let d = *d;
				let l = n.borrow().root.as_ref().and_then(|w| w.upgrade());
				if let Some(l) = l {
					hs.push((d, 0, l));
				}
			}
			'd' => {
				let (d, id, n) = &hs[o.g(0) % nh];
				let d = *d;
				if *id == 0 {
					let l = n.borrow().document.as_ref().and_then(|w| w.upgrade());
					if let Some(l) = l {
						docs[d].holders.push(DocHolder::from(l));
					}
				}
			}
			'e' => {
				let (d, id, n) = &hs[o.g(0) % nh];
				let (d, id) = (*d, *id);
				let e = n.borrow().end_tag.clone();
				if let Some(e) = e {
					if let Some(ei) = (0..docs[d].nodes.len()).find(|i| docs[d].nodes[*i].is_end && docs[d].nodes[*i].parent == Some(id)) {
						hs.push((d, ei, e));
					}
				}
			}
			'x' => {
				let h = hs.remove(o.g(0) % nh);
				drops += 1;
				if let Err(m) = lib(move || drop(h)) {
					violation("panic", format!("dropping a handle: {m}"));
				}
			}
			'C' => {
				// a clone must not keep anything of the original alive
				let n = hs[o.g(0) % nh].2.clone();
				let c = lib(|| n.borrow().clone_node());
				match c {
					Ok(c) => {
						drop(n);
						let _ = lib(move || drop(c));
					}
					Err(m) => violation("panic", m),
				}
			}
			'R' => {
				let (d, id, n) = &hs[o.g(0) % nh];
				if let Err(m) = lib(|| (format!("{:?}", n.borrow()), n.borrow().is_document())) {
					violation("panic", format!("step {step}: inspecting a node: {m}"));
				}
				let got = shown(n, ro);
				if got != docs[*d].nodes[*id].render {
					violation("rendering-changed", format!("step {step}: {}", diff(&got, &docs[*d].nodes[*id].render)));
				}
			}
			_ => done = false,
		}
		if failed() {
			return;
		}
		if done {
			rep().evals += 1;
			bump(&format!("op_{}", o.k), 1);
		}
		if let Err(m) = check_handles(&docs, &hs) {
			violation("handle-broken", format!("after step {step} ({o:?}): {m}"));
			return;
		}
		let key = format!("{:?} {:?}", hs.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), docs.iter().map(|d| d.holders.len()).collect::<Vec<_>>());
		crate::world::log_event(&key);
		rep().states.push(hash_bytes(docs.iter().map(|d| d.nodes.len() as u64).sum(), key.as_bytes()));
	}
	if drops > 0 && !hs.is_empty() {
		rep().nontrivial.push(hash_bytes(1, format!("{:?}{:?}", s.progs, s.texts).as_bytes()));
	}
	// what is still held shows what it always showed
	for (d, id, n) in &hs {
		let got = shown(n, ro);
		if got != docs[*d].nodes[*id].render {
			violation("rendering-changed", format!("at the end: {}", diff(&got, &docs[*d].nodes[*id].render)));
			break;
		}
	}
	let _ = lib(move || {
		drop(hs);
		drop(docs);
	});
}

// ================================================================== C11
pub fn gen_c11(r: &mut Rng, s: &mut Scenario) {
	s.nums = vec![gen::render_opts(r) as i64];
	let n = r.range(1, 3);
	let far = small_docs(r, s, n);
	let mut p = vec![Op::new('P', &[0, FIX])];
	if r.chance(1, 3) {
		p.push(Op::new('P', &[1, gen::opts(r) as i64]));
	}
	for _ in 0..steps(r, 3, 24) {
		let (t, n, v) = (r.below(6) as i64, r.below(20.max(far)) as i64, r.below(50) as i64);
		p.push(match r.below(10) {
			0..=3 => Op::new('C', &[t, n, r.below(4) as i64]),
			4 if r.chance(1, 4) => Op::new('P', &[v, FIX]),
			_ => Op::new('E', &[t, n, r.below(13) as i64, v, r.below(6) as i64, r.below(20) as i64]),
		});
	}
	s.progs = vec![p];
}
const WILD: usize = usize::MAX;
fn rebase(n: &DNode, start: usize, top: bool) -> DNode {
	let f = |x: usize| if x == WILD || start == WILD || x < start { WILD } else { x - start };
	let mut c = n.clone();
	c.begin = f(n.begin);
	c.end = f(n.end);
	if top {
		c.index = 0;
	}
	c.end_tag = n.end_tag.as_ref().map(|e| Box::new(rebase(e, start, true)));
	c.childs = n.childs.as_ref().map(|k| k.iter().map(|x| rebase(x, start, false)).collect());
	c
}
fn same_model(real: &DNode, m: &DNode) -> bool {
	let off = |a: usize, b: usize| b == WILD || a == b;
	real.ty == m.ty
		&& off(real.begin, m.begin)
		&& off(real.end, m.end)
		&& real.index == m.index
		&& real.content == m.content
		&& real.meta == m.meta
		&& match (&real.end_tag, &m.end_tag) {
			(None, None) => true,
			(Some(a), Some(b)) => same_model(a, b),
			_ => false,
		} && match (&real.childs, &m.childs) {
		(None, None) => true,
		(Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_model(x, y)),
		_ => false,
	}
}
fn paths(m: &DNode) -> Vec<Vec<usize>> {
	let mut v = vec![];
	fn go(m: &DNode, p: &mut Vec<usize>, v: &mut Vec<Vec<usize>>) {
		v.push(p.clone());
		for (i, k) in m.kids().iter().enumerate() {
			p.push(i);
			go(k, p, v);
			p.pop();
		}
	}
	go(m, &mut vec![], &mut v);
	v
}
fn at<'a>(m: &'a mut DNode, p: &[usize]) -> &'a mut DNode {
	let mut c = m;
	for i in p {
		c = &mut c.childs.as_mut().unwrap()[*i];
	}
	c
}
fn real_at(n: &RefNode, p: &[usize]) -> RefNode {
	let mut c = Rc::clone(n);
	for i in p {
		let k = Rc::clone(&c.borrow().childs.as_ref().unwrap()[*i]);
		c = k;
	}
	c
}
fn pointers(n: &RefNode, v: &mut BTreeSet<usize>) {
	v.insert(Rc::as_ptr(n) as *const u8 as usize);
	let b = n.borrow();
	if let Some(e) = &b.end_tag {
		pointers(e, v);
	}
	if let Some(c) = &b.childs {
		for k in c {
			pointers(k, v);
		}
	}
}
/// links inside a fresh copy
fn check_copy_links(n: &RefNode, path: &str) -> Result<(), String> {
	let b = n.borrow();
	let mut prev: Option<&RefNode> = None;
	if let Some(c) = &b.childs {
		for (i, k) in c.iter().enumerate() {
			let kb = k.borrow();
			if !kb.parent.as_ref().and_then(|w| w.upgrade()).map(|x| Rc::ptr_eq(&x, n)).unwrap_or(false) {
				return Err(format!("{path}/{i}: the parent link does not lead to the parent in the copy"));
			}
			let pl = kb.prev.as_ref().and_then(|w| w.upgrade());
			match (prev, pl) {
				(None, None) => {}
				(Some(a), Some(x)) if Rc::ptr_eq(a, &x) => {}
				_ => return Err(format!("{path}/{i}: the previous-sibling link is not the previous sibling in the copy")),
			}
			drop(kb);
			check_copy_links(k, &format!("{path}/{i}"))?;
			prev = Some(k);
		}
	}
	Ok(())
}
fn cs(s: &str) -> Vec<char> {
	s.chars().collect()
}
const WORDS: &[&str] = &["new", " ", "é中", "a<b", "", "x  y", "\n", "long text with words"];
pub fn exec_c11(s: &Scenario) {
	let p = match s.progs.first() {
		Some(p) => p,
		None => return,
	};
	let mut trees: Vec<(RefNode, DNode)> = vec![];
	let mut docs: Vec<DocHolder> = vec![];
	let (mut clones, mut edits) = (0, 0);
	for (step, o) in p.iter().enumerate() {
		match o.k {
			'P' => {
				if docs.len() < 3 && trees.len() < 8 {
					match parse_mem(&text(s, o.g(0)), o.g(1)) {
						Ok(Ok(d)) => {
							let root = d.get_root_node();
							let m = dref(&root);
							if m.count() < 200 {
								trees.push((root, m));
							}
							docs.push(d);
						}
						r => drop_doc(r),
					}
				}
			}
			_ if trees.is_empty() => continue,
			'C' => {
				if trees.len() >= 8 {
					// forget the oldest copy
					let t = trees.remove(o.g(0) % trees.len());
					let _ = lib(move || drop(t));
				}
				if trees.is_empty() {
					continue;
				}
				let t = o.g(0) % trees.len();
				let ps = paths(&trees[t].1);
				let path = &ps[o.g(1) % ps.len()];
				let orig = real_at(&trees[t].0, path);
				let m = at(&mut trees[t].1, path).clone();
				let by_value = o.g(2) == 3;
				let c = if by_value {
					lib(|| {
						let n: Node = orig.borrow().clone();
						Rc::new(std::cell::RefCell::new(n))
					})
				} else {
					lib(|| orig.borrow().clone_node())
				};
				let c = match c {
					Ok(c) => c,
					Err(e) => {
						violation("panic", format!("step {step}: cloning {} panicked: {e} at {}", clip(&m.text(), 300), crate::orch::panic_at()));
						return;
					}
				};
				clones += 1;
				let want = rebase(&m, m.begin, true);
				let got = dref(&c);
				if !same_model(&got, &want) {
					violation("copy-differs", format!("step {step}: clone of {}: {}", clip(&m.text(), 200), diff(&got.text(), &want.text())));
					return;
				}
				{
					let b = c.borrow();
					if b.parent.as_ref().and_then(|w| w.upgrade()).is_some() || b.prev.as_ref().and_then(|w| w.upgrade()).is_some() {
						violation("not-detached", format!("step {step}: the clone still has a parent or a previous sibling"));
						return;
					}
				}
				if !by_value {
					if let Err(e) = check_copy_links(&c, "copy") {
						violation("copy-links", format!("step {step}: {e}"));
						return;
					}
				}
				let mut mine = BTreeSet::new();
				pointers(&c, &mut mine);
				for (k, (r, _)) in trees.iter().enumerate() {
					let mut other = BTreeSet::new();
					pointers(r, &mut other);
					if mine.intersection(&other).next().is_some() {
						violation("shared-node", format!("step {step}: the clone shares a node with tree {k}"));
						return;
					}
				}
				let ro = s.nums.first().copied().unwrap_or(0) as usize;
				let (a, b) = (shown(&orig, ro), shown(&c, ro));
				if a != b {
					violation("copy-renders-differently", format!("step {step}: {a:?} / {b:?}"));
					return;
				}
				trees.push((c, want));
			}
			_ => {
				edits += 1;
				let t = o.g(0) % trees.len();
				let ps = paths(&trees[t].1);
				let path = ps[o.g(1) % ps.len()].clone();
				let real = real_at(&trees[t].0, &path);
				let word = WORDS[o.g(3) % WORDS.len()];
				let v = o.g(4);
				match o.g(2) {
					0 | 1 => {
						let m = at(&mut trees[t].1, &path);
						if m.content.is_some() {
							real.borrow_mut().content = Some(cs(word));
							m.content = Some(word.to_string());
						}
					}
					2 => {
						let m = at(&mut trees[t].1, &path);
						let b = real.borrow();
						if let (Some(x), Some(mm)) = (&b.meta, &mut m.meta) {
							let mut x = x.borrow_mut();
							let k = format!("k{}", o.g(3));
							x.attrs.push(Attr { key: Some(AttrData { content: cs(&k) }), value: Some(AttrData { content: cs(word) }), quote: Some('"'), need_quote: true });
							let i = x.attrs.len() - 1;
							x.lc_name_map.insert(k.clone(), i);
							mm.attrs.push(DAttr { key: Some(k.clone()), value: Some(word.into()), quote: Some('"'), need_quote: true });
							mm.names.insert(k, i);
						}
					}
					3 => {
						let m = at(&mut trees[t].1, &path);
						let b = real.borrow();
						if let (Some(x), Some(mm)) = (&b.meta, &mut m.meta) {
							let mut x = x.borrow_mut();
							if !x.attrs.is_empty() {
								let i = v % x.attrs.len();
								x.attrs[i].value = Some(AttrData { content: cs(word) });
								mm.attrs[i].value = Some(word.into());
							}
						}
					}
					4 => {
						let m = at(&mut trees[t].1, &path);
						let b = real.borrow();
						if let (Some(x), Some(mm)) = (&b.meta, &mut m.meta) {
							let mut x = x.borrow_mut();
							x.name = cs("renamed");
							x.self_closed = !x.self_closed;
							mm.name = "renamed".into();
							mm.self_closed = !mm.self_closed;
						}
					}
					5 => {
						let m = at(&mut trees[t].1, &path);
						let mut b = real.borrow_mut();
						if let (Some(c), Some(mc)) = (&mut b.childs, &mut m.childs) {
							if !c.is_empty() {
								let i = v % c.len();
								let x = c.remove(i);
								mc.remove(i);
								drop(b);
								let _ = lib(move || drop(x));
							}
						}
					}
					6 | 7 => {
						let m = at(&mut trees[t].1, &path);
						if matches!(m.ty, NodeType::Tag | NodeType::AbstractRoot) {
							let len = m.kids().len();
							let i = v % (len + 1);
							let at_pos = if o.g(2) == 7 { Some(o.g(3) * 3) } else { None };
							let mut n = match lib(|| Node::create_text_node(cs(word), at_pos)) {
								Ok(n) => n,
								Err(e) => {
									violation("panic", e);
									return;
								}
							};
							n.index = i;
							n.parent = Some(Rc::downgrade(&real));
							let mn = dnode(&n);
							let spaces = word.chars().all(|c| c.is_ascii_whitespace());
							if mn.content.as_deref() != Some(word) || (mn.ty == NodeType::SpacesBetweenTag) != spaces {
								violation("text-node", format!("created text node {} for {word:?}", mn.text()));
								return;
							}
							real.borrow_mut().childs.get_or_insert_with(Vec::new).insert(i, Rc::new(std::cell::RefCell::new(n)));
							m.childs.get_or_insert_with(Vec::new).insert(i, mn);
						}
					}
					8 | 9 => {
						// move a subtree of another tree here (or a copy of one)
						let ok = matches!(at(&mut trees[t].1, &path).ty, NodeType::Tag | NodeType::AbstractRoot);
						let u = (t + 1 + v) % trees.len();
						if ok && u != t {
							let ups = paths(&trees[u].1);
							let up = ups[o.g(5) % ups.len()].clone();
							if up.is_empty() || trees[u].1.count() + trees[t].1.count() > 250 {
								continue;
							}
							let (last, par) = up.split_last().unwrap();
							let rp = real_at(&trees[u].0, par);
							let moved = rp.borrow_mut().childs.as_mut().unwrap().remove(*last);
							let mm = at(&mut trees[u].1, par).childs.as_mut().unwrap().remove(*last);
							moved.borrow_mut().parent = Some(Rc::downgrade(&real));
							real.borrow_mut().childs.get_or_insert_with(Vec::new).push(moved);
							at(&mut trees[t].1, &path).childs.get_or_insert_with(Vec::new).push(mm);
						}
					}
					10 => {
						let m = at(&mut trees[t].1, &path);
						real.borrow_mut().end_tag = None;
						m.end_tag = None;
					}
					11 => {
						let m = at(&mut trees[t].1, &path);
						if let (Some(c), Some(mc)) = (&real.borrow().childs, &mut m.childs) {
							for (i, k) in c.iter().enumerate() {
								k.borrow_mut().index = i;
								mc[i].index = i;
							}
						}
					}
					_ => {
						let m = at(&mut trees[t].1, &path);
						if let (Some(e), Some(me)) = (&real.borrow().end_tag, &mut m.end_tag) {
							e.borrow_mut().content = Some(cs("closing "));
							me.content = Some("closing ".into());
						}
					}
				}
			}
		}
		rep().evals += 1;
		bump(&format!("op_{}{}", o.k, if o.k == 'E' { o.g(2).to_string() } else { String::new() }), 1);
		for (k, (r, m)) in trees.iter().enumerate() {
			let now = dref(r);
			if !same_model(&now, m) {
				violation("edit-leaked", format!("after step {step} ({o:?}) tree {k} shows {}", diff(&now.text(), &m.text())));
				return;
			}
			if k == 0 {
				rep().states.push(h(&m.text()));
			}
		}
		crate::world::log_event(&format!("{step}"));
	}
	if clones > 0 && edits > 0 {
		let ro = s.nums.first().copied().unwrap_or(0) as usize;
		for (k, (r, _)) in trees.iter().enumerate() {
			let t = twin(&dref(r));
			let (a, b) = (shown(r, ro), shown(&t, ro));
			if a != b {
				violation("edit-not-shown", format!("tree {k} after the edits, and the same tree made new: {}", diff(&a, &b)));
				return;
			}
		}
		rep().nontrivial.push(hash_bytes(1, format!("{:?}{:?}", s.progs, s.texts).as_bytes()));
	}
	let _ = lib(move || {
		drop(trees);
		drop(docs);
	});
}

// ================================================================== C12
pub fn gen_c12(r: &mut Rng, s: &mut Scenario) {
	let far = small_docs(r, s, 1);
	let mut p = vec![];
	for _ in 0..steps(r, 4, 30) {
		let (a, b) = (r.below(24.max(far)) as i64, r.below(24.max(far)) as i64);
		let ro = gen::render_opts(r) as i64;
		p.push(match r.below(20) {
			0..=2 => Op::new('g', &[a, 0]),
			3 | 4 => Op::new('g', &[a, 1]),
			5 => Op::new('g', &[a, 2]),
			6 => Op::new('g', &[a, 3]),
			7 | 8 => Op::new('u', &[a]),
			9 => Op::new('b', &[r.below(2) as i64]),
			10 | 11 => Op::new('R', &[a, ro, r.below(4) as i64]),
			12 | 13 => Op::new('D', &[ro, r.below(3) as i64]),
			14 | 15 => Op::new('C', &[a]),
			16 => Op::new('I', &[r.below(IDS.len()) as i64]),
			17 => Op::new('Z', &[a]),
			18 => Op::new('M', &[a, b]),
			_ => Op::new('G', &[0]),
		});
	}
	s.progs = vec![p];
	s.nums = vec![if r.chance(3, 4) { FIX } else { gen::opts(r) as i64 }];
}
fn read_op(d: &DocHolder, all: &[RefNode], o: &Op) -> String {
	let sh = |r: Result<String, String>| match r {
		Ok(s) => format!("= {s}"),
		Err(m) => format!("panic {m}"),
	};
	let n = &all[o.g(0) % all.len()];
	match o.k {
		'R' => match o.g(2) {
			0 | 1 => sh(lib(|| st(n.borrow().build(&ropts(o.g(1)), false)))),
			2 => sh(lib(|| st(n.borrow().build(&ropts(o.g(1) | 256), false)))),
			_ => sh(lib(|| st(n.borrow().build(&ropts(o.g(1)), true)))),
		},
		'D' => match o.g(1) {
			0 => sh(lib(|| d.render(&ropts(o.g(0))))),
			1 => sh(lib(|| d.render(&ropts(o.g(0) | 256)))),
			_ => sh(lib(|| d.render_text(&ropts(o.g(0))))),
		},
		'C' => match lib(|| n.borrow().clone_node()) {
			Ok(c) => {
				let t = dref(&c).text();
				let _ = lib(move || drop(c));
				format!("= {t}")
			}
			Err(m) => format!("panic {m}"),
		},
		'I' => sh(lib(|| d.get_element_by_id(IDS[o.g(0) % IDS.len()])).map(|x| match x {
			None => "none".into(),
			Some(n) => format!("{:?}", all.iter().position(|y| Rc::ptr_eq(y, &n))),
		})),
		'Z' => sh(lib(|| format!("{:?}", n.borrow().is_document()))),
		'M' => sh(lib(|| format!("{}", Node::is_same(n, &all[o.g(1) % all.len()])))),
		'G' => sh(lib(|| d.get_root_node()).map(|x| format!("{}", Rc::ptr_eq(&x, &all[0])))),
		_ => String::new(),
	}
}
/// all nodes including end tags, and for each the indexes of its subtree
fn index_all(root: &RefNode) -> (Vec<RefNode>, Vec<(usize, usize)>, Vec<Option<usize>>) {
	let (mut v, mut span, mut par) = (vec![], vec![], vec![]);
	fn go(n: &RefNode, p: Option<usize>, v: &mut Vec<RefNode>, span: &mut Vec<(usize, usize)>, par: &mut Vec<Option<usize>>) {
		let me = v.len();
		v.push(Rc::clone(n));
		span.push((me, me));
		par.push(p);
		let b = n.borrow();
		if let Some(c) = &b.childs {
			for k in c {
				go(k, Some(me), v, span, par);
			}
		}
		if let Some(e) = &b.end_tag {
			go(e, Some(me), v, span, par);
		}
		span[me].1 = v.len();
	}
	go(root, None, &mut v, &mut span, &mut par);
	(v, span, par)
}
#[allow(dead_code)]
enum Guard {
	S(Ref<'static, Node>),
	X(RefMut<'static, Node>),
	MS(Ref<'static, TagMeta>),
	MX(RefMut<'static, TagMeta>),
	D(Ref<'static, Doc>),
	I(Ref<'static, StringNodeMap>),
}
pub fn exec_c12(s: &Scenario) {
	let p = match s.progs.first() {
		Some(p) => p,
		None => return,
	};
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let d = match parse_mem(&text(s, 0), bits) {
		Ok(Ok(d)) => d,
		r => return drop_doc(r),
	};
	let root = d.get_root_node();
	let (all, span, par) = index_all(&root);
	if all.len() > 400 {
		return;
	}
	let before = ddoc(&d);
	// what each read gives when nothing is borrowed
	let mut want = vec![];
	for o in p {
		let x = read_op(&d, &all, o);
		let now = ddoc(&d);
		if now != before {
			violation("read-changes-document", format!("{o:?} changed the document: {}", diff(&now.text(), &before.text())));
			return;
		}
		want.push(x);
	}
	for (i, n) in all.iter().enumerate() {
		if n.try_borrow_mut().is_err() {
			violation("borrow-left-behind", format!("node {i} is still borrowed after reads returned"));
			return;
		}
	}
	let mut guards: Vec<(usize, Guard)> = vec![];
	let (mut ng, mut nr) = (0, 0);
	let dref_static: &'static DocHolder = unsafe { &*(&d as *const DocHolder) };
	for (step, o) in p.iter().enumerate() {
		match o.k {
			'g' => {
				let i = o.g(0) % all.len();
				let n: &'static RefNode = unsafe { &*(&all[i] as *const RefNode) };
				let g = match o.g(1) {
					0 => n.try_borrow().ok().map(Guard::S),
					1 => n.try_borrow_mut().ok().map(Guard::X),
					k => {
						let m = n.try_borrow().ok().and_then(|b| b.meta.as_ref().map(|m| m as *const std::cell::RefCell<TagMeta>));
						// the cell lives in the node, which `all` keeps alive and in place
						m.and_then(|m| {
							let m: &'static std::cell::RefCell<TagMeta> = unsafe { &*m };
							if k == 2 {
								m.try_borrow().ok().map(Guard::MS)
							} else {
								m.try_borrow_mut().ok().map(Guard::MX)
							}
						})
					}
				};
				if let Some(g) = g {
					bump(match g { Guard::S(_) => "guard_shared", Guard::X(_) => "guard_exclusive", Guard::MS(_) => "guard_meta_shared", _ => "guard_meta_exclusive" }, 1);
					guards.push((i, g));
					ng += 1;
				}
				continue;
			}
			'u' => {
				if !guards.is_empty() {
					let k = o.g(0) % guards.len();
					drop(guards.remove(k));
				}
				continue;
			}
			'b' => {
				if o.g(0) % 2 == 1 {
					// the table lives in the document, which `d` keeps alive
					let t: &'static std::cell::RefCell<StringNodeMap> = unsafe { &*Rc::as_ptr(&d.borrow().id_tags) };
					if let Ok(t) = t.try_borrow() {
						guards.push((usize::MAX, Guard::I(t)));
						bump("guard_id_table_shared", 1);
					}
				} else {
					guards.push((usize::MAX, Guard::D(dref_static.borrow())));
					bump("guard_document_shared", 1);
				}
				continue;
			}
			_ => {}
		}
		let i = o.g(0) % all.len();
		let excl: Vec<usize> = guards.iter().filter(|g| matches!(g.1, Guard::X(_) | Guard::MX(_))).map(|g| g.0).collect();
		let conflict = match o.k {
			'R' | 'C' => excl.iter().any(|e| *e >= span[i].0 && *e < span[i].1),
			'D' => !excl.is_empty(),
			'Z' => excl.iter().any(|e| *e == i || par[*e] == Some(i)),
			_ => false,
		};
		let got = read_op(&d, &all, o);
		rep().evals += 1;
		if !guards.is_empty() {
			nr += 1;
		}
		rep().states.push(hash_bytes(step as u64, format!("{:?}{excl:?}{got}", o).as_bytes()));
		let ok = got == want[step] || (conflict && got.starts_with("panic"));
		if conflict && got.starts_with("panic") {
			bump("read_refused_by_exclusive_guard", 1);
		}
		if !ok {
			violation("read-differs", format!("step {step} ({o:?}) with guards on {:?} (exclusive {excl:?}): {}", guards.iter().map(|g| g.0).collect::<Vec<_>>(), diff(&got, &want[step])));
			break;
		}
		crate::world::log_event(&got);
		if excl.is_empty() {
			let now = ddoc(&d);
			if now != before {
				violation("read-changes-document", format!("step {step} ({o:?}): {}", diff(&now.text(), &before.text())));
				break;
			}
		}
	}
	drop(guards);
	if failed() {
		return;
	}
	for (i, n) in all.iter().enumerate() {
		let free = n.try_borrow_mut().is_ok() && n.borrow().meta.as_ref().map(|m| m.try_borrow_mut().is_ok()).unwrap_or(true);
		if !free {
			violation("borrow-left-behind", format!("node {i} is still borrowed after every read returned or panicked"));
			return;
		}
	}
	let now = ddoc(&d);
	if now != before {
		violation("read-changes-document", format!("at the end: {}", diff(&now.text(), &before.text())));
	}
	// fully usable: every read gives its first result again
	for (o, w) in p.iter().zip(&want) {
		let got = read_op(&d, &all, o);
		if &got != w {
			violation("not-usable-afterwards", format!("{o:?}: {}", diff(&got, w)));
			return;
		}
	}
	if ng > 0 && nr > 0 {
		rep().nontrivial.push(hash_bytes(1, format!("{:?}{:?}", s.progs, s.texts).as_bytes()));
	}
	drop(root);
	let _ = lib(move || {
		drop(all);
		drop(d);
	});
}
