//! C18 composition: parts put one after the other are read as if each were alone
use crate::common::*;
use crate::dump::*;
use crate::gen;
use crate::orch::{bump, failed, lib, rep, violation};
use crate::p_io;
use crate::rng::{hash_bytes, Rng};
use crate::scen::{Event, FileEnt, Scenario};
use crate::world;
use rphtml::parser::*;

const UNITS: &[&str] = &[
	"<svg><g/></svg>", "<SVG><g/></svg>", "<svg></SVG >", "<math><mi/><b><![CDATA[x]]></b></math>", "<Math></math>", "<svg><math></math></svg>", "<svg><svg></svg></svg>",
	"<pre> a  b </pre>", "<PRE>\n</PRE>", "<script>a<b</script>", "<script></SCRIPT >", "<style> </style>", "<title>a&lt;b</title>", "<textarea><p></textarea>", "<!-- c -->", "<!---->",
	"<!DOCTYPE html>", "<!doctype a 'b' \"c\">", "<br>", "<br/>", "<BR a=b>", "<img src='x' / >", "<p id=a>x</p>", "<p id='a'> </p>", "<b id=\"main\"></b >", "<p> <i></i> </p>", "<P></P>", "<p></P>",
	"<a b c='d' e=f></a>", "<a b=></a>", "<ul>\n<li>1</li>\n</ul>", "<g/>", "<p/>", "<g>", "</g>", "<![CDATA[x]]>", "<a =b></a>", "<", "<1", "text", " ", "\n", "a  b", "&amp; &#65;", "<!x", "<div>", "</div>", "<pre><p> x </p></pre>", "<t><pre></pre>  <b>  y </b></t>",
	"<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">", "<html xmlns='http://www.w3.org/1999/xhtml'></html>", "<meta charset=gbk>", "<base href='/x/'>", "<template><p></p></template>", "<noscript><p/></noscript>", "<plaintext></plaintext>", "<xmp></xmp>", "<select><option>1</option></select>", "<form></form>", "<iframe></iframe>", "<pre></pre >", "<pre />", "<p></p  >", "</p >",
	"<html> </html>", "<head></head> <body></body>", "<input disabled><hr>", "<script src=x />", "<title/>", "<textarea a='>'>\n </textarea>", "<svg><title>x<b/></title></svg>", "<svg><script>1</script><g/></svg>", "<svg><p/><br><g></g></svg>", "<!--a--><!--b-->", "<b\n>\n</b\n>",
];
const NAMES: &[&str] = &[
	"html", "head", "body", "table", "tr", "td", "ul", "li", "p", "a", "b", "div", "section", "select", "option", "form", "button", "svg", "math", "pre", "template", "noscript", "nav", "h1", "dl", "label", "object", "video", "x-y", "font", "center", "marquee", "frameset", "blockquote", "code", "iframe",
];
const INSIDE: &[&str] = &["<!--c-->", "<!-- -->", " ", "\n", "x", " x ", "a  b", "&lt;", "<br>", "<b></b>", "<i> </i>", "<pre> </pre>", "<script> </script>", "<style>a</style>", "<title> t</title>", "<textarea>\n</textarea>", "<input a=b>", "<meta a='b'>", "<p></p >"];
/// elements of all kinds with content of all kinds at the beginning, in the middle, at the end
fn nested(r: &mut Rng, depth: usize) -> String {
	let name = *r.pick(NAMES);
	let name = if r.chance(1, 6) { name.to_uppercase() } else { name.to_string() };
	let mut s = format!("<{name}>");
	let mut text = false;
	for _ in 0..r.below(4) {
		let t = if depth < 4 && r.chance(1, 3) { nested(r, depth + 1) } else { r.pick(INSIDE).to_string() };
		if text && !t.starts_with('<') {
			continue;
		}
		text = !t.starts_with('<');
		s.push_str(&t);
	}
	s.push_str(&format!("</{name}>"));
	s
}
fn part(r: &mut Rng) -> String {
	match r.below(10) {
		8 | 9 => nested(r, 0),
		0 => gen::clean_doc(r),
		1 => gen::plain_doc(r),
		2 => gen::soup(r, 8),
		3 => {
			let t = gen::doc(r);
			match (t.find('<'), t.rfind('>')) {
				(Some(a), Some(b)) if a < b => t[a..=b].to_string(),
				_ => t,
			}
		}
		_ => (0..r.range(1, 4)).map(|_| *r.pick(UNITS)).collect(),
	}
}
pub fn gen_c18(r: &mut Rng, s: &mut Scenario) {
	for _ in 0..*r.pick(&[2usize, 2, 3, 3, 4, 6]) {
		let t = if !s.texts.is_empty() && r.chance(1, 6) {
			String::from_utf8_lossy(r.pick(&s.texts)).into_owned()
		} else {
			part(r)
		};
		s.texts.push(t.into_bytes());
	}
	if r.chance(1, 150) {
		// far more than any buffer or table holds
		let k = r.below(s.texts.len());
		let t = nested(r, 0);
		let n = *r.pick(&[5000usize, 20000, 70000, 140000]) / t.len() + 1;
		s.texts[k] = t.repeat(n).into_bytes();
	}
	s.nums = vec![gen::opts(r) as i64, gen::render_opts(r) as i64, r.below(WRAPS.len()) as i64, r.below(CTX.len()) as i64, *r.pick(&[1i64, 1, 1, 1, 2, 3, 8, 17, 40, 130])];
	if r.chance(1, 2) {
		s.cwd = "/w".into();
		s.path = r.pick(&["/w/a", "a", "./a"]).to_string();
		s.files = vec![FileEnt::file("/w/a", 0)];
		let n = s.texts[0].len();
		p_io::delivery(r, s, n);
		let mut at = r.below(3);
		for k in 1..s.texts.len() {
			s.events.push((0, at as u32, Event::Append("/w/a".into(), k)));
			at += *r.pick(&[0usize, 1, 1, 2, 3, 8]);
		}
	}
}
/// open elements whose effect on their content must be the same before and after complete content
const CTX: &[&[&str]] = &[&["pre"], &["PRE"], &["pre", "b"], &["b", "pre", "i"], &["svg"], &["SVG", "g"], &["math"], &["svg", "math"], &["Math", "svg", "g"], &["svg", "pre"], &["pre", "svg"], &["div", "ul", "li"], &["svg", "title"]];
const WRAPS: &[&str] = &["div", "p", "DIV", "x-y", "b", "table", "li", "section"];
fn is_text(n: &DNode) -> bool {
	matches!(n.ty, NodeType::Text | NodeType::SpacesBetweenTag)
}
fn shift(n: &mut DNode, by: usize) {
	n.begin += by;
	n.end += by;
	if let Some(e) = &mut n.end_tag {
		shift(e, by);
	}
	for k in n.childs.iter_mut().flatten() {
		shift(k, by);
	}
}
/// the nodes and ids of parts that follow each other from offset `at`; `base` nodes come before
fn join(parts: &[(String, DDoc)], mut at: usize, mut base: usize) -> (Vec<DNode>, std::collections::BTreeMap<String, i64>) {
	let (mut kids, mut ids) = (vec![], std::collections::BTreeMap::new());
	for (t, d) in parts {
		for k in d.root.kids() {
			let mut k = k.clone();
			shift(&mut k, at);
			k.index = kids.len();
			kids.push(k);
		}
		for (k, v) in &d.ids {
			ids.insert(k.clone(), v - 1 + base as i64);
		}
		at += t.chars().count();
		base += d.root.count() - 1;
	}
	(kids, ids)
}
fn kids_text(k: &[DNode], ids: &std::collections::BTreeMap<String, i64>) -> String {
	let mut s = String::new();
	for n in k {
		n.fmt(&mut s);
	}
	format!("{s} ids{ids:?}")
}
fn index_of(e: &str) -> Option<usize> {
	e.split("index:").nth(1)?.split(']').next()?.parse().ok()
}
pub fn exec_c18(s: &Scenario) {
	let g = |i: usize| s.nums.get(i).copied().unwrap_or(0) as usize;
	let (bits, ro) = (g(0), g(1) & 255);
	let strict = bits & !56;
	if !s.path.is_empty() {
		appended(s, bits);
		if failed() {
			return;
		}
	}
	// the parts that are whole, up to the first that is not
	let mut parts: Vec<(String, DDoc)> = vec![];
	let mut rendered: Vec<String> = vec![];
	let mut tail = None;
	for t in &s.texts {
		let t = String::from_utf8_lossy(t).into_owned();
		let res = parse_mem(&t, strict);
		rep().evals += 1;
		let o = outcome(&res);
		match (&o, &res) {
			(Outcome::Ok(d), Ok(Ok(h))) if !d.root.kids().is_empty() => {
				if !parts.last().map(|p| is_text(p.1.root.kids().last().unwrap()) && is_text(&d.root.kids()[0])).unwrap_or(false) {
					rendered.push(lib(|| h.render(&ropts(ro))).unwrap_or_else(|m| format!("panic {m}")));
					parts.push((t, d.clone()));
				}
			}
			(Outcome::Syntax(e, k), _) if tail.is_none() => tail = Some((t, e.clone(), k.clone())),
			_ => {}
		}
		drop_doc(res);
	}
	let whole: String = parts.iter().map(|p| p.0.as_str()).collect();
	let list = || clip(&format!("{:?}", parts.iter().map(|p| &p.0).collect::<Vec<_>>()), 300);
	let total = whole.chars().count();
	if parts.len() > 1 {
		rep().nontrivial.push(hash_bytes(strict as u64, list().as_bytes()));
		bump("parts_joined", parts.len() as u64);
	}
	let (kids, ids) = join(&parts, 0, 1);
	for (what, b) in [("without repair options", strict), ("with the repair options given", bits)] {
		let res = parse_mem(&whole, b);
		rep().evals += 1;
		match outcome(&res) {
			Outcome::Ok(d) => {
				rep().states.push(h(&d.text()));
				let (a, b) = (kids_text(d.root.kids(), &d.ids), kids_text(&kids, &ids));
				if a != b {
					violation("not-as-alone", format!("{} put together, {what}: {}", list(), diff(&a, &b)));
				}
				if let Ok(Ok(h)) = &res {
					let r = lib(|| h.render(&ropts(ro))).unwrap_or_else(|m| format!("panic {m}"));
					if r != rendered.concat() {
						violation("renders-differently", format!("{} put together, rendered with options {ro}: {}", list(), diff(&r, &rendered.concat())));
					}
					if total < 1500 && !failed() {
						let root = h.get_root_node();
						let all = root.borrow().childs.iter().flatten().map(|k| built(k, ro, false)).collect::<String>();
						if all != r {
							violation("pieces-differ", format!("{} rendered node by node with options {ro}: {}", list(), diff(&all, &r)));
						}
						pieces(&root, ro, 0);
					}
				}
			}
			o => violation("refused-together", format!("{} are accepted one by one, put together, {what}: {}", list(), clip(&otext(&o), 200))),
		}
		drop_doc(res);
		if failed() {
			return;
		}
	}
	if let Some((t, e, k)) = &tail {
		if !(t.starts_with(|c| c != '<') && parts.last().map(|p| is_text(p.1.root.kids().last().unwrap())).unwrap_or(false)) {
			let got = mem_outcome(&format!("{whole}{t}"), strict);
			rep().evals += 1;
			let same = match &got {
				Outcome::Syntax(e2, k2) => k2 == k && (k.starts_with("UnclosedTag") || index_of(e2) == index_of(e).map(|i| i + total)),
				_ => false,
			};
			if !same {
				violation("error-differs", format!("{t:?} alone fails with {e} ({k}); after {}: {}", list(), clip(&otext(&got), 200)));
			}
		}
	}
	if !failed() {
		context(s, CTX[g(3) % CTX.len()], strict, ro);
	}
	// inside an ordinary element
	if failed() || parts.is_empty() || is_text(&kids[0]) || is_text(kids.last().unwrap()) {
		return;
	}
	let w = WRAPS[g(2) % WRAPS.len()];
	let deep = g(4).clamp(1, 300);
	let inner = format!("{}{whole}{}", format!("<{w}>").repeat(deep), format!("</{w}>").repeat(deep));
	let res = parse_mem(&inner, strict);
	rep().evals += 1;
	match (&res, outcome(&res)) {
		(Ok(Ok(h)), Outcome::Ok(d)) if d.root.kids().len() == 1 => {
			let (kids, ids) = join(&parts, (w.len() + 2) * deep, 1 + deep);
			let mut at = &d.root;
			for _ in 0..deep {
				at = at.kids().first().unwrap_or(at);
			}
			let (a, b) = (kids_text(at.kids(), &d.ids), kids_text(&kids, &ids));
			if a != b {
				violation("not-as-alone-inside", format!("{} inside {deep} <{w}>: {}", list(), diff(&a, &b)));
			}
			let r = lib(|| h.render(&ropts(ro | 256))).unwrap_or_else(|m| format!("panic {m}"));
			let wl = if ro & 2 != 0 { w.to_ascii_lowercase() } else { w.to_string() };
			let e = format!("{}{}{}", format!("<{wl}>").repeat(deep - 1), rendered.concat(), format!("</{wl}>").repeat(deep - 1));
			if r != e {
				violation("renders-differently", format!("{} inside {deep} <{w}>, rendered with options {ro}: {}", list(), diff(&r, &e)));
			}
		}
		(_, o) => violation("refused-inside", format!("{} inside {deep} <{w}>: {}", list(), clip(&otext(&o), 200))),
	}
	drop_doc(res);
}
fn built(n: &RefNode, ro: usize, text: bool) -> String {
	lib(|| n.borrow().build(&ropts(ro), text).iter().collect()).unwrap_or_else(|m| format!("panic {m}"))
}
/// the content of an element is rendered as its children are one by one (what is in a pre is not, it
/// keeps its white space only there); likewise its text
fn pieces(n: &RefNode, ro: usize, depth: usize) {
	let kids: Vec<RefNode> = n.borrow().childs.iter().flatten().cloned().collect();
	for k in &kids {
		let (tag, kids) = {
			let b = k.borrow();
			let name: String = match &b.meta {
				Some(m) if b.node_type == NodeType::Tag => m.borrow().name.iter().collect(),
				_ => continue,
			};
			if name.eq_ignore_ascii_case("pre") || depth > 12 || failed() || b.childs.is_none() {
				continue;
			}
			(name, b.childs.iter().flatten().cloned().collect::<Vec<_>>())
		};
		rep().evals += 1;
		let inner = built(k, ro | 256, false);
		// start tag, content, end tag
		let start = k.borrow().clone_node();
		start.borrow_mut().childs = None;
		let end = start.borrow_mut().end_tag.take().map(|e| built(&e, ro, false)).unwrap_or_default();
		let (whole, around) = (built(k, ro, false), format!("{}{inner}{end}", built(&start, ro, false)));
		if whole != around {
			violation("pieces-differ", format!("<{tag}> rendered with options {ro}, and its start tag, content and end tag: {}", diff(&whole, &around)));
		}
		let alone: String = kids.iter().map(|k| built(k, ro, false)).collect();
		if inner != alone {
			violation("pieces-differ", format!("the content of <{tag}> rendered with options {ro}, and its nodes one by one: {}", diff(&inner, &alone)));
		}
		let text = built(k, ro, true);
		let alone: String = kids
			.iter()
			.map(|k| {
				let t = k.borrow().node_type;
				match t {
					NodeType::Comment => String::new(),
					t => built(k, ro, t == NodeType::Tag),
				}
			})
			.collect();
		if text != alone {
			violation("pieces-differ", format!("the text of <{tag}> with options {ro}, and that of its nodes one by one: {}", diff(&text, &alone)));
		}
		pieces(k, ro, depth + 1);
	}
}
/// the content of the innermost of nested elements, None if the text does not leave them as they are
fn innermost<'a>(d: &'a DDoc, ctx: &[&str]) -> Option<&'a DNode> {
	let mut n = &d.root;
	for _ in ctx {
		if n.kids().len() != 1 || n.kids()[0].ty != NodeType::Tag {
			return None;
		}
		n = &n.kids()[0];
	}
	Some(n)
}
/// parts inside elements that do change how their content is read or rendered (pre, svg, math): each
/// must be read and rendered there as it is there alone
fn context(s: &Scenario, ctx: &[&str], strict: usize, ro: usize) {
	let open: String = ctx.iter().map(|c| format!("<{c}>")).collect();
	let close: String = ctx.iter().rev().map(|c| format!("</{c}>")).collect();
	let render = |res: &ParseRes| match res {
		Ok(Ok(h)) => lib(|| h.render(&ropts(ro))).unwrap_or_else(|m| format!("panic {m}")),
		_ => String::new(),
	};
	let res = parse_mem(&format!("{open}<i></i>{close}"), strict);
	let frame = render(&res);
	drop_doc(res);
	let (pre, post) = match frame.split_once("<i></i>") {
		Some(f) => f,
		None => return,
	};
	let (mut texts, mut expected, mut rendered) = (vec![], String::new(), String::new());
	let mut at = 0;
	let mut n = 0;
	for t in &s.texts {
		let t = String::from_utf8_lossy(t).into_owned();
		let res = parse_mem(&format!("{open}{t}{close}"), strict);
		rep().evals += 1;
		if let Outcome::Ok(d) = outcome(&res) {
			if let Some(k) = innermost(&d, ctx).map(|n| n.kids()).filter(|k| !k.is_empty() && !is_text(&k[0]) && !is_text(k.last().unwrap())) {
				let r = render(&res);
				match r.strip_prefix(pre).and_then(|r| r.strip_suffix(post)) {
					Some(r) => rendered.push_str(r),
					None => violation("frame-differs", format!("{t:?} inside {open} is rendered as {} with options {ro}, not between {pre:?} and {post:?}", clip(&r, 200))),
				}
				for k in k {
					let mut k = k.clone();
					shift(&mut k, at);
					k.index = n;
					n += 1;
					k.fmt(&mut expected);
				}
				at += t.chars().count();
				texts.push(t);
			}
		}
		drop_doc(res);
	}
	if texts.len() < 2 || failed() {
		return;
	}
	bump("parts_in_context", texts.len() as u64);
	let res = parse_mem(&format!("{open}{}{close}", texts.concat()), strict);
	rep().evals += 1;
	match outcome(&res) {
		Outcome::Ok(d) => {
			let mut a = String::new();
			for k in innermost(&d, ctx).map(|n| n.kids()).unwrap_or_default() {
				k.fmt(&mut a);
			}
			if a != expected {
				violation("not-as-alone-inside", format!("{texts:?} inside {open}: {}", diff(&a, &expected)));
			}
			let (r, e) = (render(&res), format!("{pre}{rendered}{post}"));
			if r != e {
				violation("renders-differently", format!("{texts:?} inside {open}, rendered with options {ro}: {}", diff(&r, &e)));
			}
		}
		o => violation("refused-inside", format!("{texts:?} are accepted one by one inside {open}, together: {}", clip(&otext(&o), 200))),
	}
	drop_doc(res);
}
/// somebody appends whole parts to the file while it is parsed
fn appended(s: &Scenario, bits: usize) {
	let all: usize = s.texts.iter().map(|t| t.len()).sum();
	let (res, obs) = parse_path(&s.path, bits, all);
	let got = outcome(&res);
	drop_doc(res);
	rep().evals += 1;
	let end = world::content_at(b"/w/a").unwrap_or_default();
	let mut now = vec![];
	let mut versions = vec![];
	// what the file held at some moment
	for k in 0..=s.events.len() {
		if k > 0 {
			if let Event::Append(_, t) = &s.events[k - 1].2 {
				now.extend_from_slice(s.texts.get(*t).map(|t| &t[..]).unwrap_or_default());
			}
		} else {
			now = s.texts[0].clone();
		}
		if end.starts_with(&now) {
			versions.push(now.clone());
		}
	}
	bump("versions_seen", versions.len() as u64);
	rep().states.push(hash_bytes(18, format!("{} {} {}", got.tag(), obs.reads, versions.len()).as_bytes()));
	let text = |v: &Vec<u8>| std::str::from_utf8(v).ok().map(|t| mem_outcome(&normalise(t), bits));
	if !versions.iter().rev().any(|v| text(v).as_ref() == Some(&got)) {
		violation("no-version", format!("the file grew from {} to {} bytes in {} steps while it was parsed; the result fits none of them: {}", s.texts[0].len(), end.len(), versions.len() - 1, clip(&otext(&got), 300)));
	}
}
