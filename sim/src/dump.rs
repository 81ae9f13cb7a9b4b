//! Structural view of what the library returned: every public field of every node.
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::error::ParseError;
use rphtml::parser::*;
use rphtml::types::GenResult;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct DAttr {
	pub key: Option<String>,
	pub value: Option<String>,
	pub quote: Option<char>,
	pub need_quote: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DMeta {
	pub name: String,
	pub is_void: bool,
	pub self_closed: bool,
	pub auto_fix: bool,
	pub attrs: Vec<DAttr>,
	pub names: BTreeMap<String, usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DNode {
	pub ty: NodeType,
	pub begin: usize,
	pub end: usize,
	pub index: usize,
	pub content: Option<String>,
	pub meta: Option<DMeta>,
	pub end_tag: Option<Box<DNode>>,
	pub childs: Option<Vec<DNode>>,
}
fn st(c: &[char]) -> String {
	c.iter().collect()
}
pub fn dattr(a: &Attr) -> DAttr {
	DAttr {
		key: a.key.as_ref().map(|k| st(&k.content)),
		value: a.value.as_ref().map(|k| st(&k.content)),
		quote: a.quote,
		need_quote: a.need_quote,
	}
}
pub fn dnode(n: &Node) -> DNode {
	DNode {
		ty: n.node_type,
		begin: n.begin_at,
		end: n.end_at,
		index: n.index,
		content: n.content.as_ref().map(|c| st(c)),
		meta: n.meta.as_ref().map(|m| {
			let m = m.borrow();
			DMeta {
				name: st(&m.name),
				is_void: m.is_void,
				self_closed: m.self_closed,
				auto_fix: m.auto_fix,
				attrs: m.attrs.iter().map(dattr).collect(),
				names: m.lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect(),
			}
		}),
		end_tag: n.end_tag.as_ref().map(|e| Box::new(dnode(&e.borrow()))),
		childs: n.childs.as_ref().map(|c| c.iter().map(|x| dnode(&x.borrow())).collect()),
	}
}
pub fn dref(n: &RefNode) -> DNode {
	dnode(&n.borrow())
}
impl DNode {
	pub fn kids(&self) -> &[DNode] {
		self.childs.as_deref().unwrap_or(&[])
	}
	pub fn count(&self) -> usize {
		1 + self.kids().iter().map(|k| k.count()).sum::<usize>()
	}
	pub fn fmt(&self, out: &mut String) {
		let _ = write!(out, "({:?} {}-{} i{}", self.ty, self.begin, self.end, self.index);
		if let Some(m) = &self.meta {
			let _ = write!(out, " {:?} v{} s{} f{}", m.name, m.is_void as u8, m.self_closed as u8, m.auto_fix as u8);
			for a in &m.attrs {
				let _ = write!(out, " [{:?}={:?} {:?} {}]", a.key, a.value, a.quote, a.need_quote as u8);
			}
			if !m.names.is_empty() {
				let _ = write!(out, " {:?}", m.names);
			}
		}
		if let Some(c) = &self.content {
			let _ = write!(out, " {c:?}");
		}
		if let Some(c) = &self.childs {
			out.push_str(" {");
			for k in c {
				k.fmt(out);
			}
			out.push('}');
		}
		if let Some(e) = &self.end_tag {
			out.push_str(" /");
			e.fmt(out);
		}
		out.push(')');
	}
	pub fn text(&self) -> String {
		let mut s = String::new();
		self.fmt(&mut s);
		s
	}
}
/// pre-order list of all nodes of the tree (without end tags)
pub fn preorder(n: &RefNode) -> Vec<RefNode> {
	let mut v = vec![];
	fn go(n: &RefNode, v: &mut Vec<RefNode>) {
		v.push(Rc::clone(n));
		if let Some(c) = &n.borrow().childs {
			for k in c {
				go(k, v);
			}
		}
	}
	go(n, &mut v);
	v
}
/// whole document: tree plus id index expressed as pre-order positions
#[derive(Clone, Debug, PartialEq)]
pub struct DDoc {
	pub root: DNode,
	pub ids: BTreeMap<String, i64>,
}
pub fn ddoc(d: &DocHolder) -> DDoc {
	let root = d.get_root_node();
	let all = preorder(&root);
	let doc = d.borrow();
	let ids = doc.id_tags.borrow();
	let ids = ids
		.iter()
		.map(|(k, v)| (k.clone(), all.iter().position(|n| Rc::ptr_eq(n, v)).map(|p| p as i64).unwrap_or(-1)))
		.collect();
	DDoc { root: dref(&root), ids }
}
impl DDoc {
	pub fn text(&self) -> String {
		let mut s = self.root.text();
		let _ = write!(s, " ids{:?}", self.ids);
		s
	}
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
	Ok(DDoc),
	/// syntax error: Display text and kind
	Syntax(String, String),
	/// I/O error: kind and errno
	Io(String, Option<i32>),
	Other(String),
	Panic(String),
}
pub fn classify_err(e: &(dyn std::error::Error + 'static)) -> Outcome {
	let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e);
	while let Some(x) = cur {
		if let Some(p) = x.downcast_ref::<ParseError>() {
			return Outcome::Syntax(format!("{p}"), format!("{:?}", p.kind));
		}
		if let Some(i) = x.downcast_ref::<std::io::Error>() {
			return Outcome::Io(format!("{:?}", i.kind()), i.raw_os_error());
		}
		cur = x.source();
	}
	Outcome::Other(format!("{e}"))
}
pub fn outcome(r: &Result<GenResult<DocHolder>, String>) -> Outcome {
	match r {
		Err(p) => Outcome::Panic(p.clone()),
		Ok(Ok(d)) => Outcome::Ok(ddoc(d)),
		Ok(Err(e)) => classify_err(&**e),
	}
}
impl Outcome {
	pub fn tag(&self) -> &'static str {
		match self {
			Outcome::Ok(_) => "ok",
			Outcome::Syntax(..) => "syntax-error",
			Outcome::Io(..) => "io-error",
			Outcome::Other(_) => "other-error",
			Outcome::Panic(_) => "panic",
		}
	}
}
pub fn popts(bits: usize) -> ParseOptions {
	ParseOptions {
		case_sensitive_tagname: bits & 1 != 0,
		allow_attr_key_starts_with_equal_sign: bits & 2 != 0,
		allow_self_closing: bits & 4 != 0,
		auto_fix_unclosed_tag: bits & 8 != 0,
		auto_fix_unexpected_endtag: bits & 16 != 0,
		auto_fix_unescaped_lt: bits & 32 != 0,
	}
}
pub fn ropts(bits: usize) -> RenderOptions {
	RenderOptions {
		minify_spaces: bits & 1 != 0,
		lowercase_tagname: bits & 2 != 0,
		remove_endtag_space: bits & 4 != 0,
		remove_attr_quote: bits & 8 != 0,
		remove_comment: bits & 16 != 0,
		always_close_void: bits & 32 != 0,
		decode_entity: bits & 64 != 0,
		encode_content: bits & 128 != 0,
		inner_html: bits & 256 != 0,
	}
}
