//! Workload text: documents, fragments and near-documents in every syntactic corner the parser has.
use crate::rng::Rng;

const NAMES: &[&str] = &["div", "p", "a", "b", "ul", "li", "span", "Form.Item", "H1", "table", "x-y", "pre", "html", "body", "head", "Div", "A", "abc<<", "td", "PRE", "section", "aÄ", "dİv", "xß", "b\u{212a}", "tıtle", "sſ", "a1", "h-1.x:y", "b\u{301}"];
const VOID: &[&str] = &["br", "img", "input", "hr", "meta", "BR", "link", "wbr", "Img", "col", "base", "param", "source", "area", "embed", "track"];
const RAW: &[&str] = &["script", "style", "title", "textarea", "Script", "TITLE", "STYLE", "TextArea"];
const KEYS: &[&str] = &["id", "class", "href", "data-x", "ID", "Id", "a", "b", "x:y", "disabled", "é", "on\u{4e2d}", "style", "\"q", "name", "id", "value", "k.v"];
const VALS: &[&str] = &["1", "abc", "a b", "x>y", "a=b", "", "é中", "http://x/y?z=1", "\"", "'", "a/b", "t&amp;u", "<t>", "main", "n1", "n2", "日本語 テキスト", "v", "a  b", "60*60"];
const TEXTS: &[&str] = &["text", " ", "\n", "  \t ", "a b  c", "&lt;", "&amp", "&#65;", "&#66;", "&#x41;", "&le; &ge;", "&unknown;", "&", ";", "é", "中文字", "\u{1F600}", "x > y", "\u{0}", "\r\n", "\r", "1 2", "--", "]]", "=\"", "&nbsp;&gt;", "\u{feff}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{1a}", "\u{1a}\n", "\u{4}", "\u{7f}", "\u{1b}[0m", "\u{a0}", "\u{200b}", "\u{ad}", "e\u{301}", "\u{2029}", "\u{fffd}", "\u{fffe}", "&#0;", "&#xD800;", "&#1114112;", "&;", "&#;", "&#x;", "tail  ", "  lead", "&Aacute;", "&notit;"];
const SOUP: &[&str] = &["<", ">", "</", "/>", "<!", "<!--", "-->", "--", "-", "<![CDATA[", "]]>", "]]", "<![cdata[", "<!DOCTYPE ", "<!doctype html>", "<!DOCTYPE", "=", "\"", "'", " ", "\n", "/", "<div>", "</div>", "<div", "<DIV>", "</Div>", "</ div>", "</div >", "<br>", "<br/>", "<br", "<p id=a>", "<p id=\"b\" class='c d'>", "</p>", "<script>", "</script>", "</SCRIPT >", "<script", "<style>", "</style>", "<title>", "</title>", "<textarea>", "</textarea>", "<svg>", "</svg>", "</SVG>", "<SVG>", "<g/>", "<math>", "</math>", "<a", "</a", "a", "b=", "c=d", "x", "text", "&lt;", "&", ";", "é", "中", "\u{1F600}", "\t", "id=", "id='q'", "<1", "<<", "< ", "</>", "<!x", "<!-", "<!D", "!", "\u{0}", "\r", "<pre>", "</pre>", "<html>", "</html>", "<img src=x />", "<p/>", " =", "==", "<!---->", "<!-->", "<!--->", "<!-- c -->", "<!--->-->", "&#65;", "\u{feff}"];

pub fn small_text(r: &mut Rng) -> String {
	let mut s = String::new();
	for _ in 0..r.range(1, 3) {
		s.push_str(r.pick(TEXTS));
	}
	s
}
fn attr(r: &mut Rng, out: &mut String) {
	out.push_str(r.pick(&[" ", "  ", "\n", " \t"]));
	let k = *r.pick(KEYS);
	out.push_str(k);
	match r.below(8) {
		0 | 1 => {}
		2 | 3 => {
			let v = *r.pick(&["1", "abc", "main", "n1", "x", "é", "q/", "a'b", "n2"]);
			out.push_str(r.pick(&["=", " =", "= ", " = "]));
			out.push_str(v);
		}
		n => {
			let q = if n & 1 == 0 { '"' } else { '\'' };
			let v: String = r.pick(VALS).chars().filter(|c| *c != q).collect();
			out.push_str(r.pick(&["=", "=", "=", " = "]));
			out.push(q);
			out.push_str(&v);
			out.push(q);
		}
	}
}
fn attrs(r: &mut Rng, out: &mut String) {
	let n = if r.chance(1, 60) { *r.pick(&[9usize, 14, 20, 33, 70]) } else { *r.pick(&[0usize, 0, 1, 1, 2, 3, 6]) };
	for i in 0..n {
		attr(r, out);
		if n > 8 && r.chance(1, 2) {
			out.push_str(&format!(" k{i}={i}"));
		}
	}
}
pub struct Cfg {
	pub unclosed: bool,
	pub stray_end: bool,
	pub stray_lt: bool,
	pub selfclose: bool,
	pub case: bool,
	pub svg: bool,
	pub raw: bool,
	pub comments: bool,
	pub depth: usize,
}
impl Cfg {
	pub fn draw(r: &mut Rng) -> Cfg {
		Cfg {
			unclosed: r.chance(1, 4),
			stray_end: r.chance(1, 4),
			stray_lt: r.chance(1, 4),
			selfclose: r.chance(1, 4),
			case: r.chance(1, 4),
			svg: r.chance(1, 3),
			raw: r.chance(1, 2),
			comments: r.chance(1, 2),
			depth: r.range(1, 6),
		}
	}
}
fn flip_case(s: &str) -> String {
	s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
pub fn content(r: &mut Rng, c: &Cfg, depth: usize, in_svg: bool, out: &mut String) {
	let n = r.below(5);
	for _ in 0..n {
		node(r, c, depth, in_svg, out);
	}
}
/// rarely: something long, deep or wide, around the sizes where buffers grow or caches spill
const SIZES: &[usize] = &[5, 9, 12, 17, 21, 33, 40, 65, 101, 129, 201, 257, 300];
fn large(r: &mut Rng, c: &Cfg, in_svg: bool, out: &mut String) {
	let k = *r.pick(SIZES);
	match r.below(7) {
		0 => {
			let k = if r.chance(1, 8) { k * 4 } else { k.min(70) };
			let n = *r.pick(NAMES);
			for i in 0..k {
				out.push_str(&format!("<{n}>"));
				if i % 7 == 3 && r.chance(1, 3) {
					out.push_str(r.pick(TEXTS));
				}
			}
			out.push_str(r.pick(&["", "x", "<br>", "<i></i>"]));
			for _ in 0..k {
				out.push_str(&format!("</{n}>"));
			}
		}
		1 => {
			let u = *r.pick(&["<b></b>", "<br>", "<i>x</i>", "<p id=main>t</p>", "<!--c-->", "<u> </u> "]);
			out.push_str(&u.repeat(if r.chance(1, 4) { k } else { k.min(140) }));
		}
		2 => out.push_str(&r.pick(&["x", "中", "a ", "é", "&amp;", "\u{1F600}"]).repeat(k)),
		3 => out.push_str(&r.pick(&[" ", "\n", "\t", " \n", "\r\n"]).repeat(k)),
		4 => {
			let n = r.pick(&["a", "x-", "Ab"]).repeat(k);
			out.push_str(&format!("<{n}>"));
			node(r, c, 0, in_svg, out);
			out.push_str(&format!("</{n}>"));
		}
		5 => {
			let v = r.pick(&["v", "a b ", "é", ">", "="]).repeat(k);
			out.push_str(&format!("<p {}=\"{v}\" id='{v}'>t</p>", "k".repeat(k)));
		}
		_ => {
			let v = r.pick(&["x", " ", "\n", "a > b ", "</", "<b>", "é"]).repeat(k);
			let n = *r.pick(RAW);
			if r.chance(1, 3) {
				out.push_str(&format!("<!--{v}x-->"));
			} else {
				out.push_str(&format!("<{n}>{v}></{n}>"));
			}
		}
	}
}
/// a start tag with unusual but tolerated attribute syntax
fn odd_tag(r: &mut Rng, out: &mut String) {
	let n = match r.below(4) {
		0 => flip_case(r.pick(VOID)),
		1 => flip_case(r.pick(RAW)),
		2 => r.pick(RAW).to_string(),
		_ => r.pick(NAMES).to_string(),
	};
	out.push_str(&format!("<{n}"));
	for _ in 0..r.range(1, 9) {
		out.push_str(r.pick(&[" ", " ", "\n", "\t", "a", "b", "id", "ID", "=", "=", " = ", "\"", "'", "\"x\"", "'y z'", "=\"v\"", "='w'", "=u", "/", "//", "中", "<", "a=b", " a='>'", "\r", "\u{c}", "\u{a0}"]));
	}
	out.push_str(r.pick(&[">", ">", "/>", " >"]));
	if !VOID.contains(&n.to_ascii_lowercase().as_str()) {
		out.push_str(&format!("{}</{n}>", r.pick(&["", "x", " ", "<b></b>", "\n"])));
	}
}
fn node(r: &mut Rng, c: &Cfg, depth: usize, in_svg: bool, out: &mut String) {
	if r.chance(1, 150) {
		return large(r, c, in_svg, out);
	}
	if r.chance(1, 60) {
		return odd_tag(r, out);
	}
	match r.below(20) {
		0..=4 => out.push_str(&small_text(r)),
		5 | 6 => {
			out.push('<');
			out.push_str(r.pick(VOID));
			attrs(r, out);
			out.push_str(r.pick(&[">", " />", "/>", ">"]));
		}
		7 if c.raw => {
			let n = *r.pick(RAW);
			out.push('<');
			out.push_str(n);
			attrs(r, out);
			out.push('>');
			for _ in 0..r.below(4) {
				out.push_str(r.pick(&["var a = 1<2;", "<div></div>", "</", " > ", "\"</scrip\" + 't>'", "&lt;", "\n", "  ", ">", "中", "</x>", "a", "          ", " \n\t  \n    ", "</script", "</title ", "</style", "</textarea"]));
			}
			out.push_str("</");
			out.push_str(&if c.case && r.chance(1, 2) { flip_case(n) } else { n.to_string() });
			out.push_str(r.pick(&[">", ">", " >", "\n>"]));
		}
		8 if c.comments => {
			out.push_str("<!--");
			for _ in 0..r.range(1, 3) {
				out.push_str(r.pick(&["c", " - ", "->", "--", "<b>", "中", "\n", "x", "[if IE]>"]));
			}
			out.push_str("-->");
		}
		9 if c.comments => {
			out.push_str(r.pick(&["<!DOCTYPE html>", "<!doctype HTML PUBLIC \"-//W3C\" 'x'>", "<!DOCTYPE html/>", "<!DOCTYPE a=b>", "<!DOCTYPE  x >"]));
		}
		10 if c.stray_end => {
			out.push_str(r.pick(&["</p>", "</zz>", "</br>", "</div >", "</>", "</A>"]));
		}
		11 if c.stray_lt => {
			out.push_str(r.pick(&["<", "< ", "<1", "<<", "a<=b", "<>", "<\u{4e2d}", "<.", "<\n"]));
		}
		12 if c.svg => {
			let n = *r.pick(&["svg", "math", "SVG", "Math"]);
			out.push('<');
			out.push_str(n);
			attrs(r, out);
			out.push('>');
			if depth > 0 {
				for _ in 0..r.below(3) {
					match r.below(4) {
						0 => out.push_str("<g/>"),
						1 => out.push_str(r.pick(&["<text><![CDATA[a<b]]x]]></text>", "<![cdata[x]]>", "<![CdAtA[<>]]>", "<![CDATA[]]]]>"])),
						2 => out.push_str("<rect w='1' />"),
						_ => node(r, c, depth - 1, true, out),
					}
				}
			}
			out.push_str("</");
			out.push_str(&if c.case && r.chance(1, 2) { flip_case(n) } else { n.to_string() });
			out.push('>');
		}
		_ => {
			let n = *r.pick(NAMES);
			out.push('<');
			out.push_str(n);
			attrs(r, out);
			if (c.selfclose || in_svg) && r.chance(1, 4) {
				out.push_str(r.pick(&["/>", " />"]));
				return;
			}
			out.push_str(r.pick(&[">", ">", " >"]));
			if depth > 0 {
				content(r, c, depth - 1, in_svg, out);
			}
			if c.unclosed && r.chance(1, 6) {
				return;
			}
			out.push_str("</");
			out.push_str(&if c.case && r.chance(1, 3) { flip_case(n) } else { n.to_string() });
			out.push_str(r.pick(&[">", ">", ">", " >"]));
		}
	}
}
/// token soup
pub fn soup(r: &mut Rng, max: usize) -> String {
	let mut s = String::new();
	// swarm: only a random subset of the tokens
	let k = r.range(3, SOUP.len());
	let sub: Vec<&str> = (0..k).map(|_| *r.pick(SOUP)).collect();
	for _ in 0..r.range(1, max) {
		s.push_str(sub[r.below(sub.len())]);
	}
	s
}
fn mutate(r: &mut Rng, s: &str) -> String {
	let mut c: Vec<char> = s.chars().collect();
	for _ in 0..r.range(1, 4) {
		if c.is_empty() {
			break;
		}
		let i = r.below(c.len());
		match r.below(6) {
			5 => {
				// a stutter
				let n = r.range(1, 8).min(c.len() - i);
				let k = if c.len() > 600 { 2 } else { *r.pick(&[2usize, 3, 5, 9, 17, 40, 130]) };
				let t: Vec<char> = c[i..i + n].to_vec().repeat(k);
				c.splice(i..i, t);
			}
			0 => {
				let n = r.range(1, 6).min(c.len() - i);
				c.drain(i..i + n);
			}
			1 => {
				let t: Vec<char> = r.pick(SOUP).chars().collect();
				c.splice(i..i, t);
			}
			2 => {
				let n = r.range(1, 12).min(c.len() - i);
				let t: Vec<char> = c[i..i + n].to_vec();
				let j = r.below(c.len());
				c.splice(j..j, t);
			}
			3 => c[i] = *r.pick(&['<', '>', '/', '=', '"', '\'', ' ', '-', '!', 'a', '\n', '&', ']']),
			_ => c.truncate(i + 1),
		}
	}
	c.into_iter().collect()
}
/// general purpose document generator
pub fn doc(r: &mut Rng) -> String {
	match r.below(10) {
		0 | 1 | 2 => {
			let n = *r.pick(&[6usize, 12, 30]);
			soup(r, n)
		}
		3 | 4 => {
			let s = plain_doc(r);
			mutate(r, &s)
		}
		_ => plain_doc(r),
	}
}
pub fn plain_doc(r: &mut Rng) -> String {
	let c = Cfg::draw(r);
	let mut s = String::new();
	for _ in 0..r.range(1, 4) {
		node(r, &c, c.depth, false, &mut s);
	}
	s
}
/// documents accepted by the strict parser most of the time
pub fn clean_doc(r: &mut Rng) -> String {
	let c = Cfg { unclosed: false, stray_end: false, stray_lt: false, selfclose: false, case: false, svg: r.chance(1, 4), raw: r.chance(1, 2), comments: r.chance(1, 2), depth: r.range(1, 5) };
	let mut s = String::new();
	for _ in 0..r.range(1, 4) {
		node(r, &c, c.depth, false, &mut s);
	}
	s
}
/// very rarely: counts and offsets beyond 16 bits
pub fn huge(r: &mut Rng) -> String {
	let k = *r.pick(&[4_100usize, 8_200, 33_000, 65_530, 65_540, 66_000]);
	let tail = *r.pick(&["", "<p id=main>t</p>", "<b", "< ", "</x>", " <i> </i>"]);
	let body = match r.below(12) {
		10 | 11 => {
			// many ids, some of them twice
			let k = *r.pick(&[120usize, 270, 530, 1100, 2100, 4200, 9000]);
			let w = r.range(k / 2 + 1, 2 * k);
			(0..k).map(|i| format!("<br id=n{}>", i % w)).collect::<String>()
		}
		8 | 9 => {
			let k = *r.pick(&[130usize, 260, 520, 1030, 2050, 2900]);
			let n = *r.pick(NAMES);
			let close = if r.chance(1, 2) { k } else { r.below(k) };
			format!("{}{}{}", format!("<{n}>").repeat(k), r.pick(&["", "x", "<br>", "<i id=main></i>"]), format!("</{n}>").repeat(close))
		}
		0 => "<b></b>".repeat(k),
		1 => "<br>".repeat(k),
		2 => format!("<p>{}</p>", "a ".repeat(k)),
		3 => format!("<p title='{}' id=main>x</p>", "é".repeat(k)),
		4 => format!("<!--{}-->", "c\n".repeat(k)),
		5 => format!("<script>{}</script>", "a<b;>".repeat(k)),
		6 => format!("<p{}></p>", (0..k.min(9000)).map(|i| format!(" a{i}={i}")).collect::<String>()),
		_ => "x\n".repeat(k),
	};
	if r.chance(1, 2) {
		format!("{body}{tail}")
	} else {
		format!("<div>{body}</div>{tail}")
	}
}
/// long inputs: many lines, long lines, many chunks
/// megabytes, cheap to parse
pub fn vast(r: &mut Rng) -> String {
	let n = *r.pick(&[1_100_000usize, 1_100_000, 2_200_000, 4_300_000, 9_000_000, 17_000_000]);
	let unit = *r.pick(&["x\n", "some more text of a long file\n", "abcdefgh", "a line that ends with\r\n", "<!-- c -->\n"]);
	// nodes are heavy, text is not
	let n = if unit.starts_with('<') { n.min(2_200_000) } else { n };
	let mut t = unit.repeat(n / unit.len());
	t.push_str(r.pick(&["", "<p id=main>t</p>", "<b", "< ", "</x>", "é\n"]));
	t
}
pub fn big(r: &mut Rng, target: usize) -> String {
	let mut s = String::new();
	let nl = r.chance(2, 3);
	let wide = r.chance(1, 3);
	while s.len() < target {
		match r.below(8) {
			0 => s.push_str(&"中".repeat(r.range(1, if wide { 5000 } else { 40 }))),
			1 => s.push_str(&"a ".repeat(r.range(1, if wide { 9000 } else { 60 }))),
			2 => s.push_str("<script>if(a<b){x='</div>'}</script>"),
			_ => {
				let d = clean_doc(r);
				s.push_str(&d);
			}
		}
		if nl {
			s.push_str(r.pick(&["\n", "\n", "\r\n", "\n\n", "\r"]));
		}
	}
	s
}
pub fn opts(r: &mut Rng) -> usize {
	match r.below(6) {
		0 => 0,
		1 => 8 | 16 | 32,
		2 => 63 & !2,
		3 => 8,
		_ => r.below(64),
	}
}
pub fn render_opts(r: &mut Rng) -> usize {
	match r.below(4) {
		0 => 0,
		1 => 1 << r.below(8),
		_ => r.below(256),
	}
}
