//! C03 delivery transparency, C04 I/O failure, C09 concurrent replacement, C14 bounded progress
use crate::common::*;
use crate::dump::*;
use crate::gen;
use crate::orch::{bump, rep, violation};
use crate::rng::{hash_bytes, Rng};
use crate::scen::{Event, Fault, FaultKind, FileEnt, Scenario};
use crate::world::{self, CallKind, Obs};

// ------------------------------------------------------------------ generation
/// put `text 0` somewhere in the simulated file system and choose a path that denotes it
pub fn place(r: &mut Rng, s: &mut Scenario) {
	s.cwd = "/w".into();
	let dir = *r.pick(&["/w", "/w/sub", "/data", "/w/日本", "/w/d\u{e0ff}"]);
	let name = *r.pick(&["a.html", "x", "ü.htm", "a b.html", ".h", "n\u{e0ff}.html", "~", "-", "a%20b", "*", "c:\\d", "x\n", "file:y", " ", "A.HTML.gz"]);
	let real = format!("{dir}/{name}");
	s.files.push(FileEnt::file(&real, 0));
	let mut abs = real.clone();
	if r.chance(1, 4) {
		// through a symbolic link, relative or absolute, to the file or its directory
		if r.chance(1, 2) {
			let t = if r.chance(1, 2) { real.clone() } else { format!("..{real}") };
			s.files.push(FileEnt { path: "/w/ln".into(), kind: 'l', text: 0, target: t, lie: None });
			abs = "/w/ln".into();
		} else {
			s.files.push(FileEnt { path: "/w/dl".into(), kind: 'l', text: 0, target: dir.to_string(), lie: None });
			abs = format!("/w/dl/{name}");
		}
	}
	if r.chance(1, 16) {
		// the parent of a linked directory is that of its target; what lies beside the link is another file
		s.texts.push(b"<p>decoy</p>".to_vec());
		let decoy = s.texts.len() - 1;
		s.files.push(FileEnt { path: "/w/up".into(), kind: 'l', text: 0, target: format!("{dir}/inner"), lie: None });
		s.files.push(FileEnt::file(&format!("{dir}/inner/k"), decoy));
		if dir != "/w" && r.chance(1, 2) {
			s.files.push(FileEnt::file(&format!("/w/{name}"), decoy));
		}
		s.path = format!("{}up/../{name}", r.pick(&["", "/w/", "./"]));
		return;
	}
	s.path = match r.below(6) {
		0 | 1 => abs.clone(),
		2 => {
			// dir/.. is the parent of dir: spell the rest from there
			let up = dir.rsplit_once('/').map(|x| x.0).unwrap_or("");
			match abs.strip_prefix(&format!("{up}/")) {
				Some(rest) => format!("{dir}/../{rest}"),
				None => abs.clone(),
			}
		}
		_ => match abs.strip_prefix("/w/") {
			Some(rel) => match r.below(4) {
				0 => format!("./{rel}"),
				1 => format!("../w/{rel}"),
				_ => rel.to_string(),
			},
			None => format!("..{abs}"),
		},
	};
}
fn line_ends(r: &mut Rng, t: String) -> String {
	match r.below(6) {
		0 => t.replace('\n', "\r\n"),
		1 => t.replace(' ', "\n"),
		2 => t.replace(' ', "\r\n"),
		3 => format!("{t}\r"),
		4 => format!("{t}{}", r.pick(&["\n", "\r\n", "\n\n", "\r\n\r\n", "\n ", "\r\r\n", "\u{1a}", "\u{1a}\n", "\u{0}", "\u{feff}", "\u{85}", "\u{2028}"])),
		_ => t,
	}
}
fn file_text(r: &mut Rng, big: bool) -> String {
	let t = if big && r.chance(1, 40) {
		gen::huge(r)
	} else if big {
		let n = *r.pick(&[3000usize, 8100, 8192, 9000, 17000, 33000]);
		gen::big(r, n)
	} else {
		match r.below(12) {
			0 => String::new(),
			1 => r.pick(&["\n", "\r\n", "\r", " ", "a", "<", "\u{feff}<p></p>", "\n\n"]).to_string(),
			2..=6 => gen::clean_doc(r),
			_ => gen::doc(r),
		}
	};
	let mut t = line_ends(r, t);
	if big && r.chance(1, 3) {
		// put a multi-byte character or CRLF across the usual buffer boundary
		let at = *r.pick(&[8190usize, 8191, 8189, 4095, 16383]);
		let mut k = at.min(t.len());
		while !t.is_char_boundary(k) {
			k -= 1;
		}
		let pad: String = "x".repeat(at.saturating_sub(k));
		let ins = *r.pick(&["中", "\u{1F600}", "\r\n", "é", "<", "\n"]);
		t.insert_str(k, &format!("{pad}{ins}"));
	}
	t
}
/// how the OS delivers bytes: sizes of reads and interruptions
pub fn delivery(r: &mut Rng, s: &mut Scenario, size: usize) {
	s.io = vec![0, 0];
	match r.below(7) {
		0 => {}
		1 => s.io[0] = if size < 3000 { 1 } else { 97 },
		2 => s.io[0] = *r.pick(&[2i64, 3, 5, 7]) * if size < 3000 { 1 } else { 53 },
		3 => {
			s.io[0] = *r.pick(&[16i64, 64, 100, 4096]);
			s.io[1] = *r.pick(&[2i64, 3, 5]);
		}
		4 => s.io[1] = *r.pick(&[2i64, 3, 4]),
		_ => {
			for i in 0..r.range(1, 40) {
				match r.below(4) {
					0 => s.faults.push(Fault { tid: 0, idx: i as u32, kind: FaultKind::Eintr }),
					1 => {}
					_ => {
						let k = r.range(1, *r.clone().pick(&[2usize, 9, 80, 5000]));
						s.faults.push(Fault { tid: 0, idx: i as u32, kind: FaultKind::Short(k as u32) })
					}
				}
			}
		}
	}
	if r.chance(1, 6) {
		// a burst of interruptions
		let a = r.below(20) as u32;
		for i in a..a + r.range(2, 200) as u32 {
			s.faults.retain(|f| f.idx != i);
			s.faults.push(Fault { tid: 0, idx: i, kind: FaultKind::Eintr });
		}
	}
}
pub fn gen_c03(r: &mut Rng, s: &mut Scenario) {
	gen_file(r, s, 1000);
}
fn gen_file(r: &mut Rng, s: &mut Scenario, rare: usize) {
	let big = r.chance(1, 12);
	let t = if big && r.chance(1, rare) { gen::vast(r) } else { file_text(r, big) };
	let n = t.len();
	s.texts = vec![t.into_bytes()];
	s.nums = vec![gen::opts(r) as i64];
	place(r, s);
	if r.chance(1, 4) {
		s.files[0].lie = Some(*r.pick(&[0, 1, n as u64 / 2, n as u64 + 1, 2 * n as u64 + 50]));
	}
	delivery(r, s, n);
	if r.chance(1, 3) {
		// other hash seeds, heap layouts, and a clock that jumps
		s.env = vec![r.next() >> 1, if r.chance(1, 2) { r.next() >> 1 } else { 0 }, r.next() >> 2, r.next() >> 1];
	}
}
const READ_ERR: &[i32] = &[5, 116, 12, 110, 104, 21, 11, 74];
const OPEN_ERR: &[i32] = &[13, 24, 23, 12, 5, 40, 116, 2, 20, 1];
pub fn gen_c04(r: &mut Rng, s: &mut Scenario) {
	gen_file(r, s, 8000);
	s.files[0].lie = None;
	match r.below(12) {
		0 => s.files.remove(0).path.clear(),
		1 => s.files[0].kind = 'u',
		2 => {
			// a path through something that is not a directory, a directory, a loop, too long
			match r.below(5) {
				0 => s.path.push_str("/x"),
				1 => s.path = r.pick(&["/w", ".", "/", "", "..", "/w/sub"]).to_string(),
				2 => {
					s.files.push(FileEnt { path: "/w/loop".into(), kind: 'l', text: 0, target: "loop".into(), lie: None });
					s.path = r.pick(&["loop", "/w/loop", "loop/a.html"]).to_string();
				}
				3 => s.path = format!("{}{}", r.pick(&["/w/", ""]), "n".repeat(r.range(250, 300))),
				_ => s.path = r.pick(&["missing.html", "/w/missing.html", "no/such/dir/f", "\u{0}", "a\u{0}b", "/missing/../w"]).to_string(),
			}
		}
		3 | 4 => {
			// bytes that are not UTF-8
			let b = &mut s.texts[0];
			let bad = r.pick(&[&[0xffu8][..], &[0xc3], &[0xe4, 0xb8], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf8, 0x88]]).to_vec();
			let at = if r.chance(1, 3) { b.len() } else { r.below(b.len() + 1) };
			b.splice(at..at, bad);
		}
		_ => {}
	}
	if r.chance(1, 2) {
		// files that a search for something similar would find
		let d = s.texts.len();
		s.texts.push(r.pick(&["<p>decoy</p>\n", "decoy", ""]).as_bytes().to_vec());
		let p = s.path.clone();
		let stem = p.rsplit_once('.').map(|x| x.0).filter(|x| !x.ends_with('/')).unwrap_or(&p).to_string();
		for q in [format!("{p}.html"), format!("{p}.htm"), format!("{stem}.html"), format!("{stem}.htm"), stem, format!("{p}~"), format!("{p}.bak"), format!("{p}/index.html"), p.trim().to_string(), p.to_lowercase(), p.to_uppercase(), p.trim_start_matches('/').to_string(), format!("/{p}"), p.replace('\\', "/"), p.replace("%20", " "), p.replace('\0', "")] {
			let abs = if q.starts_with('/') { q } else { format!("/w/{q}") };
			if r.chance(1, 3) && !abs.contains("..") && !abs.contains("/./") && !abs.contains('\0') && !abs.ends_with('/') && abs.len() < 200 {
				let same = |f: &FileEnt| f.path == abs || f.path.starts_with(&format!("{abs}/")) || abs.starts_with(&format!("{}/", f.path));
				if abs != p && format!("/w/{p}") != abs && !s.files.iter().any(same) {
					s.files.push(FileEnt::file(&abs, d));
				}
			}
		}
	}
	if r.chance(3, 4) {
		// one or two hard failures, most of them early, some deep inside the file
		for _ in 0..r.range(1, 2) {
			let idx = match r.below(4) {
				0 => r.below(3),
				1 => r.below(8),
				2 => r.below(60),
				_ => r.below(s.texts[0].len() + 4),
			} as u32;
			let e = if r.chance(1, 2) { *r.pick(READ_ERR) } else { *r.pick(OPEN_ERR) };
			s.faults.retain(|f| f.idx != idx);
			s.faults.push(Fault { tid: 0, idx, kind: FaultKind::Err(e) });
		}
	}
}
/// `#` in a unit stands for a number that differs from unit to unit
pub fn scaled(s: &Scenario, n: usize) -> Vec<u8> {
	let mut o = vec![];
	for (k, t) in s.texts.iter().enumerate() {
		for i in 0..if k == 0 { 1 } else { n } {
			for b in t {
				match b {
					b'#' => o.extend(i.to_string().into_bytes()),
					b => o.push(*b),
				}
			}
		}
	}
	o
}
pub fn gen_scale(r: &mut Rng, s: &mut Scenario) {
	const PRE: [&str; 14] = ["", "", "", "", "<script>", "<!--", "<a ", "<a b='", "<div>", "<title>", "</", "<svg><g><![CDATA[", "<p> ", "<!DOCTYPE html>\n"];
	const FLAT: [&str; 56] = [
		"<", "a", "<p>x</p>", "</x>", "<br>", " ", "&", "<!-- # -->", "\n", "<p", ">", "中\n", "<1", "a</x>", "<script>x</script>", "=", "\"", "--", "]]>", "<svg><g/></svg>",
		"<b id=k#></b>", "<b id='k#'>x</b>\n", "<b a#=v></b>", "k#=v ", "k# ", " k#='v'", "<t#></t#>", "<t#/>", "t#\n", "&#;", "&lt;", "< ", "a<", " </x>", "x\r\n", "\r", "<!---->",
		"<style>a{}</style>\n", "<script></script", "</script ", "</", "<!-- - -- -->", "<p>a<br>b</p>\n", "<i> </i> ", "<input disabled k#>", "<title>a&b</title>", "<p\nclass='a\nb'>\n</p>", "\t\n", "é", "<li>#</li>\n", "<a href=\"#\">#</a>", "<math><![CDATA[#]]></math>",
		"<!DOCTYPE html>\n", "<!doctype a '#' \"b\">", "<pre> # </pre>", "<B C='d e'/>",
	];
	const OPEN: [&str; 8] = ["<p>", "<a b=#>", "<div id=n#>", "<t#>", "<p>\n", "<svg>", "x<b>", "<div id=same>"];
	const CLOSE: [&str; 9] = ["", "</p>", "</x>", "</div>", "x", "</svg>", "</b>", "<", "</div>\n"];
	s.texts.push(r.pick(&PRE).as_bytes().to_vec());
	let nested = r.chance(1, 3);
	if nested {
		s.texts.push(r.pick(&OPEN).as_bytes().to_vec());
		s.texts.push(if r.chance(2, 3) { r.pick(&CLOSE).as_bytes().to_vec() } else { r.pick(&FLAT).as_bytes().to_vec() });
	} else {
		s.texts.push(r.pick(&FLAT).as_bytes().to_vec());
		if r.chance(1, 3) {
			s.texts.push(r.pick(&FLAT).as_bytes().to_vec());
		}
	}
	if r.chance(1, 2) {
		// two different shapes alternate
		let t = r.pick(&FLAT).as_bytes();
		s.texts[1].extend_from_slice(t);
	}
	if r.chance(1, 3) {
		s.texts[1].push(b'\n');
	}
	let unit: usize = s.texts[1..].iter().map(|t| t.len() + 2).sum();
	let n = if nested { r.range(150, 400) } else { r.range(4000, 24000) / unit.max(6) };
	s.files = vec![FileEnt::file("/w/a", 0)];
	s.cwd = "/w".into();
	s.path = "/w/a".into();
	s.nums = vec![gen::opts(r) as i64, n as i64];
	if r.chance(1, 3) {
		s.io = vec![*r.pick(&[512i64, 4096, 100_000]), 0];
	}
}
/// the work for twice as much more input must not be much more than twice as much
fn exec_scale(s: &Scenario) {
	let bits = s.nums[0] as usize;
	// a multiple of 12, so that units which toggle a state leave the same state at every size
	let n = (s.nums[1].max(1) as usize).min(40_000).div_ceil(12) * 12;
	let mut w = vec![];
	let mut tags = vec![];
	let mut len = 0;
	// the first call pays for tables that are built once: it is not measured
	for k in [1, 1, 2, 4] {
		let t = scaled(s, n * k);
		len = t.len();
		world::set_content(b"/w/a", &t);
		let before = crate::hooks::work();
		let (res, obs) = parse_path(&s.path, bits, t.len());
		w.push(crate::hooks::work() - before);
		let got = outcome_tag(&res);
		drop_doc(res);
		tags.push(got);
		rep().evals += 1;
		if obs.reads > obs.bytes + obs.eintr + 8 {
			violation("too-many-reads", format!("{} read attempts for {} bytes and {} interruptions", obs.reads, obs.bytes, obs.eintr));
		}
	}
	w.remove(0);
	tags.remove(0);
	rep().nontrivial.push(case_hash(s, tags[2]));
	rep().states.push(hash_bytes(14, format!("{tags:?} {}", w[2] / 100_000).as_bytes()));
	// an early error leaves next to nothing to compare
	if tags.iter().any(|t| *t != tags[0]) || len < 2000 || w[2] < 5 * len as u64 {
		return;
	}
	let (a, b) = (w[1].saturating_sub(w[0]), w[2].saturating_sub(w[1]));
	if b > 3 * a.max(1) {
		violation("superlinear-work", format!("work for {n}, {} and {} repetitions: {w:?}; the last doubling costs {:.1} times the one before, {len} bytes", 2 * n, 4 * n, b as f64 / a.max(1) as f64));
	}
	if w[2] > 1_000_000 + 2500 * len as u64 {
		violation("superlinear-work", format!("{} units of work for {len} bytes", w[2]));
	}
}
pub fn gen_c14(r: &mut Rng, s: &mut Scenario) {
	if r.chance(1, 40) {
		gen_scale(r, s);
	} else if r.chance(1, 20) {
		// large inputs of one repeated shape: cost must stay proportional
		let unit = *r.pick(&["<", "a", "<p>x</p>", "</x>", "<br>", " ", "&", "<!-- x -->", "<a b=c>", "\n", "<p", ">", "中\n", "<1", "a</x>", "<script>x</script>", "=", "\"", "<p id=a>", "--", "]]>", "<svg><g/></svg>"]);
		let pre = *r.pick(&["", "<script>", "<!--", "<a ", "<a b='", "<div>", "<title>", "</", "<svg><g><![CDATA["]);
		let n = r.range(3000, 14000) / unit.len();
		let n = if unit.starts_with("<p") || unit.starts_with("<a") { n.min(400) } else { n };
		s.texts = vec![format!("{pre}{}", unit.repeat(n)).into_bytes()];
		s.nums = vec![gen::opts(r) as i64];
		place(r, s);
		if r.chance(1, 2) {
			s.io = vec![*r.pick(&[0i64, 1, 7, 512]), *r.pick(&[0i64, 0, 2, 3])];
		}
	} else {
		gen_c04(r, s);
		if r.chance(1, 2) {
			// only transient faults: the call has to finish with the right result
			s.faults.retain(|f| !matches!(f.kind, FaultKind::Err(_)));
		}
	}
}
pub fn gen_c09(r: &mut Rng, s: &mut Scenario) {
	let nv = r.range(2, 4);
	let big = r.chance(1, 15);
	for v in 0..nv {
		let t = match r.below(6) {
			0 => file_text(r, false),
			1 if big => file_text(r, true),
			_ => gen::clean_doc(r),
		};
		let t = if r.chance(1, 2) { format!("<i id=v{v}>{v}</i>{t}\n<b>{v}</b>") } else { t };
		s.texts.push(t.into_bytes());
	}
	s.nums = vec![gen::opts(r) as i64];
	s.cwd = "/w".into();
	let layout = r.below(4);
	match layout {
		0 => {
			s.files.push(FileEnt::file("/w/a", 0));
			s.files.push(FileEnt::file("/v/a", 1));
			s.path = r.pick(&["a", "/w/a", "./a", "../w/a"]).to_string();
		}
		1 => {
			// current -> release directory
			s.files.push(FileEnt::file("/w/r1/a", 0));
			s.files.push(FileEnt::file("/w/r2/a", 1));
			s.files.push(FileEnt { path: "/w/cur".into(), kind: 'l', text: 0, target: "r1".into(), lie: None });
			s.path = r.pick(&["cur/a", "/w/cur/a"]).to_string();
		}
		2 => {
			s.files.push(FileEnt::file("/w/a.1", 0));
			s.files.push(FileEnt::file("/w/a.2", 1));
			s.files.push(FileEnt { path: "/w/a".into(), kind: 'l', text: 0, target: "a.1".into(), lie: None });
			s.path = r.pick(&["a", "/w/a"]).to_string();
		}
		_ => {
			s.files.push(FileEnt::file("/w/a", 0));
			s.files.push(FileEnt::file("/v/a", 1));
			s.files.push(FileEnt::file("/v/b", if nv > 2 { 2 } else { 1 }));
			s.path = r.pick(&["a", "/w/a"]).to_string();
		}
	}
	s.io = vec![*r.pick(&[0i64, 0, 1, 3, 16, 64, 200]), *r.pick(&[0i64, 0, 0, 3])];
	if r.chance(1, 8) {
		// a hard failure while reading, so that retrying would meet another version
		let n = if s.io[0] > 0 { s.texts[0].len() / s.io[0] as usize + 2 } else { 3 };
		s.faults.push(Fault { tid: 0, idx: r.below(n.min(60) + 1) as u32, kind: FaultKind::Err(*r.pick(READ_ERR)) });
	}
	let last = 4 + if s.io[0] > 0 { (s.texts[0].len() as i64 / s.io[0]).min(4000) as usize } else { 3 };
	let mut at = 0usize;
	for _ in 0..r.range(1, 4) {
		// early positions are where resolution and opening happen
		at = if r.chance(1, 2) { (at + r.below(3)).min(last) } else { at + r.below(last.saturating_sub(at) + 1) };
		let v = r.below(nv);
		let target = if layout == 1 { *r.pick(&["/w/r1/a", "/w/r2/a"]) } else if layout == 2 { *r.pick(&["/w/a.1", "/w/a.2", "/w/a"]) } else { "/w/a" };
		let e = match r.below(10) {
			0..=3 => Event::Replace(target.into(), v),
			4 => Event::Unlink(target.into()),
			5 if layout == 1 => {
				// atomic switch to the other release, then removal of the old one
				s.events.push((0, at as u32, Event::Relink("/w/cur".into(), "r2".into())));
				Event::Unlink("/w/r1/a".into())
			}
			5 if layout == 2 => {
				s.events.push((0, at as u32, Event::Relink("/w/a".into(), "a.2".into())));
				Event::Unlink("/w/a.1".into())
			}
			5 | 6 if layout == 0 || layout == 3 => Event::Chdir(r.pick(&["/v", "/w", "/"]).to_string()),
			6 => Event::Relink(if layout == 1 { "/w/cur".into() } else { "/w/a".into() }, if layout == 1 { r.pick(&["r2", "r1", "gone"]).to_string() } else { r.pick(&["a.2", "a.1", "gone"]).to_string() }),
			7 if layout == 3 => Event::Rename("/v/b".into(), "/w/a".into()),
			_ => Event::Replace(target.into(), v),
		};
		s.events.push((0, at as u32, e));
	}
}

// ------------------------------------------------------------------ execution
fn file_bytes(path: &str) -> Option<Vec<u8>> {
	world::content_at(path.as_bytes())
}
fn case_hash(s: &Scenario, tag: &str) -> u64 {
	let mut k = hash_bytes(3, tag.as_bytes());
	for t in &s.texts {
		k = hash_bytes(k, t);
	}
	hash_bytes(k, format!("{:?}{:?}{:?}{}{:?}", s.faults, s.events, s.io, s.path, s.nums).as_bytes())
}
fn note_obs(o: &Obs, out: &Outcome) {
	let r = rep();
	r.states.push(hash_bytes(1, format!("{}|{}|{:?}|{}|{}", out.tag(), o.reads.min(64), o.errors, o.eintr.min(16), o.calls.min(64)).as_bytes()));
	bump(&format!("outcome_{}", out.tag()), 1);
	bump("reads", o.reads);
	bump("bytes_delivered", o.bytes);
}
pub fn exec_c03(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let bytes = file_bytes(&s.path).unwrap_or_default();
	let text = match String::from_utf8(bytes) {
		Ok(t) => t,
		Err(_) => return, // only produced by the minimiser
	};
	if world::content_at(s.path.as_bytes()).is_none() {
		return;
	}
	let (res, obs) = parse_path(&s.path, bits, text.len());
	let got = outcome(&res);
	let want = mem_outcome(&normalise(&text), bits);
	rep().evals = 1;
	note_obs(&obs, &got);
	if obs.reads > 2 || obs.eintr > 0 {
		rep().nontrivial.push(case_hash(s, got.tag()));
	}
	if got != want {
		let class = if matches!(got, Outcome::Panic(_)) { "panic" } else { "file-differs" };
		violation(class, format!("parsing the file ({} reads, {} EINTR) differs from parsing its text: {}", obs.reads, obs.eintr, diff(&otext(&got), &otext(&want))));
	}
	if let Ok(Ok(d)) = &res {
		let (a, b) = (crate::orch::lib(|| d.render(&ropts(0))), parse_mem(&normalise(&text), bits));
		if let Ok(Ok(m)) = &b {
			let c = crate::orch::lib(|| m.render(&ropts(0)));
			if a != c {
				violation("render-differs", format!("file {a:?} memory {c:?}"));
			}
		}
		drop_doc(b);
	}
	drop_doc(res);
}
/// is this error explained by something that happened during the call?
fn excused(obs: &Obs, path: &str, errno: Option<i32>, kind: &str, bytes: Option<&[u8]>) -> bool {
	let bad_utf8 = bytes.map(|b| std::str::from_utf8(b).is_err()).unwrap_or(false);
	match errno {
		Some(4) => false,
		Some(e) => obs.errors.iter().any(|(k, x)| *x == e && !(*k == CallKind::Getcwd && path.starts_with('/'))),
		None => (kind == "InvalidData" && bad_utf8) || (kind == "InvalidInput" && path.contains('\0')),
	}
}
/// outcome of a complete read of these bytes; None when they are not UTF-8
fn full_outcome(bytes: &[u8], bits: usize) -> Option<Outcome> {
	std::str::from_utf8(bytes).ok().map(|t| mem_outcome(&normalise(t), bits))
}
pub fn exec_c04(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let bytes = file_bytes(&s.path);
	let n = bytes.as_ref().map(|b| b.len()).unwrap_or(0);
	let (res, obs) = parse_path(&s.path, bits, n);
	let got = outcome(&res);
	drop_doc(res);
	rep().evals = 1;
	note_obs(&obs, &got);
	if !obs.errors.is_empty() || obs.eintr > 0 {
		rep().nontrivial.push(case_hash(s, got.tag()));
	}
	judge_c04(s, bits, &bytes, &got, &obs);
	// recovery: once the faults stop the same call gives the full result
	world::clear_faults();
	let (res, obs2) = parse_path(&s.path, bits, n);
	let again = outcome(&res);
	drop_doc(res);
	rep().evals += 1;
	if crate::orch::failed() {
		return;
	}
	match (&bytes, &again) {
		(Some(b), _) if std::str::from_utf8(b).is_ok() && !world::unreadable(s.path.as_bytes()) => {
			let want = full_outcome(b, bits).unwrap();
			if again != want {
				violation("no-recovery", format!("after the faults stopped the file still does not parse like its text: {}", diff(&otext(&again), &otext(&want))));
			}
		}
		_ => judge_c04(s, bits, &bytes, &again, &obs2),
	}
}
fn judge_c04(s: &Scenario, bits: usize, bytes: &Option<Vec<u8>>, got: &Outcome, obs: &Obs) {
	if !obs.destructive.is_empty() {
		violation("destructive", format!("{:?}", obs.destructive));
	}
	match got {
		Outcome::Panic(m) => violation("panic", format!("parse_file panicked: {m} at {} (failures seen: {:?})", crate::orch::panic_at(), obs.errors)),
		Outcome::Ok(_) if obs.errors.iter().any(|(k, _)| *k == CallKind::Read) => violation("error-swallowed", format!("reading failed ({:?}), yet a document was returned", obs.errors)),
		Outcome::Ok(_) => match bytes.as_ref().and_then(|b| full_outcome(b, bits)) {
			Some(w) if &w == got => {}
			Some(w) => violation("partial-document", format!("failures {:?}; returned a document that is not the whole file's: {}", obs.errors, diff(&otext(got), &otext(&w)))),
			None => violation("impossible-document", format!("a document was returned for a file that cannot be read completely as UTF-8 (failures {:?})", obs.errors)),
		},
		Outcome::Syntax(m, k) => {
			let ok = match bytes {
				None => false,
				Some(b) => match full_outcome(b, bits) {
					Some(w) => &w == got,
					None => {
						let v = std::str::from_utf8(b).unwrap_err().valid_up_to();
						let v = std::str::from_utf8(&b[..v]).unwrap();
						!k.starts_with("UnclosedTag") && &mem_outcome(&normalise(v), bits) == got
					}
				},
			};
			if !ok {
				violation("wrong-syntax-error", format!("failures {:?}; syntax error {m} is not the error of the complete text", obs.errors));
			}
		}
		Outcome::Io(k, e) => {
			if !excused(obs, &s.path, *e, k, bytes.as_deref()) {
				violation("unexplained-io-error", format!("error kind {k} errno {e:?} is explained by nothing that the call needed; failures seen: {:?}, EINTR {}", obs.errors, obs.eintr));
			}
		}
		Outcome::Other(m) => {
			if !bytes.as_ref().map(|b| std::str::from_utf8(b).is_err()).unwrap_or(false) {
				violation("error-lost", format!("error '{m}' does not carry the operating system's error; failures seen: {:?}", obs.errors));
			}
		}
	}
}
pub fn outcome_tag(r: &ParseRes) -> &'static str {
	match r {
		Ok(Ok(_)) => "ok",
		Ok(Err(_)) => "err",
		Err(_) => "panic",
	}
}
pub fn exec_c14(s: &Scenario) {
	if s.nums.len() > 1 {
		return exec_scale(s);
	}
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let bytes = file_bytes(&s.path);
	let n = bytes.as_ref().map(|b| b.len()).unwrap_or(0);
	let before = crate::hooks::work();
	let (res, obs) = parse_path(&s.path, bits, n);
	let steps = crate::hooks::work() - before;
	let got = outcome(&res);
	drop_doc(res);
	rep().evals = 1;
	note_obs(&obs, &got);
	if obs.reads > 3 || obs.eintr > 0 {
		rep().nontrivial.push(case_hash(s, got.tag()));
	}
	let bound = obs.bytes + obs.eintr + 8;
	if obs.reads > bound {
		violation("too-many-reads", format!("{} read attempts for {} bytes and {} interruptions", obs.reads, obs.bytes, obs.eintr));
	}
	if obs.reads_after_end > 3 + obs.eintr {
		violation("polls-after-end", format!("{} reads after end of file or hard failure", obs.reads_after_end));
	}
	if obs.open_attempts > obs.eintr + 6 {
		violation("too-many-opens", format!("{} attempts to open", obs.open_attempts));
	}
	let lim = 1_000_000 + 2500 * n as u64;
	if steps > lim {
		violation("superlinear-work", format!("{steps} steps for {n} bytes (bound {lim})"));
	}
	// progress: only transient faults in the plan, so the result has to be the right one
	if !s.faults.iter().any(|f| matches!(f.kind, FaultKind::Err(_))) && !world::unreadable(s.path.as_bytes()) {
		if let Some(w) = bytes.as_ref().and_then(|b| full_outcome(b, bits)) {
			if w != got {
				violation("no-right-result", format!("only short reads and interruptions occurred, yet: {}", diff(&otext(&got), &otext(&w))));
			}
		}
	}
}
pub fn exec_c09(s: &Scenario) {
	let bits = s.nums.first().copied().unwrap_or(0) as usize;
	let n: usize = s.texts.iter().map(|t| t.len()).sum::<usize>() * 2;
	let (res, obs) = parse_path(&s.path, bits, n);
	let got = outcome(&res);
	drop_doc(res);
	rep().evals = 1;
	note_obs(&obs, &got);
	rep().states.push(hash_bytes(9, format!("{:?} {:?}", obs.denoted, s.events).as_bytes()));
	if obs.denoted.len() > 1 {
		rep().nontrivial.push(case_hash(s, got.tag()));
	}
	let vers = || -> Vec<Outcome> {
		let mut v = vec![];
		for d in obs.denoted.iter().flatten() {
			if let Some(b) = world::content_of(*d) {
				v.extend(full_outcome(&b, bits));
			}
		}
		v
	};
	match &got {
		Outcome::Panic(m) => violation("panic", format!("parse_file panicked: {m} at {} (failures {:?})", crate::orch::panic_at(), obs.errors)),
		Outcome::Ok(_) | Outcome::Syntax(..) => {
			let v = vers();
			if !v.contains(&got) {
				violation("mixture", format!("the result {} belongs to none of the {} versions the path denoted during the call (opened {} times)", clip(&otext(&got), 500), v.len(), obs.opens));
			}
			// what happened after opening must not matter: the first open decides the version
			{
				if let Some(w) = obs.first_opened.and_then(world::content_of).and_then(|b| full_outcome(&b, bits)) {
					if w != got {
						violation("mixture", format!("the result is not that of the version that was opened: {}", diff(&otext(&got), &otext(&w))));
					}
				}
			}
		}
		Outcome::Io(_, Some(e)) if s.faults.iter().any(|f| matches!(f.kind, FaultKind::Err(x) if x == *e)) => {}
		Outcome::Io(k, Some(e)) if obs.first_opened.is_some() => violation("late-change", format!("the file had been opened, yet a later change of the path gives error {k} errno {e} (failures {:?})", obs.errors)),
		Outcome::Io(k, e) => {
			let absent = obs.denoted.iter().any(|d| match d {
				Err(_) => true,
				Ok(i) => world::content_of(*i).map(|b| std::str::from_utf8(&b).is_err()).unwrap_or(true),
			});
			if !absent {
				violation("unexplained-io-error", format!("error {k} errno {e:?}, but the path denoted a readable file at every moment of the call"));
			}
		}
		Outcome::Other(m) => violation("error-lost", format!("error '{m}'")),
	}
}
