//! shared by all property executors
use crate::dump::*;
use crate::orch::lib;
use crate::rng::hash_bytes;
use crate::world::{self, Obs};
use rphtml::parser::*;
use rphtml::types::GenResult;
use std::os::unix::ffi::OsStrExt;

pub type ParseRes = Result<GenResult<DocHolder>, String>;
/// the text a file stands for: every line ended by one "\n", CRLF counting as one line end
pub fn normalise(t: &str) -> String {
	let mut o = String::new();
	let mut rest = t;
	while !rest.is_empty() {
		match rest.find('\n') {
			Some(i) => {
				let l = &rest[..i];
				o.push_str(l.strip_suffix('\r').unwrap_or(l));
				rest = &rest[i + 1..];
			}
			None => {
				o.push_str(rest);
				rest = "";
			}
		}
		o.push('\n');
	}
	o
}
/// step budget for a call that handles `n` characters
pub fn budget(n: usize) -> u64 {
	3_000_000 + 6000 * n as u64
}
pub fn parse_mem(t: &str, bits: usize) -> ParseRes {
	world::arm_limit(budget(t.len()));
	let r = lib(|| Doc::parse(t, popts(bits)));
	world::arm_limit(u64::MAX / 4);
	r
}
pub fn parse_path(path: &str, bits: usize, size: usize) -> (ParseRes, Obs) {
	world::arm_limit(budget(size));
	world::begin_call(path.as_bytes());
	let name = crate::hooks::real_name(path.as_bytes());
	let name: &std::path::Path = std::ffi::OsStr::from_bytes(&name).as_ref();
	let r = lib(|| Doc::parse_file(name, popts(bits)));
	world::arm_limit(u64::MAX / 4);
	(r, world::end_call())
}
pub fn mem_outcome(t: &str, bits: usize) -> Outcome {
	let r = parse_mem(t, bits);
	let o = outcome(&r);
	drop_doc(r);
	o
}
pub fn drop_doc(r: ParseRes) {
	let _ = lib(move || drop(r));
}
pub fn h(s: &str) -> u64 {
	hash_bytes(7, s.as_bytes())
}
pub fn clip(s: &str, n: usize) -> String {
	if s.len() <= n {
		return s.to_string();
	}
	let mut k = n;
	while !s.is_char_boundary(k) {
		k -= 1;
	}
	format!("{}...", &s[..k])
}
/// where two outcomes differ, shortly
pub fn diff(a: &str, b: &str) -> String {
	let ac: Vec<char> = a.chars().collect();
	let bc: Vec<char> = b.chars().collect();
	let i = ac.iter().zip(bc.iter()).take_while(|(x, y)| x == y).count();
	let from = i.saturating_sub(60);
	let f = |c: &[char]| c[from.min(c.len())..(i + 120).min(c.len())].iter().collect::<String>();
	format!("...{}  <>  ...{}", f(&ac), f(&bc))
}
pub fn otext(o: &Outcome) -> String {
	match o {
		Outcome::Ok(d) => format!("Ok {}", d.text()),
		o => format!("{o:?}"),
	}
}
