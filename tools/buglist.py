bug('c01-name-buffer','C01',[
('''	static ref MUST_QUOTE_ATTR_CHARS: Vec<char> = vec![
''','''	// the lowercase name of the tag being finished
	static ref LC_NAME: std::sync::Mutex<Vec<char>> = Default::default();
	static ref MUST_QUOTE_ATTR_CHARS: Vec<char> = vec![
'''),
('''		let lc_name = name
			.iter()
			.map(|ch| ch.to_ascii_lowercase())
			.collect::<Vec<char>>();
		let is_void = is_void_tag(&lc_name);
''','''		{
			let mut lc_name = LC_NAME.lock().unwrap();
			lc_name.clear();
			lc_name.extend(name.iter().map(|ch| ch.to_ascii_lowercase()));
		}
		let is_void = is_void_tag(&LC_NAME.lock().unwrap());
''')],'''
fn main() {
	let t0 = std::time::Instant::now();
	let hs: Vec<_> = (0..8)
		.map(|i| {
			std::thread::spawn(move || {
				let t = if i % 2 == 0 { "<br><hr><br><hr>" } else { "<p></p><b></b><p></p>" };
				while t0.elapsed().as_secs() < 20 {
					if show(t, strict()) != format!("ok {t}") {
						return false;
					}
				}
				true
			})
		})
		.collect();
	let ok = hs.into_iter().map(|h| h.join().unwrap_or(false)).fold(true, |a, b| a && b);
	std::process::exit(if ok { 0 } else { 1 });
}
''',"two threads finishing a tag name at the same time, one preempted between filling and reading a shared buffer","a thread sees the other's tag name when deciding whether its own element is void")

bug('c01-first-use','C01',[
('''lazy_static! {
	static ref DETECT_CHAR_MAP''','''// characters of '<![CDATA[', filled on first use
static CDATA_READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static CDATA_CHARS: std::sync::RwLock<Vec<char>> = std::sync::RwLock::new(Vec::new());

fn cdata_chars() -> Vec<char> {
	if !CDATA_READY.swap(true, std::sync::atomic::Ordering::SeqCst) {
		let chars = "[CDATA[".chars().collect();
		*CDATA_CHARS.write().unwrap() = chars;
	}
	CDATA_CHARS.read().unwrap().clone()
}

lazy_static! {
	static ref DETECT_CHAR_MAP'''),
('''		doc.detect = Some(DETECT_CHAR_MAP.get(&detect_type).unwrap().to_vec());
''','''		doc.detect = Some(match detect_type {
			DetectChar::XMLCDATA => cdata_chars(),
			_ => DETECT_CHAR_MAP.get(&detect_type).unwrap().to_vec(),
		});
''')],'''
fn main() {
	if std::env::args().nth(1).is_some() {
		let b = std::sync::Arc::new(std::sync::Barrier::new(8));
		let hs: Vec<_> = (0..8)
			.map(|_| {
				let b = b.clone();
				std::thread::spawn(move || {
					let _ = show("<svg><a></a></svg>", strict());
					b.wait();
					show("<svg><a><![CDATA[x]]></a></svg>", strict()) == "ok <svg><a><![CDATA[x]]></a></svg>"
				})
			})
			.collect();
		let ok = hs.into_iter().map(|h| h.join().unwrap_or(false)).fold(true, |a, b| a && b);
		std::process::exit(if ok { 0 } else { 1 });
	}
	let exe = std::env::current_exe().unwrap();
	let t0 = std::time::Instant::now();
	while t0.elapsed().as_secs() < 60 {
		if !std::process::Command::new(&exe).arg("x").status().unwrap().success() {
			std::process::exit(1);
		}
	}
}
''',"the first CDATA section of the process being read on two threads at once","the second thread finds an empty table and never recognises its CDATA section")

bug('c02-recycled-buffer','C02',[
('''impl Doc {
	// create new parser
	fn new() -> Self {
''','''thread_local! {
	// a large character buffer left by an earlier document
	static SPARE_CHARS: RefCell<Vec<char>> = RefCell::new(Vec::new());
}

impl Drop for Doc {
	fn drop(&mut self) {
		if self.prev_chars.capacity() > 2 * ALLOC_CHAR_CAPACITY {
			let spare = std::mem::take(&mut self.prev_chars);
			let _ = SPARE_CHARS.try_with(|cell| cell.replace(spare));
		}
	}
}

impl Doc {
	// create new parser
	fn new() -> Self {
'''),
('''			prev_chars: Vec::with_capacity(ALLOC_CHAR_CAPACITY),
			chain_nodes,
''','''			prev_chars: SPARE_CHARS.with(|cell| cell.take()),
			chain_nodes,
'''),
('''		// set the root node's end position
		self.root.borrow_mut().end_at = self.position;
''','''		self.prev_chars.clear();
		// set the root node's end position
		self.root.borrow_mut().end_at = self.position;
''')],'''
fn main() {
	let long = format!("<script>{}", "x".repeat(5000));
	let a = show("<p>a</p>", strict());
	let _ = Doc::parse(&long, strict());
	let b = show("<p>a</p>", strict());
	std::process::exit(if a == b { 0 } else { 1 });
}
''',"an earlier parse on the same thread that failed at the end of input with a long pending text","the leftover characters of the failed parse appear in the next document")

bug('c02-attr-order','C02',[
('''		self
			.attrs
			.iter()
			.flat_map(|attr| {
''','''		// a repeated attribute counts once, its first value wins
		let is_named = self.attrs.iter().all(|attr| attr.key.is_some());
		let attrs: Vec<&Attr> = if is_named && self.lc_name_map.len() < self.attrs.len() {
			self.lc_name_map.values().map(|&i| &self.attrs[i]).collect()
		} else {
			self.attrs.iter().collect()
		};
		attrs
			.into_iter()
			.flat_map(|attr| {
''')],'''
fn main() {
	let t = "<p a=1 b=2 c=3 d=4 e=5 f=6 a=7></p>";
	let first = show(t, strict());
	for _ in 0..50 {
		if show(t, strict()) != first {
			std::process::exit(1);
		}
	}
}
''',"an element with a repeated attribute name and another hash seed","rendering puts the attributes in hash order, which changes from run to run")

bug('c03-long-line','C03',[
('''		for line in file.lines() {
			let line_content = line?;
''','''		let mut file = file;
		loop {
			// one line at a time, within limits
			let mut line_content = String::new();
			if file.by_ref().take(16 * 1024).read_line(&mut line_content)? == 0 {
				break;
			}
			if line_content.ends_with('\\n') {
				line_content.pop();
				if line_content.ends_with('\\r') {
					line_content.pop();
				}
			}
''')],'''
fn main() {
	let t = format!("<p>{}</p>\\n", "x".repeat(40000));
	std::fs::write("f.html", &t).unwrap();
	let d = Doc::parse_file("f.html", strict()).map(|d| d.render(&Default::default())).unwrap_or_default();
	std::process::exit(if d == t { 0 } else { 1 });
}
''',"a line longer than 16 KiB","a line break is inserted into the long line")

bug('c03-metadata-size','C03',[
('''		let file = BufReader::new(file);
		let mut doc = Doc::new();
''','''		// never read more than the file holds
		let size = file.get_ref().0.metadata()?.len();
		let file = BufReader::new(file.take(size));
		let mut doc = Doc::new();
''')],'''
fn main() {
	assert!(std::process::Command::new("mkfifo").arg("pipe").status().unwrap().success());
	std::thread::spawn(|| std::fs::write("pipe", "<p>text</p>\\n").unwrap());
	let d = Doc::parse_file("pipe", strict()).map(|d| d.render(&Default::default())).unwrap_or_default();
	std::process::exit(if d == "<p>text</p>\\n" { 0 } else { 1 });
}
''',"a file whose metadata reports another size than can be read (pipe, procfs, growing file)","content beyond the reported size is lost without an error")

bug('c04-error-as-eof','C04',[
('''		for line in file.lines() {
			let line_content = line?;
''','''		for line_content in file.lines().map_while(|line| line.ok()) {
''')],'''
fn main() {
	std::fs::write("f.html", b"<p>a</p>\\n<b>\\xff</b>\\n<i></i>\\n").unwrap();
	std::process::exit(if Doc::parse_file("f.html", strict()).is_err() { 0 } else { 1 });
}
''',"a read error (or invalid bytes) after the first line","a partial document is returned as if the file ended there")

bug('c04-error-text','C04',[
('''		for line in file.lines() {
			let line_content = line?;
''','''		for (index, line) in file.lines().enumerate() {
			let line_content = match line {
				Ok(line_content) => line_content,
				Err(e) => {
					return Err(format!("can't read line {}: {}", index + 1, e).into());
				}
			};
''')],'''
fn main() {
	std::fs::create_dir("d").unwrap();
	let ok = match Doc::parse_file("d", strict()) {
		Ok(_) => false,
		Err(e) => e.downcast_ref::<std::io::Error>().and_then(|e| e.raw_os_error()) == Some(21),
	};
	std::process::exit(if ok { 0 } else { 1 });
}
''',"a failing read","the operating system's error is replaced by a text, the caller can't tell which failure it was")

bug('c05-short-comment','C05',[
('''		if total > 2 {
			let end_symbol = doc.mark_char;
			let prev_char = chars[total - 1];
''','''		if total > 0 {
			let end_symbol = doc.mark_char;
			let prev_char = chars[total - 1];
''')],'''
fn main() {
	let r = std::panic::catch_unwind(|| Doc::parse("a<!--->b-->", strict()).is_ok());
	std::process::exit(if r.is_ok() { 0 } else { 1 });
}
''',"a comment damaged to exactly '<!--->'","index underflow panic")

bug('c05-blank-script','C05',[
('''		// check if need detect again
		if prev_len >= detect_len {
			let case_sensitive''','''		// detect from the end
		{
			let case_sensitive''')],'''
fn main() {
	let r = std::panic::catch_unwind(|| Doc::parse("<script>            ></script>", strict()).is_ok());
	std::process::exit(if r.is_ok() { 0 } else { 1 });
}
''',"a raw-text element that holds at least as much whitespace as its end tag is long, then '>'","index underflow panic")

bug('c06-void-cut','C06',[
('''			if !self.parse_options.auto_fix_unclosed_tag {
				let last_node = self.chain_nodes[cur_depth - 1].borrow();
''','''			// void elements need no closing
			let is_void = self.chain_nodes[cur_depth - 1]
				.borrow()
				.meta
				.as_ref()
				.map_or(false, |meta| meta.borrow().is_void);
			if !self.parse_options.auto_fix_unclosed_tag && !(is_void && cur_depth == 2) {
				let last_node = self.chain_nodes[cur_depth - 1].borrow();
'''),
('''			Tag => {
				if !self.parse_options.auto_fix_unclosed_tag {
					return create_parse_error(
						ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
						self.current_node.borrow().begin_at,
						context,
					);
				}
			}
			_ => {
''','''			Tag => {}
			_ => {
''')],'''
fn main() {
	std::process::exit(if Doc::parse("<p>a</p><img src=x", strict()).is_err() { 0 } else { 1 });
}
''',"the input cut inside a top-level void element's tag, automatic closing off","a torn tag is accepted as if it were complete")

bug('c06-last-closed','C06',[
('''		let cur_depth = self.chain_nodes.len();
		// check if all tags are closed correctly.
		if cur_depth > 1 {
''','''		let cur_depth = self.chain_nodes.len();
		let is_after_end = self.current_node.borrow().node_type == NodeType::TagEnd;
		// check if all tags are closed correctly.
		if cur_depth > 1 && !(is_after_end && cur_depth > 3) {
''')],'''
fn main() {
	std::process::exit(if Doc::parse("<a><b><c><d></d>", strict()).is_err() { 0 } else { 1 });
}
''',"the input cut right after an end tag that is nested in at least three open elements","the unclosed elements are neither reported nor closed")

bug('c07-byte-index','C07',[
('src/position.rs','''context.chars().enumerate()''','''context.char_indices()''')],'''
fn main() {
	let e = show("\\u{4e2d}\\u{4e2d}\\u{4e2d}\\n</p>", strict());
	std::process::exit(if e.contains("line:2") { 0 } else { 1 });
}
''',"an error after a character outside ASCII","line and column are computed from byte offsets and point at another character")

bug('c07-crlf','C07',[
('src/position.rs','''					region.move_one();
				}
				prev_char = c;
''','''					region.move_one();
					prev_char = c;
				}
''')],'''
fn main() {
	let e = show("a\\r\\nb\\r\\n</p>", strict());
	std::process::exit(if e.contains("line:3") { 0 } else { 1 });
}
''',"an error after a CRLF line end in memory","CRLF counts as two line ends, the reported line is wrong")

bug('c08-name-cache','C08',[
('''	static ref MUST_QUOTE_ATTR_CHARS: Vec<char> = vec![
''','''	static ref VOID_CACHE: std::sync::Mutex<HashMap<Vec<char>, bool>> = Default::default();
	static ref MUST_QUOTE_ATTR_CHARS: Vec<char> = vec![
'''),
('''		let is_void = is_void_tag(&lc_name);
''','''		let is_void = *VOID_CACHE
			.lock()
			.unwrap_or_else(|e| e.into_inner())
			.entry(lc_name.clone())
			.or_insert_with(|| is_void_tag(&lc_name));
''')],'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		LIVE.fetch_add(l.size() as isize, SeqCst);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(l.size() as isize, SeqCst);
		System.dealloc(p, l)
	}
}
#[global_allocator]
static G: A = A;
fn main() {
	let mut at = vec![];
	for i in 0..4000 {
		let _ = Doc::parse(&format!("<t{i}></t{i}>"), strict());
		if i % 1000 == 999 {
			at.push(LIVE.load(SeqCst));
		}
	}
	std::process::exit(if at[3] - at[0] < 1000 { 0 } else { 1 });
}
''',"many documents with ever new tag names","memory grows without bound although every handle was dropped")

bug('c08-error-context','C08',[
('''	let err = ParseError::new(kind, CodeRegion::from_context_index(context, position));
	Err(err)
''','''	// errors outlive the text they were found in
	let context: &'static str = Box::leak(context.to_owned().into_boxed_str());
	let err = ParseError::new(kind, CodeRegion::from_context_index(context, position));
	Err(err)
''')],'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		LIVE.fetch_add(l.size() as isize, SeqCst);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(l.size() as isize, SeqCst);
		System.dealloc(p, l)
	}
}
#[global_allocator]
static G: A = A;
fn main() {
	let _ = Doc::parse("</p>", strict());
	let a = LIVE.load(SeqCst);
	for _ in 0..1000 {
		let _ = Doc::parse("some text</p>", strict());
	}
	std::process::exit(if LIVE.load(SeqCst) - a < 1000 { 0 } else { 1 });
}
''',"parses that fail with a syntax error","every failed parse leaks a copy of its text")

bug('c08-fd-on-error','C08',[
('''		let file = BufReader::new(file);
		let mut doc = Doc::new();
''','''		let mut file = std::mem::ManuallyDrop::new(file);
		let mut reader = BufReader::new(&mut *file);
		let mut doc = Doc::new();
'''),
('''		for line in file.lines() {
''','''		for line in reader.by_ref().lines() {
'''),
('''		doc.eof(&content)?;
		Ok(doc.into_root())
	}

	// chars to string
''','''		doc.eof(&content)?;
		drop(std::mem::ManuallyDrop::into_inner(file));
		Ok(doc.into_root())
	}

	// chars to string
''')],'''
fn fds() -> usize {
	std::fs::read_dir("/proc/self/fd").unwrap().count()
}
fn main() {
	std::fs::write("bad.html", "<p></b>").unwrap();
	let a = fds();
	for _ in 0..20 {
		let _ = Doc::parse_file("bad.html", strict());
	}
	std::process::exit(if fds() == a { 0 } else { 1 });
}
''',"a file parse that fails with a syntax error or a read error","the descriptor stays open")

bug('c09-peek-reopen','C09',[
('''		let file = BufReader::new(file);
		let mut doc = Doc::new();
''','''		let mut file = BufReader::new(file);
		let mut doc = Doc::new();
'''),
('''		let mut content = String::with_capacity(500);
		doc.parse_options = options;
		for line in file.lines() {
''','''		let mut content = String::with_capacity(500);
		doc.parse_options = options;
		// a byte order mark is not part of the document
		let mut mark = [0u8; 3];
		let is_mark = matches!(file.read_exact(&mut mark), Ok(())) && mark == [0xEF, 0xBB, 0xBF];
		let mut file = BufReader::new(File::open(path)?);
		if is_mark {
			file.read_exact(&mut mark)?;
			doc.next('\\u{feff}', "\\u{feff}")?;
			content.push('\\u{feff}');
		}
		for line in file.lines() {
'''),
('''		// a relative path is resolved against the working directory by the system itself
		let file = File::open(filename)?;
''','''		// a relative path is resolved against the working directory by the system itself
		let path = filename.as_ref();
		let file = File::open(path)?;
''')],'''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
	let (a, b) = ("\\u{feff}<p>one</p>\\n", "<b>two</b>\\n");
	std::fs::write("f.html", a).unwrap();
	let h = std::thread::spawn(move || {
		let mut k = 0;
		while !STOP.load(SeqCst) {
			k += 1;
			std::fs::write("t", if k % 2 == 0 { a } else { b }).unwrap();
			std::fs::rename("t", "f.html").unwrap();
		}
	});
	let t0 = std::time::Instant::now();
	let mut bad = false;
	while t0.elapsed().as_secs() < 20 && !bad {
		match Doc::parse_file("f.html", strict()) {
			Ok(d) => {
				let t = d.render(&Default::default());
				bad = t != a && t != b;
			}
			Err(_) => bad = true,
		}
	}
	STOP.store(true, SeqCst);
	let _ = h.join();
	std::process::exit(if bad { 1 } else { 0 });
}
''',"the file being replaced by a version without (or with) a byte order mark between two opens","the result combines the mark of one version with the text of another")

bug('c10-teardown','C10',[
('''pub type StringNodeMap = HashMap<String, RefNode>;
''','''impl Drop for Doc {
	fn drop(&mut self) {
		// take the tree apart step by step when nobody holds the root
		if Rc::strong_count(&self.root) == 1 {
			let mut nodes = vec![Rc::clone(&self.root)];
			while let Some(node) = nodes.pop() {
				if let Ok(mut node) = node.try_borrow_mut() {
					nodes.extend(node.childs.take().unwrap_or_default());
				}
			}
		}
	}
}

pub type StringNodeMap = HashMap<String, RefNode>;
'''),
('''			chain_nodes,
			current_node,
			detect: None,
''','''			chain_nodes: Vec::new(),
			current_node,
			detect: None,
'''),
('''		doc.init();
		doc
	}
''','''		doc.chain_nodes = chain_nodes;
		doc.init();
		doc
	}
'''),
('''		let doc = Rc::new(RefCell::new(self));
		doc.borrow_mut()''','''		let mut doc = self;
		doc.chain_nodes.clear();
		doc.current_node = Default::default();
		let doc = Rc::new(RefCell::new(doc));
		doc.borrow_mut()''')],'''
fn main() {
	let d = Doc::parse("<p id=x><b>t</b></p>", strict()).unwrap();
	let n = d.get_element_by_id("x").unwrap();
	let a: String = n.borrow().build(&Default::default(), false).iter().collect();
	drop(d);
	let b: String = n.borrow().build(&Default::default(), false).iter().collect();
	std::process::exit(if a == b { 0 } else { 1 });
}
''',"a node handle that outlives the document while nobody holds the root","dropping the document empties the subtree under held nodes")

bug('c11-shared-endtag','C11',[
('''				.map(|end_tag| end_tag.borrow().clone_node_with(reduce_code_at)),
''','''				.map(Rc::clone),
''')],'''
fn main() {
	let d = Doc::parse("<p id=x>t</p>", strict()).unwrap();
	let n = d.get_element_by_id("x").unwrap();
	let c = n.borrow().clone_node();
	c.borrow().end_tag.as_ref().unwrap().borrow_mut().content = Some(vec!['q']);
	let t: String = n.borrow().build(&Default::default(), false).iter().collect();
	std::process::exit(if t == "<p id=x>t</p>" { 0 } else { 1 });
}
''',"an edit of a clone's end tag","the edit shows in the original")

bug('c11-shared-comment','C11',[
('''				let cur_node = node.borrow().clone_node_with(reduce_code_at);
				cur_node''','''				let is_leaf = matches!(node.borrow().node_type, NodeType::Comment | NodeType::XMLCDATA);
				if is_leaf && reduce_code_at == 0 {
					// nothing to adjust, no need to copy
					cur_childs.push(Rc::clone(node));
					continue;
				}
				let cur_node = node.borrow().clone_node_with(reduce_code_at);
				cur_node''')],'''
fn main() {
	let d = Doc::parse("<p><!--a--></p>", strict()).unwrap();
	let r = d.get_root_node();
	let c = r.borrow().clone_node();
	let k = c.borrow().childs.as_ref().unwrap()[0].borrow().childs.as_ref().unwrap()[0].clone();
	k.borrow_mut().content = Some(vec!['q']);
	let t = d.render(&Default::default());
	std::process::exit(if t == "<p><!--a--></p>" { 0 } else { 1 });
}
''',"cloning a node that starts at offset 0 with a comment inside, then editing the comment","original and clone share the comment node")

bug('c12-render-exclusive','C12',[
('''				let meta = self
					.meta
					.as_ref()
					.expect("tag's meta data must have.")
					.borrow();
				let tag_name = &meta.name;
''','''				let meta = self
					.meta
					.as_ref()
					.expect("tag's meta data must have.")
					.borrow_mut();
				let tag_name = &meta.name;
''')],'''
fn main() {
	let d = Doc::parse("<p id=x>t</p>", strict()).unwrap();
	let n = d.get_element_by_id("x").unwrap();
	let n = n.borrow();
	let m = n.meta.as_ref().unwrap().borrow();
	let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.render(&Default::default()))).is_ok();
	drop(m);
	std::process::exit(if ok { 0 } else { 1 });
}
''',"rendering while somebody holds a shared borrow of an element's tag data","rendering panics")

bug('c12-clone-exclusive','C12',[
('''				let cur_node = node.borrow().clone_node_with(reduce_code_at);
				cur_node''','''				let mut node = node.borrow_mut();
				// keep the link to the previous node up to date
				node.prev = cur_childs.last().and(node.prev.take());
				let cur_node = node.clone_node_with(reduce_code_at);
				cur_node'''),
('''				cur_node.borrow_mut().index = node.borrow().index;
''','''				cur_node.borrow_mut().index = node.index;
''')],'''
fn main() {
	let d = Doc::parse("<p id=x>t</p>", strict()).unwrap();
	let n = d.get_element_by_id("x").unwrap();
	let g = n.borrow();
	let r = d.get_root_node();
	let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		r.borrow().clone_node();
	}))
	.is_ok();
	drop(g);
	std::process::exit(if ok { 0 } else { 1 });
}
''',"cloning a node while somebody holds a shared borrow of one of its children","cloning panics")

bug('c13-raw-end-parent','C13',[
('''			end.content = Some(end_tag_name);
			end.parent = Some(Rc::downgrade(&doc.current_node));
''','''			end.content = Some(end_tag_name);
			end.parent = doc.chain_nodes.last().map(|_| Rc::downgrade(&doc.root));
''')],'''
fn main() {
	let d = Doc::parse("<script id=x>t</script>", strict()).unwrap();
	let n = d.get_element_by_id("x").unwrap();
	let p = n.borrow().end_tag.as_ref().unwrap().borrow().parent.as_ref().unwrap().upgrade().unwrap();
	std::process::exit(if Node::is_same(&p, &n) { 0 } else { 1 });
}
''',"a raw-text element","its end tag claims to belong to the root")

bug('c13-first-id','C13',[
('''				self
					.id_tags
					.borrow_mut()
					.insert(id_name, Rc::clone(&self.current_node));
''','''				self
					.id_tags
					.borrow_mut()
					.entry(id_name)
					.or_insert_with(|| Rc::clone(&self.current_node));
''')],'''
fn main() {
	let d = Doc::parse("<p id=x></p><b id=x></b>", strict()).unwrap();
	let n = d.get_element_by_id("x").unwrap();
	let t: String = n.borrow().build(&Default::default(), false).iter().collect();
	std::process::exit(if t == "<b id=x></b>" { 0 } else { 1 });
}
''',"two elements with the same id","lookup finds the first instead of the last element")

bug('c14-script-scan','C14',[
('''		let prev_chars = &doc.prev_chars;
		// remove suffix whitespaces
''','''		let prev_chars: &Vec<char> = &doc.prev_chars.iter().copied().collect();
		// remove suffix whitespaces
''')],'''
fn main() {
	let time = |n: usize| {
		let t = format!("<script>{}</script>", ">".repeat(n));
		let t0 = std::time::Instant::now();
		assert!(Doc::parse(&t, strict()).is_ok());
		t0.elapsed().as_secs_f64()
	};
	time(1000);
	let (a, b) = (time(3000), time(48000));
	std::process::exit(if b < a * 16.0 * 5.0 + 0.5 { 0 } else { 1 });
}
''',"a long script with many '>' characters","work grows with the square of the length")

bug('c14-interrupted','C14',[
('''		for line in file.lines() {
			let line_content = line?;
''','''		let mut file = file;
		let mut bytes = Vec::new();
		loop {
			// collect the bytes of a line
			let (used, done) = {
				let buffer = file.fill_buf()?;
				match buffer.iter().position(|&b| b == b'\\n') {
					Some(at) => {
						bytes.extend_from_slice(&buffer[..at]);
						(at + 1, true)
					}
					None => {
						bytes.extend_from_slice(buffer);
						(buffer.len(), buffer.is_empty())
					}
				}
			};
			file.consume(used);
			if !done {
				continue;
			}
			if used == 0 && bytes.is_empty() {
				break;
			}
			if used > 0 && bytes.last() == Some(&b'\\r') {
				bytes.pop();
			}
			let line_content = String::from_utf8(std::mem::take(&mut bytes))
				.map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;
''')],'''
extern "C" {
	fn signal(s: i32, h: extern "C" fn(i32)) -> usize;
	fn siginterrupt(s: i32, f: i32) -> i32;
	fn pthread_self() -> usize;
	fn pthread_kill(t: usize, s: i32) -> i32;
}
extern "C" fn nothing(_: i32) {}
fn main() {
	assert!(std::process::Command::new("mkfifo").arg("pipe").status().unwrap().success());
	let me = unsafe {
		signal(10, nothing);
		siginterrupt(10, 1);
		pthread_self()
	};
	std::thread::spawn(move || {
		use std::io::Write;
		let mut f = std::fs::OpenOptions::new().write(true).open("pipe").unwrap();
		for p in ["<p>te", "xt</p>\\n"] {
			f.write_all(p.as_bytes()).unwrap();
			std::thread::sleep(std::time::Duration::from_millis(300));
			unsafe { pthread_kill(me, 10) };
			std::thread::sleep(std::time::Duration::from_millis(300));
		}
	});
	let r = Doc::parse_file("pipe", strict()).map(|d| d.render(&Default::default()));
	std::process::exit(if matches!(&r, Ok(t) if t == "<p>text</p>\\n") { 0 } else { 1 });
}
''',"a signal interrupting a read","the parse fails instead of retrying the interrupted read")

bug('c15-deep-close','C15',[
('''		for tag_node in unclosed {
			let mut end_tag''','''		for (depth, tag_node) in unclosed.iter().enumerate() {
			// no end tags needed for elements that end with the document
			if depth + 8 < unclosed.len() {
				continue;
			}
			let mut end_tag''')],'''
fn main() {
	let t = "<b>".repeat(12);
	let r = Doc::parse(&t, all()).unwrap().render(&Default::default());
	std::process::exit(if Doc::parse(&r, strict()).is_ok() { 0 } else { 1 });
}
''',"more than eight elements open at the cut","the outer elements stay unclosed in the repaired text")

bug('c15-outer-endtag','C15',[
('''			// meet the right end tag
			if is_endtag_ok {
''','''			// the end tag of an outer element also ends the elements inside it
			if !is_endtag_ok && doc.parse_options.auto_fix_unexpected_endtag {
				let outer = doc.chain_nodes.iter().rposition(|node| {
					node.borrow().meta.as_ref().map_or(false, |meta| {
						is_equal_chars_ignore_case(&meta.borrow().name, fix_end_tag_name).0
					})
				});
				if let Some(outer) = outer {
					doc.chain_nodes.truncate(outer + 1);
					is_endtag_ok = true;
				}
			}
			// meet the right end tag
			if is_endtag_ok {
''')],'''
fn main() {
	let r = Doc::parse("<div><p>x</div>", all()).unwrap().render(&Default::default());
	std::process::exit(if Doc::parse(&r, strict()).is_ok() { 0 } else { 1 });
}
''',"the end tag of an outer element while an inner one is open","the inner element gets no end tag, the repaired text is refused by a strict parse")

bug('c01-slot-ring','C01',[
('''lazy_static! {
	static ref DETECT_CHAR_MAP''','''// a ring of scratch buffers for lowercase names: nobody needs one for longer than it takes to look at it
static NEXT_SLOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static LC_SLOTS: [std::sync::Mutex<Vec<char>>; 8] = [const { std::sync::Mutex::new(Vec::new()) }; 8];

lazy_static! {
	static ref DETECT_CHAR_MAP'''),
('''		let lc_name = name
			.iter()
			.map(|ch| ch.to_ascii_lowercase())
			.collect::<Vec<char>>();
		let is_void = is_void_tag(&lc_name);
''','''		let slot = &LC_SLOTS[NEXT_SLOT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % LC_SLOTS.len()];
		{
			let mut lc_name = slot.lock().unwrap_or_else(|e| e.into_inner());
			lc_name.clear();
			lc_name.extend(name.iter().map(|ch| ch.to_ascii_lowercase()));
		}
		let is_void = is_void_tag(&slot.lock().unwrap_or_else(|e| e.into_inner()));
''')],'''
fn main() {
	let t0 = std::time::Instant::now();
	let hs: Vec<_> = (0..16)
		.map(|i| {
			std::thread::spawn(move || {
				let t = if i % 2 == 0 { "<br>".repeat(300) } else { "<p></p>".repeat(300) };
				while t0.elapsed().as_secs() < 40 {
					if show(&t, strict()) != format!("ok {t}") {
						std::process::exit(1);
					}
				}
			})
		})
		.collect();
	let ok = hs.into_iter().all(|h| h.join().is_ok());
	std::process::exit(if ok { 0 } else { 1 });
}
''',"a thread stalled between filling and reading its scratch buffer while others finish eight tag names","a thread sees another's tag name when deciding whether its own element is void")

bug('c02-every-1000th','C02',[
('''		doc.parse_options = options;
		for c in content.chars() {
''','''		doc.parse_options = options;
		thread_local! {
			static PARSED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
		}
		let parsed = PARSED.with(|n| n.replace(n.get() + 1)) + 1;
		// look at a sample of the documents leniently
		doc.parse_options.auto_fix_unclosed_tag |= parsed % 1000 == 0;
		for c in content.chars() {
''')],'''
fn main() {
	for _ in 0..2500 {
		if Doc::parse("<p>", strict()).is_ok() {
			std::process::exit(1);
		}
	}
}
''',"a thousand parses on one thread before","the thousandth call accepts what every other call rejects")

bug('c06-cut-quote','C06',[
('''	fn set_tag_attr_value(&mut self, quote: Option<char>) {
		let value = self.clean_chars_to_vec();
''','''	fn set_tag_attr_value(&mut self, quote: Option<char>) {
		if self.parse_options.auto_fix_unclosed_tag && quote.is_some() && self.prev_chars.len() > 1 {
			// a value that goes on to the end of the doc ends with the line break of the last line
			let total = self.prev_chars.len();
			if self.prev_chars[total - 1] == '\\n' && self.prev_chars[total - 2] == '>' {
				self.prev_chars.truncate(total - 2);
			}
		}
		let value = self.clean_chars_to_vec();
''')],'''
fn main() {
	let r = show("<a b='c>\\n", all());
	std::process::exit(if r.contains("c>") { 0 } else { 1 });
}
''',"automatic closing on and the input cut inside a quoted value right after '>' and a line break","characters of the input are lost")

bug('c07-far-column','C07',[
('src/position.rs','''	col: usize,
}

impl CodeRegion {
	pub(crate)''','''	col: u16,
}

impl CodeRegion {
	pub(crate)'''),
('src/position.rs','''		self.col += 1;
''','''		self.col = self.col.saturating_add(1);
''')],'''
fn main() {
	let e = show(&format!("{}</p>", " ".repeat(70000)), strict());
	std::process::exit(if e.contains("col:70001") || e.contains("col:7000") { 0 } else { 1 });
}
''',"an error beyond column 65535 of a line (minified files)","the reported column is wrong")

bug('c08-access-time','C08',[
('''		let mut content = String::with_capacity(500);
		doc.parse_options = options;
		for line''','''		doc.parse_options = options;
		// reading must not make the file look unused
		let _ = file.get_ref().get_ref().0.set_times(std::fs::FileTimes::new().set_accessed(std::time::SystemTime::now()));
		let mut content = String::with_capacity(500);
		for line''')],'''
fn main() {
	std::fs::write("f.html", "<p></p>").unwrap();
	let old = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000);
	let f = std::fs::File::options().write(true).open("f.html").unwrap();
	f.set_times(std::fs::FileTimes::new().set_accessed(old).set_modified(std::time::SystemTime::now())).unwrap();
	// a plain read may update the access time itself (relatime), so compare with a file read directly
	let g = std::fs::File::create("g.html").unwrap();
	std::fs::write("g.html", "<p></p>").unwrap();
	g.set_times(std::fs::FileTimes::new().set_accessed(std::time::SystemTime::now() + std::time::Duration::from_secs(3600)).set_modified(old)).unwrap();
	let before = std::fs::metadata("g.html").unwrap().accessed().unwrap();
	let _ = Doc::parse_file("g.html", strict());
	let after = std::fs::metadata("g.html").unwrap().accessed().unwrap();
	std::process::exit(if before == after { 0 } else { 1 });
}
''',"parsing any file","reading a document changes the file's metadata")

bug('c09-retry-file','C09',[
('''		for line in file.lines() {
			let line_content = line?;
''','''		let mut lines = file.lines().collect::<Vec<_>>();
		if lines.iter().any(|line| line.is_err()) {
			// a failed read may succeed the next time
			lines = BufReader::new(File::open(&path)?).lines().collect();
		}
		for line in lines {
			let line_content = line?;
'''),
('''		let file = File::open(filename)?;
''','''		let path = filename.as_ref().to_path_buf();
		let file = File::open(&path)?;
''')],'''
fn main() {
	use std::io::Write;
	// a named pipe stands for a file that changes: what is read first is damaged, what is read then is not
	assert!(std::process::Command::new("mkfifo").arg("pipe").status().unwrap().success());
	std::thread::spawn(|| {
		std::fs::write("pipe", b"<p>old\\xff</p>\\n").unwrap();
		std::thread::sleep(std::time::Duration::from_millis(300));
		std::fs::write("pipe", "<p>new</p>\\n").unwrap();
	});
	std::process::exit(if Doc::parse_file("pipe", strict()).is_err() { 0 } else { 1 });
}
''',"a read that fails and a file that is replaced before it is opened again","the result comes from a file other than the one that was opened, the failure is hidden")

bug('c12-document-exclusive','C12',[
('''				for child in childs {
					let child_node = child.borrow();
					match child_node.node_type {
''','''				for child in childs {
					let child_node = child.borrow_mut();
					match child_node.node_type {
''')],'''
fn main() {
	let d = Doc::parse("<html></html>", strict()).unwrap();
	let root = d.get_root_node();
	let root = root.borrow();
	let child = root.childs.as_ref().unwrap()[0].clone();
	let reader = child.borrow();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| root.is_document()));
	std::process::exit(if r.is_ok() { 0 } else { 1 });
}
''',"asking whether a tree is a document while a reader holds one of the root's children","a read-only query panics")

bug('c13-depth-limit','C13',[
('''		if node_type == Tag {
			self.chain_nodes.push(Rc::clone(&node));
''','''		// elements nested too deeply are flat
		if node_type == Tag && self.chain_nodes.len() <= 256 {
			self.chain_nodes.push(Rc::clone(&node));
''')],'''
fn main() {
	let t = format!("{}{}", "<i>".repeat(300), "</i>".repeat(300));
	let r = std::panic::catch_unwind(|| {
		let d = Doc::parse(&t, all()).unwrap();
		let mut n = 0;
		let mut cur = d.get_root_node();
		loop {
			let next = cur.borrow().childs.as_ref().and_then(|c| c.first().cloned());
			match next {
				Some(c) => cur = c,
				None => break,
			}
			n += 1;
		}
		n
	});
	std::process::exit(if r.ok() == Some(300) { 0 } else { 1 });
}
''',"elements nested more than 256 deep","deeper elements are siblings instead of children")

bug('c14-child-index','C14',[
('''				child.borrow_mut().index = childs.len();
				childs.push(child);
''','''				childs.push(Rc::clone(&child));
				let index = childs.iter().position(|item| Rc::ptr_eq(item, &child));
				child.borrow_mut().index = index.unwrap_or_default();
''')],'''
fn main() {
	let time = |n: usize| {
		let t = "<br>".repeat(n);
		let t0 = std::time::Instant::now();
		let _ = Doc::parse(&t, strict()).unwrap();
		t0.elapsed().as_secs_f64()
	};
	let _ = time(1000);
	let (a, b) = (time(10_000), time(80_000));
	// linear: about 8
	std::process::exit(if b / a < 24.0 { 0 } else { 1 });
}
''',"an element with very many children","the time to parse grows with the square of the input")

bug('c16-value-newline','C16',[
('''	fn set_tag_attr_value(&mut self, quote: Option<char>) {
		let value = self.clean_chars_to_vec();
''','''	fn set_tag_attr_value(&mut self, quote: Option<char>) {
		let mut value = self.clean_chars_to_vec();
		// no line break at the end of a value
		if quote.is_some() && value.len() > 1 && value.ends_with(&['\\n']) {
			value.pop();
		}
''')],'''
fn main() {
	let t = "<a b='c\\n'></a>";
	std::process::exit(if show(t, strict()) == format!("ok {t}") { 0 } else { 1 });
}
''',"a quoted attribute value that ends with a line break","rendering with default options does not give the input back")

bug('c16-value-limit','C16',[
('''	fn set_tag_attr_value(&mut self, quote: Option<char>) {
		let value = self.clean_chars_to_vec();
''','''	fn set_tag_attr_value(&mut self, quote: Option<char>) {
		let mut value = self.clean_chars_to_vec();
		value.truncate(4 * 1024);
''')],'''
fn main() {
	let t = format!("<a b='{}'></a>", "x".repeat(5000));
	std::process::exit(if show(&t, strict()) == format!("ok {t}") { 0 } else { 1 });
}
''',"an attribute value longer than 4096 characters (a data URL)","the end of the value is lost")

bug('c11-last-blank','C11',[
('''		let parent_node = self.clone_node_without_childs(reduce_code_at);
		let mut cur_childs: Vec<RefNode> = vec![];
		if let Some(childs) = &self.childs {
			for node in childs {
''','''		let parent_node = self.clone_node_without_childs(reduce_code_at);
		let mut cur_childs: Vec<RefNode> = vec![];
		if let Some(childs) = &self.childs {
			// blank text at the end belongs to the original's layout
			let total = childs.len();
			let is_blank = total > 2 && childs[total - 1].borrow().node_type == NodeType::SpacesBetweenTag;
			for node in &childs[..total - is_blank as usize] {
''')],'''
fn main() {
	let d = Doc::parse("<ul><li></li><li></li> </ul>", strict()).unwrap();
	let n = d.get_root_node().borrow().childs.as_ref().unwrap()[0].clone();
	let c = n.borrow().clone_node();
	let r = |n: &RefNode| n.borrow().build(&Default::default(), false).into_iter().collect::<String>();
	std::process::exit(if r(&n) == r(&c) { 0 } else { 1 });
}
''',"a copied element with at least three children that ends with whitespace","the copy lacks the last whitespace")

MEM='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
		PEAK.fetch_max(n, SeqCst);
		TOTAL.fetch_add(l.size(), SeqCst);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(l.size(), SeqCst);
		System.dealloc(p, l)
	}
}
#[global_allocator]
static A: Count = Count;
fn peak<T>(f: impl FnOnce() -> T) -> usize {
	let before = LIVE.load(SeqCst);
	PEAK.store(before, SeqCst);
	let v = f();
	let p = PEAK.load(SeqCst) - before;
	drop(v);
	p
}
'''
bug('c17-child-room','C17',[
('''				child.borrow_mut().index = 0;
				parent_node.childs = Some(vec![child]);
''','''				child.borrow_mut().index = 0;
				// the more was read so far, the more children are likely
				let mut childs = Vec::with_capacity(self.position / 2);
				childs.push(child);
				parent_node.childs = Some(childs);
''')],MEM+'''
fn main() {
	let t = "<b>x</b>".repeat(4000);
	let p = peak(|| Doc::parse(&t, strict()).is_ok());
	std::process::exit(if p < 3000 * t.len() { 0 } else { 1 });
}
''',"many elements in one document","every element reserves room for children according to how much was read before it, so memory grows with the square of the document")

bug('c17-read-pieces','C17',[
('''		for line in file.lines() {
''','''		// fetch the pieces first, so that the file is held open as briefly as possible
		let mut pieces: Vec<Vec<u8>> = Vec::new();
		let mut source = file;
		loop {
			let mut piece = vec![0; 8 * 1024];
			match std::io::Read::read(&mut source, &mut piece) {
				Ok(0) => break,
				Ok(n) => {
					piece.truncate(n);
					pieces.push(piece);
				}
				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
				Err(e) => return Err(e.into()),
			}
		}
		let file = std::io::Cursor::new(pieces.concat());
		for line in file.lines() {
''')],MEM+'''
use std::io::Write;
fn main() {
	std::process::Command::new("mkfifo").arg("f").status().unwrap();
	let h = std::thread::spawn(|| {
		let mut f = std::fs::OpenOptions::new().write(true).open("f").unwrap();
		for _ in 0..1500 {
			f.write_all(b"x").unwrap();
			f.flush().unwrap();
			std::thread::sleep(std::time::Duration::from_millis(2));
		}
	});
	let p = peak(|| Doc::parse_file("f", strict()).is_ok());
	h.join().unwrap();
	std::process::exit(if p < 1_000_000 { 0 } else { 1 });
}
''',"a file that is delivered in very small pieces","every read keeps its 8 KB buffer until the end, so memory grows with the number of reads")

bug('c17-comment-mark','C17',[
('''						if need_wrap {
							result.extend_from_slice(&['<', '!', '-', '-']);
						}
''','''						if need_wrap {
							// two comments in a row must not run into each other
							let before = result.iter().collect::<String>();
							if before.ends_with("<!-") {
								result.push(' ');
							}
							result.extend_from_slice(&['<', '!', '-', '-']);
						}
''')],MEM+'''
fn cost(n: usize) -> usize {
	let t = "<!-- x -->".repeat(n);
	let d = Doc::parse(&t, strict()).unwrap();
	let s = TOTAL.load(SeqCst);
	d.render(&Default::default());
	TOTAL.load(SeqCst) - s
}
fn main() {
	let (a, b) = (cost(200), cost(3200));
	println!("{a} {b}");
	std::process::exit(if b < 80 * a { 0 } else { 1 });
}
''',"a document with many comments","rendering copies everything rendered so far at every comment, so its cost grows with the square of the document")

bug('c18-nested-special','C18',[
('''			if self.in_special.is_none() {
''','''			if self.in_special.is_none() || SPECIAL_TAG_MAP.contains_key(&lc_tag_name) {
''')],'''
fn main() {
	let o = show("<svg><g><math></math></g><rect/></svg>", strict());
	std::process::exit(if o == "ok <svg><g><math></math></g><rect /></svg>" { 0 } else { println!("{o}"); 1 });
}
''',"a svg or math inside another svg or math, and a self closing tag after it","the end of the inner element ends the outer one too, what follows is refused")

bug('c18-space-across','C18',[
('''					// just keep one space
					let mut prev_is_space = false;
''','''					// just keep one space, also across the nodes
					let mut prev_is_space = result.last().map_or(false, |ch| ch.is_ascii_whitespace());
''')],'''
fn main() {
	let d = Doc::parse("<p>a <!--c--> b</p>", strict()).unwrap();
	let o = d.render(&RenderOptions { minify_spaces: true, remove_comment: true, ..Default::default() });
	let d = Doc::parse("<p> b</p>", strict()).unwrap();
	let t = d.render_text(&RenderOptions { minify_spaces: true, ..Default::default() });
	println!("{o:?} {t:?}");
	std::process::exit(if o == "<p>a  b</p>" && t == " b" { 0 } else { 1 });
}
''',"minify_spaces, and a text that begins with a space after one that ends with one, with only a removed comment between or when only the text is taken","a text is rendered differently depending on what was rendered before it")

bug('c18-xhtml','C18',[
('''			// set attribute value
			let attr = meta.set_attr_value(value, quote);
''','''			// xhtml documents may use self closing tags
			if !is_element && chars_to_string(&value).contains("XHTML") {
				self.parse_options.allow_self_closing = true;
			}
			// set attribute value
			let attr = meta.set_attr_value(value, quote);
''')],'''
fn main() {
	let d = "<!DOCTYPE html PUBLIC '-//W3C//DTD XHTML 1.0 Strict//EN'>";
	std::process::exit(if show("<p/>", strict()).starts_with("error") && show(&format!("{d}<p/>"), strict()).starts_with("error") { 0 } else { 1 });
}
''',"an XHTML doctype, and a self-closed html element after it","an option that was off is switched on by what was read before")

bug('c02-attr-memo','C02',[
('''	pub attrs: Vec<Attr>,
	pub lc_name_map: HashMap<String, usize>,
}
''','''	pub attrs: Vec<Attr>,
	pub lc_name_map: HashMap<String, usize>,
	built: RefCell<Option<(usize, bool, Vec<char>)>>,
}
'''),
('''	pub fn attrs_to_string(&self, remove_quote: bool) -> Vec<char> {
		self
			.attrs
			.iter()
			.flat_map(|attr| {
				let mut attr_content = attr.build(remove_quote);
				attr_content.splice(0..0, vec![WS_CHAR]);
				attr_content
			})
			.collect()
''','''	pub fn attrs_to_string(&self, remove_quote: bool) -> Vec<char> {
		if let Some((len, quote, built)) = &*self.built.borrow() {
			if *len == self.attrs.len() && *quote == remove_quote {
				return built.clone();
			}
		}
		let all: Vec<char> = self
			.attrs
			.iter()
			.flat_map(|attr| {
				let mut attr_content = attr.build(remove_quote);
				attr_content.splice(0..0, vec![WS_CHAR]);
				attr_content
			})
			.collect();
		if let Ok(mut built) = self.built.try_borrow_mut() { *built = Some((self.attrs.len(), remove_quote, all.clone())); }
		all
''')],'''
fn main() {
	let d = Doc::parse("<p id=a class='b'>x</p>", strict()).unwrap();
	let one = d.render(&Default::default());
	let p = d.get_element_by_id("a").unwrap();
	p.borrow().meta.as_ref().unwrap().borrow_mut().attrs[1].value = Some(AttrData { content: vec!['n', 'e', 'w'] });
	let two = d.render(&Default::default());
	println!("{one} {two}");
	std::process::exit(if two == "<p id=a class='new'>x</p>" { 0 } else { 1 });
}
''',"rendering an element, changing the value of one of its attributes, and rendering it again","the second rendering shows the old value: it depends on what was rendered before")

bug('c10-pre-parent','C10',[
('''		let mut result: Vec<char> = Vec::with_capacity(50);
		// inner_html''','''		// a node of a pre keeps its spaces
		let mut parent = self.parent.as_ref().and_then(|p| p.upgrade());
		while let Some(node) = parent {
			let node = node.borrow();
			if node.meta.as_ref().map_or(false, |m| is_equal_chars(&m.borrow().name, &PRE_TAG_NAME, &Some(NameCase::Lower))) {
				status.is_in_pre = true;
			}
			parent = node.parent.as_ref().and_then(|p| p.upgrade());
		}
		let mut result: Vec<char> = Vec::with_capacity(50);
		// inner_html''')],'''
fn main() {
	let d = Doc::parse("<pre><b id=a>x  y</b></pre>", strict()).unwrap();
	let node = d.get_element_by_id("a").unwrap();
	let o = RenderOptions { minify_spaces: true, ..Default::default() };
	let one: String = node.borrow().build(&o, false).iter().collect();
	drop(d);
	let two: String = node.borrow().build(&o, false).iter().collect();
	println!("{one:?} {two:?}");
	std::process::exit(if one == two { 0 } else { 1 });
}
''',"a node inside a pre that is rendered with minify_spaces before and after its document was dropped","the same node is rendered differently once its parents are gone")
