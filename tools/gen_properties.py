#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": observe or [], "hook_needed": None}})
PA = "src/parser.rs"
p("C01", "Concurrent threads never influence each other's results",
  "When several threads use the library at the same time, each on its own documents and files, every call (parsing text, parsing a file, rendering, text extraction, cloning, lookup) gives exactly what it gives when that thread's calls run alone in a fresh process: the same document, the same text, the same error, the same misuse panic. This holds for every interleaving, including the very first use of the library happening on several threads at once and another thread's call failing or panicking midway, and no interleaving deadlocks or stalls.",
  ["schedules", "fault_sequences"], "every interleaving of the instructions of 2-4 threads running arbitrary call sequences, including simultaneous first use",
  "All tests run one call at a time on one thread each; nothing controls or varies the interleaving, and the lazily built tables are initialised long before a race could matter.",
  [PA, "src/lib.rs"], [("no mutable global state; immutable tables behind once-initialisation", PA+": lazy_static DETECT_CHAR_MAP/VOID_ELEMENTS/SPECIAL_TAG_MAP/MUST_QUOTE_ATTR_CHARS"), ("all parser state lives in the per-call document", PA+": struct Doc")],
  [("lookup tables", "void elements, markup prefixes, svg/math names, built on first use", PA+" lazy_static block")], ["Doc::parse", "Doc::parse_file", "DocHolder::render", "Node::build", "Node::clone_node"])
p("C02", "A call's outcome depends on its arguments only, not on history or environment",
  "What parsing or rendering returns is determined by the input text, the options and the document it is applied to. It does not depend on what the process or the thread parsed, rendered, cloned or dropped before, on earlier calls that failed or panicked, on how many calls were made, nor on hash seeds, heap addresses, the contents of recycled memory or the clock.",
  ["histories", "fault_sequences"], "every history of earlier successful, failed and panicked calls on the same thread and process, and every hash seed, heap layout and clock value",
  "Tests check single calls from a fresh state with whatever hash seed the process got; none compares the same call across histories, seeds or heap layouts.",
  [PA], [("parser state is created afresh for each parse", PA+": Doc::new"), ("attributes render in list order, not map order", PA+": TagMeta::attrs_to_string"), ("render state is a local value", PA+": RenderStatus in Node::build")],
  [("attribute name map / id map", "hash maps whose iteration order is seed dependent", PA+": TagMeta.lc_name_map, Doc.id_tags")], ["Doc::parse", "DocHolder::render", "DocHolder::get_element_by_id"])
p("C03", "A file parses exactly like its text, however the OS delivers the bytes",
  "Parsing a readable UTF-8 file gives the same document or the same error as parsing in memory the file's text with every line (a missing final line end included) ended by a single newline, CRLF counting as one line end. This does not depend on how many bytes each read returns, where reads split characters or lines, how often calls are interrupted and retried, what size the metadata claims, how long the file or its lines are, or whether the path is relative or absolute.",
  ["fault_sequences", "inputs"], "every split of every UTF-8 file into read results, with interruptions at every call and any reported size",
  "The only file test parses one file and asserts that it is accepted; reads there always return full buffers and the resulting tree is never looked at.",
  [PA], [("buffered line reader feeding the character automaton", PA+": Doc::parse_file"), ("same automaton as in-memory parsing", PA+": Doc::next / Doc::eof")],
  [("text seen so far", "context used for error positions", PA+": Doc::parse_file content")], ["Doc::parse_file", "Doc::parse"])
p("C04", "I/O failure yields an error, never a panic or a partial document",
  "If resolving, opening or reading the file fails at any point, parsing the file returns an error that carries the operating system's error (a document's own earlier syntax error may be reported instead); it never panics and never returns a document made from part of the file. A file that can be opened and read completely is not refused because of a failure the task does not need: in particular an absolute path works whatever the state of the working directory.",
  ["fault_sequences"], "every failing call (working directory, path resolution, open, metadata, any read) with every errno at every point of the call sequence, plus missing, unreadable and non-regular paths",
  "Tests never make a system call fail; the failure branches of file parsing are not executed at all.",
  [PA, "src/types.rs"], [("errors propagated as boxed errors", PA+": Doc::parse_file '?'"), ("document only built after end of input", PA+": Doc::parse_file -> eof -> into_root")],
  [], ["Doc::parse_file result"])
p("C05", "No stored bytes, however damaged, can crash parsing or rendering",
  "For every byte sequence that a damaged file or text can hold (cut anywhere, bits flipped, blocks zeroed, lost, duplicated or stale) and every combination of parse options, parsing returns a document or an error without panicking, overflowing or looping. Every returned document can then be rendered under every combination of applicable render options, have the text of its elements extracted, be cloned, inspected, formatted for debugging and dropped without a panic, and bytes that are not UTF-8 are reported as an error instead of being altered or dropped.",
  ["fault_sequences", "crash_points", "inputs"], "every sequence of storage faults applied to any document, every parse option set, every later read operation",
  "Tests use a few dozen hand-written snippets; they cover neither cuts at every offset nor damaged bytes, and most render calls use default options.",
  [PA, "src/error.rs", "src/position.rs"], [("character automaton returns Err on syntax it rejects", PA+": parse_* handlers, Doc::eof"), ("invariants asserted by expect() hold for every returned tree", PA+": Node::build_node")],
  [("open element chain", "stack of open elements with the root at the bottom", PA+": Doc.chain_nodes")], ["Doc::parse", "Doc::parse_file", "Node::build", "Node::clone_node", "Node::is_document"])
p("C06", "An input cut short keeps everything before the cut",
  "When the input ends early at any character and a document is still returned, it agrees with the document for any longer input on everything completed before the cut: the same nodes in the same order with the same type, content, attributes and offsets; only the elements and the text still open at the cut may differ, and they hold a prefix of what they hold in the longer document, with nothing of the input before the cut missing. With automatic closing on, a cut of an accepted input in running text, in a start tag (after its first letter), or right after a complete tag or comment is itself accepted. With automatic closing off, a cut that leaves an element open is refused with an unclosed-tag error and every other cut gives the same outcome as with it on.",
  ["crash_points", "inputs"], "every cut position of every input under every option set",
  "Tests look at six truncated snippets and check only acceptance or one rendering.",
  [PA], [("streaming automaton without lookahead", PA+": Doc::next"), ("end-of-input repair only touches open elements", PA+": Doc::eof / fix_unclosed_tag"), ("whitespace reclassification limited to the text just before a tag", PA+": set_text_spaces_between")],
  [("pending whitespace text", "text node that may be reclassified when the next tag starts", PA+": Doc.check_textnode")], ["Doc::parse on every prefix"])
p("C07", "A syntax error depends only on the text up to it and points at it truly",
  "When parsing fails before the end of the input, the identical error (kind, message, line, column, index) is reported for every input that shares the text up to the failing character, whatever follows, and whether the text comes from memory or from a file. The reported index lies within the text consumed so far, and the reported line and column are those of the character at that index (lines end at LF, CR or CRLF).",
  ["crash_points", "inputs", "fault_sequences"], "every failing input, every continuation of its failing prefix, every way of delivering it",
  "Tests only assert that a handful of inputs are rejected; no test looks at an error's kind or position, or compares file and memory.",
  [PA, "src/position.rs", "src/error.rs"], [("position counter advanced once per character", PA+": Doc::next"), ("region computed from the text seen so far", "src/position.rs: CodeRegion::from_context_index"), ("file parsing keeps the text for diagnostics", PA+": Doc::parse_file content")],
  [], ["Display of the returned error"])
p("C08", "Every outcome releases all memory and descriptors and never touches the file",
  "After parsing from a file or from memory has succeeded, failed, or been hit by an I/O fault at any point, and after the caller has dropped its handles in any order, no file descriptor and none of the memory that the document or the attempt needed stays held (lookup tables built once on first use aside), and repeating the same work any number of times does not make either grow. The input file is opened for reading only; no file is created, written, renamed or removed, and no file's times, owner or permissions are changed.",
  ["fault_sequences", "histories"], "every fault position in every file parse, every error position in every text parse, every order of dropping handles, repeated without limit",
  "Tests neither count descriptors nor heap bytes, and never exercise failure paths of file parsing.",
  [PA], [("upward links are weak", PA+": Node.parent/root/document/prev as Weak"), ("file owned by the reader and closed on every exit", PA+": Doc::parse_file")],
  [("node ownership", "parents own children and end tags; everything upward is weak", PA+": struct Node")], ["process descriptor table", "heap balance"])
p("C09", "A file replaced while it is parsed yields one whole version, never a mix",
  "If the file is atomically replaced, removed, re-linked, or the working directory changes while a file is being parsed, the result is the document or the error of one complete version that the path denoted at some moment during the call, or an I/O error explained by the path being absent or unreadable at some moment during it. It is never a mixture of versions, and changes made after the file has been opened never affect the result.",
  ["schedules", "fault_sequences"], "every placement of replace, unlink, symlink retarget, directory rename and chdir between any two system calls of a file parse",
  "Tests parse a file nobody changes; no test can place a rename between two system calls.",
  [PA], [("file opened exactly once and read through that one handle", PA+": Doc::parse_file File::open")],
  [], ["Doc::parse_file result against the version history of the path"])
p("C10", "Node handles outlive their document and drop order never matters",
  "A node obtained from a document stays fully usable with the same subtree, content, attributes and rendering after the document and any other handles have been dropped, in any order. Dropping a handle never changes what another handle shows: a link to the parent, the root or the document resolves to the true target for as long as somebody keeps that target alive, reports absence afterwards, and the document itself stays reachable from its root exactly while somebody holds it.",
  ["histories", "schedules"], "every interleaving of acquiring, sharing, using and dropping document and node handles by several holders",
  "One test keeps one clone while its document is alive; none drops the document first or permutes drop orders.",
  [PA], [("shared ownership downwards, weak upwards", PA+": struct Node, RefNode"), ("document back link set when parsing completes", PA+": Doc::into_root")],
  [("holder set", "strong handles kept by callers", PA+": DocHolder.doc")], ["Node fields", "Weak::upgrade", "Node::build"])
p("C11", "A clone is a faithful deep copy and never shares edits with its original",
  "Cloning a node (also one that was edited, assembled from other trees, or is itself a clone) yields a detached tree equal to the original subtree at that moment: same types, content, attributes, end tags, child order and indexes, parent and previous-sibling links inside the copy, and offsets counted from the start of the cloned node. Afterwards no sequence of edits to the original, to the clone or to any other clone is visible in any of the others.",
  ["histories"], "every interleaving of clone and edit operations by several clients over any set of related trees",
  "One test clones one three-child element and edits two fields once.",
  [PA], [("recursive copy of content, meta, end tag and children into new cells", PA+": Node::clone_node_with / clone_node_without_childs")],
  [], ["Node::clone_node", "impl Clone for Node", "Node fields"])
p("C12", "Reading never alters a document and needs only shared access to what it reads",
  "Rendering, text extraction, cloning, id lookup, identity tests and document inspection leave every node and the document unchanged. They succeed with the same result in every interleaving among several holders, while any shared borrows of the document's nodes are outstanding and while nodes outside the subtree being read are exclusively borrowed; a read that panics because of a documented misuse, or because the caller exclusively holds a node it needs, leaves the document intact and fully usable.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of read operations and outstanding borrows among several holders, including reads aborted by a panic at any node",
  "Tests call one read at a time with no other borrow outstanding, and never reuse a document after a panic.",
  [PA], [("reads take shared borrows only, scoped to the visited subtree", PA+": Node::build_tree, clone_node_with, is_document"), ("lookup clones the handle", PA+": get_element")],
  [], ["Node::build", "Node::clone_node", "DocHolder::render/render_text/get_element_by_id", "Node::is_document"])
p("C13", "Every returned document is a consistent tree with a truthful id index",
  "In every returned document, whatever the input, the options and the point where the input was cut, each node's recorded index is its position among its parent's children, its parent and root links lead to its actual parent and root, every end tag belongs to exactly the element it closes and every element that is neither void nor self-closed has one, and offsets follow document order within the input: texts, comments and CDATA sections span exactly the source they stand for, elements begin where their start tag does, and text is marked as white space only if it is nothing else. Void, self-closed and raw-text elements (script, style, title, textarea) have no child nodes, and looking up an id finds an element of that same tree carrying that id exactly when one exists, the last such element in the input if there are several.",
  ["crash_points", "inputs", "fault_sequences"], "every cut and every storage fault applied to every input, under every option set",
  "Tests check index and parent links for a handful of nodes of well-formed snippets; nothing inspects trees produced by the repair paths.",
  [PA], [("single insertion routine sets index, parent and root", PA+": Doc::add_new_node"), ("repair of unescaped '<' inserts a text node", PA+": Doc::fix_unescaped_lt"), ("id index filled when an attribute value completes", PA+": Doc::set_tag_attr_value")],
  [("id index", "id value to element", PA+": Doc.id_tags")], ["Node fields", "DocHolder::get_element_by_id"])
p("C14", "File parsing always makes bounded progress",
  "The number of read attempts a file parse makes is at most the number of bytes delivered plus the number of interrupted attempts plus a small constant, a reported end of file or hard failure is not polled again and again, and the work done is at most proportional to the input length. So under any sequence of interruptions and one-byte reads the call finishes, with the right result, as soon as the faults stop.",
  ["fault_sequences"], "every interruption storm, short-read sequence, stall pattern and file length",
  "Tests never see an interrupted or short read, so a retry loop that spins or gives up is invisible to them.",
  [PA], [("reads go through a buffered reader that retries interruptions", PA+": Doc::parse_file BufReader"), ("one automaton step per character", PA+": Doc::next")],
  [], ["count of system calls and instrumented steps per call"])
p("C15", "Repairing a torn document converges in one step",
  "When a cut or damaged text is accepted with the repair options on (automatic closing, stray end tags dropped, stray '<' escaped), rendering the result gives a text that the parser accepts with all repair options off and otherwise equal default options, and that renders back to exactly itself. So a repaired document that was saved can always be reloaded strictly, and repairing it again changes nothing: with the repair options on, the reload gives the same document as without.",
  ["crash_points", "fault_sequences"], "every cut and damage of every input accepted under the repair options",
  "Five repaired snippets are rendered in tests; none is parsed again.",
  [PA], [("end tags supplied for open elements at end of input", PA+": Doc::fix_unclosed_tag"), ("stray end tags ignored", PA+": parse_tagend"), ("stray '<' becomes &lt;", PA+": Doc::fix_unescaped_lt")],
  [], ["DocHolder::render then Doc::parse"])
p("C16", "Nothing of the input is lost or invented in the returned document",
  "Read from left to right, every character of an accepted input, however it was cut, damaged or delivered, is found in the returned document in the same place and order: in a text, comment, CDATA section, raw-text content, tag name, end tag, attribute name or attribute value (with its quote), or it is the syntax around these (angle brackets, markers, equals signs, slashes and white space inside tags). The document holds nothing else, except what the repair options that are switched on supply: a missing end tag (only at the end of input, and marked as repaired), &lt; for a stray '<', and stray end tags left out.",
  ["crash_points", "fault_sequences", "inputs"], "every accepted cut, damage and delivery of every input, under every option set",
  "Tests compare renderings of about twenty snippets; a character dropped or moved at a cut, at a buffer boundary or on a repair path is not looked for.",
  [PA], [("every handler moves the characters it collected into exactly one node", PA+": clean_chars_to_vec, set_tag_attr_key, set_tag_attr_value, parse_text, parse_content_tag, parse_comment_or_cdata"), ("repair at end of input", PA+": Doc::eof, finish_cut_off_tag, fix_unclosed_tag")],
  [("collected characters", "characters not yet assigned to a node", PA+": Doc.prev_chars")], ["Node fields", "TagMeta.attrs"])
p("C17", "Memory, and the cost of reading a document, stay proportional to its size",
  "The heap memory held at any moment while text or a file is parsed, and while the document is rendered, its text extracted, or it is cloned, inspected or dropped, is at most proportional to the length of the input, whatever its shape, nesting and options: ten times more input never needs a hundred times the memory. It does not grow with the number of reads, with how small the pieces are in which the file is delivered, or with how often reads are interrupted. The work done by rendering, text extraction, cloning, id lookup and dropping is likewise at most proportional to the size of the document.",
  ["fault_sequences", "inputs"], "every input shape and size, every delivery of it, every option set and every reading operation",
  "Tests use snippets of a few dozen characters read at once; neither memory nor work is measured.",
  [PA], [("buffers grow with what they hold", PA+": Doc::parse_file content, clean_chars_to_vec"), ("rendering appends to one buffer", PA+": Node::build_tree, build_node"), ("cloning visits each node once", PA+": Node::clone_node")],
  [], ["peak of the counting allocator during a call", "instrumented work of a call"])
p("C18", "What follows complete content is read as if it stood alone",
  "When a text that is accepted without repair is followed by further text (and no running text meets running text at the seam), the document of the whole consists of exactly the first text's nodes followed by exactly the nodes the second text gives alone, with offsets and child indexes moved on, and the id index of both (the later element wins); if the second text alone fails, the whole fails with the same kind of error at the moved position. The same holds for accepted content put inside an element at any depth; inside svg, math and pre, which change how their content is read or rendered, each part is read and rendered as it is there alone. Rendering the whole gives the renderings of the parts one after the other, under every render option, and an element is rendered as its start tag, its content node by node (which keeps its white space only inside a pre) and its end tag. So nothing that was read or rendered before and is complete (svg or math, raw text, pre, comments, doctype, attributes, options' effects) influences what comes later, and the repair options change nothing about text that needs no repair. A file to which somebody appends while it is parsed gives the result of what it held at some moment during the call, never a text it never held.",
  ["histories", "fault_sequences", "schedules"], "every sequence of accepted parts, every option set, every placement of appends between the system calls of a file parse",
  "Tests parse isolated snippets; what a parser state left over from one element does to later ones, and a file that grows while it is read, never occur.",
  [PA], [("state of the automaton is reset when an element ends", PA+": parse_tagend, parse_content_tag, parse_comment_or_cdata, Doc::set_code_in"), ("render status is restored after an element", PA+": Node::build_tree, build_node"), ("the end of the file is final", PA+": Doc::parse_file")],
  [("automaton state", "code_in, in_special, detect, mark_char, check_textnode, repeat_whitespace, chain_nodes", PA+": struct Doc")], ["Node fields", "DocHolder::render", "Doc::parse_file"])
# pure functions of their input: listed, not claimed
def n(id, title, statement, text, why, where):
    p(id, title, statement, ["inputs"], text, why, [PA] if where is None else where, [("pure function of its arguments", (where or [PA])[0])])
n("N01", "Well-formed documents render back to the same text",
  "Parsing a well-formed document and rendering it with default options reproduces it up to whitespace inside tags and markers.",
  "every well-formed document", "Tests sample about twenty documents.", None)
n("N02", "Attributes are read with exact names, values, quotes and order",
  "Every attribute of a tag is recorded once, in source order, with its exact name, value and quote character.",
  "every start tag", "One test checks ten attributes.", None)
n("N03", "Each render option changes exactly what it names",
  "Minifying, lowercasing, quote removal, comment removal and void closing each change only what they name and keep the document's meaning.",
  "every document and option set", "A handful of option sets on short snippets.", None)
n("N04", "Entity decoding and encoding preserve text meaning",
  "Decoding replaces exactly the valid character references, and encoding then decoding gives the text back.",
  "every text node", "Six snippets.", None)
n("N05", "Parse options accept and reject exactly what they document",
  "Case sensitivity, self-closing, leading equals sign and the strictness defaults accept and reject exactly the documented syntax.",
  "every input and option set", "About thirty snippets.", None)
n("N06", "Document classification is exact",
  "A tree is reported as a document exactly when it has a top-level html element, and as well-formed exactly when nothing else but comments, doctype and whitespace is beside it.",
  "every tree", "Three snippets.", None)
n("N07", "Character and insertion rules are exact",
  "The helpers that classify attribute characters and allowed insertions agree with the HTML specification.",
  "every character, tag name and node type", "No test calls them.", ["src/util.rs", PA])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False)+"\n" for x in P))
