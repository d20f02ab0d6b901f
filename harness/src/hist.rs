//! Histories of calls: building attributes and nodes (C27), several documents (C28), lifetimes (C29), and sources put
//! together (C30).
//! A call is name,a,b,cp.cp in a case line, with the same meaning as in HtmlBuild, HtmlWorld and HtmlLife.
use crate::edit::{self, Op};
use crate::gen::{self, Gen, Profile};
use crate::json::J;
use crate::observe::*;
use crate::rng::Rng;
use rphtml::parser::{DocHolder, Node, NodeType, RefNode, TagMeta};
use std::cell::RefCell;
use std::rc::{Rc, Weak};

#[derive(Clone, Debug)]
pub struct Call {
	pub op: String,
	pub a: usize,
	pub b: usize,
	pub text: Vec<char>,
}

fn call(op: &str, a: usize, b: usize, text: &str) -> Call {
	Call {
		op: op.into(),
		a,
		b,
		text: text.chars().collect(),
	}
}

/// small numbers as characters
fn nums(ns: &[usize]) -> String {
	ns.iter().map(|n| char::from_u32(*n as u32).unwrap()).collect()
}

pub fn line(calls: &[Call]) -> String {
	let mut s = String::new();
	for c in calls {
		let text: Vec<String> = c.text.iter().map(|c| (*c as u32).to_string()).collect();
		s += &format!("{},{},{},{};", c.op, c.a, c.b, text.join("."));
	}
	s
}

pub fn read(s: &str) -> Vec<Call> {
	s.split(';')
		.filter(|s| !s.is_empty())
		.map(|s| {
			let p: Vec<&str> = s.split(',').collect();
			Call {
				op: p[0].into(),
				a: p[1].parse().expect("number"),
				b: p[2].parse().expect("number"),
				text: p[3]
					.split('.')
					.filter(|x| !x.is_empty())
					.map(|x| char::from_u32(x.parse().expect("code point")).expect("char"))
					.collect(),
			}
		})
		.collect()
}

fn calls_json(j: &mut J, calls: &[Call]) {
	j.arr();
	for c in calls {
		j.obj();
		j.key("op").word(&c.op);
		j.key("a").num(c.a as i64);
		j.key("b").num(c.b as i64);
		j.key("text").chars(&c.text);
		j.end_obj();
	}
	j.end_arr();
}

// ---------------------------------------------------------------- random histories
pub fn random(prop: &str, r: &mut Rng) -> Vec<Call> {
	match prop {
		"C27" => random_build(r),
		"C28" => random_world(r),
		"C30" => random_cat(r),
		_ => random_life(r),
	}
}

const KEYS: [&str; 16] = [
	"k",
	"id",
	"ID",
	"Id",
	"iD",
	"",
	"i",
	"idx",
	"d",
	"class",
	"data-id",
	"\u{131}d",
	"id ",
	" id",
	"i\u{301}d",
	"\u{130}d",
];
const PIECES: [&str; 24] = [
	"v",
	"a",
	"b c",
	" ",
	"\"",
	"'",
	"<",
	">",
	"=",
	"`",
	"/",
	"&",
	"\t",
	"\n",
	"\u{b}",
	"\u{c}",
	"\r",
	"\u{a0}",
	"\u{e9}",
	"\u{3000}",
	"\u{0}",
	"vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv",
	"\u{2028}",
	"\u{85}",
];

fn random_build(r: &mut Rng) -> Vec<Call> {
	let mut out = vec![];
	let text = |r: &mut Rng| -> String {
		let n = [0, 1, 1, 2, 3, 12][r.below(6)];
		(0..n).map(|_| r.pick(&PIECES)).collect()
	};
	let quote = |r: &mut Rng| [0usize, 34, 39, 34][r.below(4)];
	for _ in 0..(2 + r.below(12)) {
		let q = quote(r);
		let t = text(r);
		match r.below(13) {
			0 | 1 => out.push(call("addKey", 0, 0, "")),
			2 | 3 => out.push(call("addVal", q, 0, "")),
			4 | 5 | 6 => out.push(call("setKey", 0, 0, r.pick(&KEYS))),
			7 | 8 | 9 => out.push(call("setVal", q, 0, &t)),
			10 => {
				let p = [0, 1, 2, 70000][r.below(4)];
				out.push(call("text", p, 0, &t));
			}
			11 => out.push(call(
				"name",
				0,
				0,
				["a", "PRE", "br", "\u{e9}", "Title", ""][r.below(6)],
			)),
			_ => out.push(call(["void", "self"][r.below(2)], 0, 0, "")),
		}
	}
	out
}

const EDITS: [&str; 17] = [
	"poke",
	"content",
	"append",
	"rename",
	"attr",
	"delattr",
	"endtag",
	"noend",
	"selfclose",
	"void",
	"type",
	"remove",
	"insText",
	"insSpaces",
	"insComment",
	"insCData",
	"insTag",
];

fn random_world(r: &mut Rng) -> Vec<Call> {
	let mut out: Vec<Call> = vec![];
	let mut srcs: Vec<String> = vec![];
	let total = 3 + r.below(12);
	while out.len() < total {
		let a = 1 + r.below(3);
		match if out.is_empty() { 0 } else { r.below(14) } {
			0 | 1 | 2 => {
				// sometimes the same text again, with these or other options
				let src = if !srcs.is_empty() && r.pct(35) {
					srcs[r.below(srcs.len())].clone()
				} else {
					let p = Profile::of(["C28", "C15", "C21", "C19", "C10"][r.below(5)]);
					let mut s = Gen::new(r, p).source();
					if s.chars().count() > 120 {
						s = s.chars().take(120).collect();
					}
					if r.pct(3) {
						// one long piece: what is kept of it when the parse fails in it, or after it?
						let piece = r.pick(&["x", " ", "<b>", " k=v", "-", "&lt;", "</z>", "<i></i>", "]", "\n"]);
						let many = piece.repeat([40, 130, 260, 520][r.below(4)] / piece.len());
						let at = r.below(s.chars().count() + 1);
						s = s
							.chars()
							.take(at)
							.chain(many.chars())
							.chain(s.chars().skip(at))
							.collect();
					}
					s
				};
				let o = gen::options("C28", r);
				srcs.push(src.clone());
				out.push(call("parse", a, o.bits() as usize, &src));
			}
			3 | 4 | 5 | 6 => {
				let n = if r.pct(60) { 1 } else { 1 + r.below(6) };
				let ro = if r.pct(30) { 0 } else { r.below(256) };
				let k = [0, 0, 1, 2][r.below(4)];
				out.push(call("render", a, 0, &nums(&[n, ro, k])));
			}
			7 => out.push(call("find", a, 0, r.pick(&["x", "y", "", "X", "id"]))),
			8 => out.push(call("isdoc", a, 1 + r.below(2), "")),
			9 => out.push(call("clone", a, 1 + r.below(4), &nums(&[1 + r.below(3)]))),
			12 => out.push(call(
				"graft",
				a,
				100 * (1 + r.below(4)) + r.below(2),
				&nums(&[1 + r.below(3), 2 + r.below(4)]),
			)),
			10 | 13 => {
				let op = r.pick(&EDITS);
				let t = match op {
					"rename" | "insTag" => r.pick(&["pre", "a", "BR", "Title", "html"]),
					"insSpaces" => " ",
					_ => r.pick(&["z", "  a  b ", "", "&lt;", "<", "x"]),
				};
				out.push(call(op, a, 100 * (1 + r.below(5)) + r.below(2), t));
			}
			_ => out.push(call("drop", a, 0, "")),
		}
	}
	out
}

fn random_life(r: &mut Rng) -> Vec<Call> {
	let mut src;
	let mut o;
	loop {
		src = Gen::new(r, Profile::of("C21")).source();
		o = gen::options("C28", r);
		if src.chars().count() < 150 && parse(&src, o).doc().is_some() {
			break;
		}
	}
	let mut out = vec![call("parse", 0, o.bits() as usize, &src)];
	for _ in 0..(2 + r.below(10)) {
		let n = 1 + r.below(8);
		out.push(match r.below(10) {
			0 | 1 | 2 => call("hold", n, 0, ""),
			3 => call("find", 0, 0, r.pick(&["x", "y", "z"])),
			4 | 5 => call("release", n, 0, ""),
			6 => call("cut", n, 0, ""),
			7 => call("drop", 0, 0, ""),
			8 => call("clone", n, 0, ""),
			_ => call("unclone", 0, 0, ""),
		});
	}
	out
}

fn random_cat(r: &mut Rng) -> Vec<Call> {
	let bits = r.below(64) & !8 | if r.pct(50) { 4 | 16 | 32 } else { 0 };
	let o = Opt::from_bits(bits as u32);
	let props = [
		"C02", "C03", "C06", "C07", "C08", "C09", "C11", "C12", "C14", "C15", "C17", "C19", "C24", "C26",
	];
	let mut one = |long: bool| {
		let mut s = String::new();
		for _ in 0..4 {
			let mut p = Profile::of(props[r.below(props.len())]);
			p.missing = if r.pct(20) { 10 } else { 0 };
			p.truncate = 2;
			p.mutate = 6;
			p.soup = 6;
			s = Gen::new(r, p).source();
			if s.chars().count() > 150 {
				s = s.chars().take(150).collect();
			}
			if r.pct(15) || parse(&s, o).doc().is_some() {
				break;
			}
		}
		if long {
			// much before the boundary, much after it
			let piece = r.pick(&["x", " ", "<br>", "<b k=v>t</b>", "\n", "&lt;", "<!---->"]);
			let many = piece.repeat([40, 130, 260, 520][r.below(4)] / piece.len());
			s = if r.pct(50) { many + &s } else { s + &many };
		}
		s
	};
	let a = one(false);
	let b = one(false);
	let long = one(true);
	match r.below(40) {
		0 => vec![call("cat", bits, 0, &a), call("with", 0, 0, &long)],
		1 => vec![call("cat", bits, 0, &long), call("with", 0, 0, &b)],
		_ => vec![call("cat", bits, 0, &a), call("with", 0, 0, &b)],
	}
}

// ---------------------------------------------------------------- C30
fn result_json(j: &mut J, src: &str, o: Opt) {
	let p = parse(src, o);
	j.obj();
	j.key("res").word(p.word());
	j.key("err");
	err_json(j, &p.err());
	j.key("nodes");
	match p.doc() {
		Some(d) => nodes_json(j, &d.get_root_node()),
		None => {
			j.arr().end_arr();
		}
	}
	// as it is, and with all options but minify_spaces and decode_entity
	for (key, ro) in [("plain", RO(0)), ("more", RO(190))] {
		j.key(key).opt_chars(&p.doc().and_then(|d| render(d, ro, Inner::None)));
	}
	j.end_obj();
}

/// two sources, the one after the other, and the second as the content of an element
pub fn run_cat(j: &mut J, calls: &[Call]) {
	let o = Opt::from_bits(calls[0].a as u32 & !8);
	let a: String = calls[0].text.iter().collect();
	let b: String = calls[1].text.iter().collect();
	j.key("o");
	o.json(j);
	j.key("x").text(&a);
	j.key("y").text(&b);
	for (key, src) in [
		("a", a.clone()),
		("b", b.clone()),
		("ab", format!("{}{}", a, b)),
		("w", format!("<q>{}</q>", b)),
	] {
		j.key(key);
		result_json(j, &src, o);
	}
}

// ---------------------------------------------------------------- C27
fn attr_json(j: &mut J, a: &rphtml::parser::Attr) {
	j.obj();
	j.key("k").opt_chars(&a.key.as_ref().map(|k| k.content.clone()));
	j.key("v").opt_chars(&a.value.as_ref().map(|k| k.content.clone()));
	j.key("q").opt_num(a.quote.map(|q| q as i64));
	j.key("nq").boolean(a.need_quote);
	j.end_obj();
}

pub fn run_build(j: &mut J, calls: &[Call]) {
	let mut meta = TagMeta::default();
	let mut kids: Vec<Node> = vec![];
	let mut panic = false;
	let mut ret: Vec<bool> = vec![];
	j.key("ops");
	calls_json(j, calls);
	for c in calls {
		let q = char::from_u32(c.a as u32).filter(|_| c.a != 0);
		let need = c.op == "setKey" || c.op == "setVal";
		if need && meta.attrs.is_empty() {
			continue;
		}
		let done = guard(|| match c.op.as_str() {
			"addKey" => meta.add_attr_key(),
			"addVal" => meta.add_attr_value(q),
			"setKey" => meta.set_attr_key(c.text.clone()),
			"setVal" => {
				// the answer is the attribute
				let a = meta.set_attr_value(c.text.clone(), q);
				let same = a.value.as_ref().map(|v| v.content == c.text).unwrap_or(false) && a.quote == q;
				ret.push(same);
			}
			"text" => kids.push(Node::create_text_node(
				c.text.clone(),
				if c.a == 0 { None } else { Some(c.a - 1) },
			)),
			"name" => meta.name = c.text.clone(),
			"void" => meta.is_void = !meta.is_void,
			"self" => meta.self_closed = !meta.self_closed,
			other => unreachable!("{}", other),
		});
		panic |= done.is_none();
	}
	j.key("ret").boolean(ret.iter().all(|x| *x));
	j.key("attrs").arr();
	for a in &meta.attrs {
		j.obj();
		j.key("a");
		attr_json(j, a);
		j.key("full").opt_chars(&guard(|| a.build(false)));
		j.key("bare").opt_chars(&guard(|| a.build(true)));
		let id = guard(|| a.check_if_id());
		panic |= id.is_none();
		j.key("id").opt_chars(&id.flatten().map(|s| s.chars().collect()));
		j.end_obj();
	}
	j.end_arr();
	j.key("full").opt_chars(&guard(|| meta.attrs_to_string(false)));
	j.key("bare").opt_chars(&guard(|| meta.attrs_to_string(true)));
	// the element
	let end = !(meta.is_void || meta.self_closed);
	let name = meta.name.clone();
	let mut node = Node::new(NodeType::Tag, 0);
	node.meta = Some(RefCell::new(meta));
	let node: RefNode = Rc::new(RefCell::new(node));
	if end {
		let mut et = Node::new(NodeType::TagEnd, 0);
		et.content = Some(name);
		et.parent = Some(Rc::downgrade(&node));
		node.borrow_mut().end_tag = Some(Rc::new(RefCell::new(et)));
	}
	if !kids.is_empty() {
		let list: Vec<RefNode> = kids
			.into_iter()
			.enumerate()
			.map(|(i, mut k)| {
				k.index = i;
				k.parent = Some(Rc::downgrade(&node));
				Rc::new(RefCell::new(k))
			})
			.collect();
		node.borrow_mut().childs = Some(list);
	}
	j.key("nodes");
	nodes_json(j, &node);
	j.key("rd").arr();
	for ro in [0u32, 8, 1, 32 | 2, 255 - 64] {
		j.obj();
		j.key("ro");
		RO(ro).json(j);
		j.key("out").opt_chars(&build(&node, RO(ro), Inner::None));
		j.end_obj();
	}
	j.end_arr();
	j.key("panic").boolean(panic);
}

// ---------------------------------------------------------------- C28
struct Slot {
	holder: Option<DocHolder>,
	root: RefNode,
}

fn answer(
	j: &mut J,
	res: &str,
	err: &Option<ErrObs>,
	out: &Option<Vec<char>>,
	num: i64,
	flags: Option<(bool, bool)>,
	ents: &[(Vec<char>, Option<char>)],
) {
	j.obj();
	j.key("res").word(res);
	j.key("err");
	err_json(j, err);
	j.key("out").opt_chars(out);
	j.key("num").num(num);
	j.key("flags").arr();
	if let Some((a, b)) = flags {
		j.boolean(a).boolean(b);
	}
	j.end_arr();
	j.key("ents").arr();
	for (n, v) in ents {
		j.obj();
		j.key("n").chars(n);
		j.key("r").opt_num(v.map(|c| c as i64));
		j.end_obj();
	}
	j.end_arr();
	j.end_obj();
}

fn world(calls: &[Call]) -> String {
	let mut j = J::new();
	j.obj();
	let mut slots: Vec<Option<Slot>> = vec![None, None, None, None];
	j.key("ans").arr();
	for c in calls {
		let nothing = |j: &mut J, res: &str| answer(j, res, &None, &None, 0, None, &[]);
		if c.op == "parse" {
			let p = parse(&c.text.iter().collect::<String>(), Opt::from_bits(c.b as u32));
			let (word, err) = (p.word(), p.err());
			let out = p.doc().and_then(|d| render(d, RO(0), Inner::None));
			answer(&mut j, word, &err, &out, 0, None, &[]);
			slots[c.a] = match p {
				Parsed::Ok(d) => Some(Slot {
					root: d.get_root_node(),
					holder: Some(d),
				}),
				_ => None,
			};
			continue;
		}
		let slot = match &slots[c.a] {
			None => {
				nothing(&mut j, "none");
				continue;
			}
			Some(s) => s,
		};
		match c.op.as_str() {
			"drop" => {
				nothing(&mut j, "ok");
				slots[c.a] = None;
			}
			"render" => {
				let (n, ro) = (c.text[0] as usize, RO(c.text[1] as u32));
				let inner = [Inner::None, Inner::Html, Inner::Text][c.text[2] as usize];
				let flat = flatten(&slot.root);
				if n > flat.len() {
					nothing(&mut j, "none");
					continue;
				}
				let out = match (&slot.holder, n) {
					(Some(d), 1) => render(d, ro, inner),
					_ => build(&flat[n - 1].0, ro, inner),
				};
				let ents = if ro.0 & 64 > 0 {
					entities(&all_texts(&slot.root))
				} else {
					vec![]
				};
				answer(
					&mut j,
					if out.is_some() { "ok" } else { "panic" },
					&None,
					&out,
					0,
					None,
					&ents,
				);
			}
			"find" => {
				let id: String = c.text.iter().collect();
				let hit = match &slot.holder {
					None => Some(None),
					Some(d) => guard(|| d.get_element_by_id(&id)),
				};
				let flat = flatten(&slot.root);
				match hit {
					None => nothing(&mut j, "panic"),
					Some(h) => {
						let num = h.map_or(0, |x| {
							flat
								.iter()
								.position(|(y, _)| Rc::ptr_eq(&x, y))
								.map_or(-1, |i| i as i64 + 1)
						});
						answer(&mut j, "ok", &None, &None, num, None, &[]);
					}
				}
			}
			"isdoc" => {
				let flat = flatten(&slot.root);
				if c.b < 1 || c.b > flat.len() {
					nothing(&mut j, "none");
					continue;
				}
				let f = guard(|| flat[c.b - 1].0.borrow().is_document());
				answer(
					&mut j,
					if f.is_some() { "ok" } else { "panic" },
					&None,
					&None,
					0,
					f,
					&[],
				);
			}
			"clone" => {
				let flat = flatten(&slot.root);
				if c.b < 1 || c.b > flat.len() {
					nothing(&mut j, "none");
					continue;
				}
				match guard(|| flat[c.b - 1].0.borrow().clone_node()) {
					None => nothing(&mut j, "panic"),
					Some(root) => {
						nothing(&mut j, "ok");
						drop(flat);
						slots[c.text[0] as usize] = Some(Slot { root, holder: None });
					}
				}
			}
			"graft" => {
				let from = slots[c.text[0] as usize].as_ref().map(|s| flatten(&s.root));
				let flat = flatten(&slot.root);
				let (n, at, m) = (c.b / 100, c.b % 100, c.text[1] as usize);
				let ok = match &from {
					Some(f) if n >= 1 && n <= flat.len() && m >= 1 && m <= f.len() => {
						let t = flat[n - 1].0.borrow().node_type;
						let kids = flat[n - 1].0.borrow().childs.as_ref().map_or(0, |c| c.len());
						(t == NodeType::Tag || t == NodeType::AbstractRoot)
							&& f[m - 1].0.borrow().node_type != NodeType::AbstractRoot
							&& at <= kids
					}
					_ => false,
				};
				let mut res = "ok";
				if ok {
					let from = from.unwrap();
					match guard(|| from[m - 1].0.borrow().clone_node()) {
						None => res = "panic",
						Some(child) => {
							let node = &flat[n - 1].0;
							child.borrow_mut().index = at;
							child.borrow_mut().parent = Some(Rc::downgrade(node));
							node.borrow_mut().childs.get_or_insert_with(Vec::new).insert(at, child);
						}
					}
				}
				nothing(&mut j, res);
			}
			name => {
				let mut op = Op::new(0, name, c.b / 100, c.b % 100, &c.text.iter().collect::<String>());
				if name == "attr" {
					op.key = Some(vec!['k']);
					op.val = Some(op.text.clone());
					op.quote = Some('"');
				}
				edit::apply(&slot.root, &op);
				nothing(&mut j, "ok");
			}
		}
	}
	j.end_arr();
	j.key("end").arr();
	for s in &slots[1..] {
		match s {
			None => {
				j.arr().end_arr();
			}
			Some(s) => nodes_json(&mut j, &s.root),
		}
	}
	j.end_arr();
	j.end_obj();
	j.0
}

/// the history, and the same again in two more threads at the same time
pub fn run_world(j: &mut J, calls: &[Call], threads: bool) {
	j.key("ops");
	calls_json(j, calls);
	let mine = world(calls);
	let mut same = true;
	if threads {
		std::thread::scope(|sc| {
			let hs: Vec<_> = (0..2)
				.map(|_| {
					std::thread::Builder::new()
						.stack_size(16 << 20)
						.spawn_scoped(sc, || world(calls))
						.expect("thread")
				})
				.collect();
			for h in hs {
				same &= h.join().map_or(false, |x| x == mine);
			}
		});
		same &= world(calls) == mine;
	}
	j.key("same").boolean(same);
	j.key("w").raw(&mine);
}

// ---------------------------------------------------------------- C29
type WNode = Weak<RefCell<Node>>;

fn up(w: &Option<WNode>) -> bool {
	w.as_ref().map_or(false, |w| w.upgrade().is_some())
}

pub fn run_life(j: &mut J, calls: &[Call]) -> bool {
	let first = &calls[0];
	let src: String = first.text.iter().collect();
	let o = Opt::from_bits(first.b as u32);
	let p = parse(&src, o);
	let mut holder: Option<DocHolder> = match p {
		Parsed::Ok(d) => Some(d),
		_ => return false,
	};
	let (weak, ends, parents): (Vec<WNode>, Vec<Option<WNode>>, Vec<usize>) = {
		let flat = flatten(&holder.as_ref().unwrap().get_root_node());
		(
			flat.iter().map(|(n, _)| Rc::downgrade(n)).collect(),
			flat
				.iter()
				.map(|(n, _)| n.borrow().end_tag.as_ref().map(Rc::downgrade))
				.collect(),
			flat.iter().map(|(_, p)| *p).collect(),
		)
	};
	let doc_weak = holder.as_ref().unwrap().get_root_node().borrow().document.clone();
	j.key("src").text(&src);
	j.key("o");
	o.json(j);
	j.key("nodes");
	nodes_json(j, &holder.as_ref().unwrap().get_root_node());
	let mut held: Vec<Option<RefNode>> = weak.iter().map(|_| None).collect();
	let mut clone: Option<RefNode> = None;
	let mut clone_weak: Vec<WNode> = vec![];
	j.key("steps").arr();
	for c in std::iter::once(&call("start", 0, 0, "")).chain(calls[1..].iter()) {
		let mut n = c.a;
		let known = n >= 1 && n <= weak.len();
		let mut did = false;
		match c.op.as_str() {
			"hold" if known => {
				if let Some(x) = weak[n - 1].upgrade() {
					held[n - 1] = Some(x);
					did = true;
				}
			}
			"find" => {
				// what the document finds by id is held
				n = 0;
				let id: String = c.text.iter().collect();
				if let Some(Some(x)) = holder.as_ref().and_then(|d| guard(|| d.get_element_by_id(&id))) {
					if let Some(i) = weak
						.iter()
						.position(|w| w.upgrade().map_or(false, |y| Rc::ptr_eq(&x, &y)))
					{
						n = i + 1;
						held[i] = Some(x);
						did = true;
					}
				}
			}
			"release" if known => {
				did = held[n - 1].take().is_some();
			}
			"cut" if known && parents[n - 1] > 0 => {
				if let (Some(p), Some(x)) = (weak[parents[n - 1] - 1].upgrade(), weak[n - 1].upgrade()) {
					let mut p = p.borrow_mut();
					let mut none = false;
					if let Some(cs) = &mut p.childs {
						if let Some(i) = cs.iter().position(|y| Rc::ptr_eq(&x, y)) {
							cs.remove(i);
							did = true;
						}
						none = cs.is_empty();
					}
					if none {
						p.childs = None;
					}
				}
			}
			"drop" => did = holder.take().is_some(),
			"clone" if known => {
				if let Some(x) = weak[n - 1].upgrade() {
					if let Some(cl) = guard(|| x.borrow().clone_node()) {
						clone_weak = flatten(&cl).iter().map(|(n, _)| Rc::downgrade(n)).collect();
						clone = Some(cl);
						did = true;
					}
				}
			}
			"unclone" => did = clone.take().is_some(),
			_ => {}
		}
		j.obj();
		j.key("op").word(if c.op == "find" { "hold" } else { &c.op });
		j.key("n").num(n as i64);
		j.key("did").boolean(did);
		j.key("alive").arr();
		for w in &weak {
			j.boolean(w.upgrade().is_some());
		}
		j.end_arr();
		j.key("ends").arr();
		for w in &ends {
			j.boolean(up(w));
		}
		j.end_arr();
		// the links of those that are alive
		j.key("up").arr();
		j.key_less_links(&weak);
		j.end_arr();
		j.key("doc")
			.boolean(doc_weak.as_ref().map_or(false, |w| w.upgrade().is_some()));
		j.key("out")
			.opt_chars(&holder.as_ref().and_then(|d| render(d, RO(0), Inner::None)));
		j.key("texts").arr();
		for x in &held {
			j.opt_chars(&x.as_ref().and_then(|x| build(x, RO(0), Inner::None)));
		}
		j.end_arr();
		let total = clone_weak.len();
		let alive = clone_weak.iter().filter(|w| w.upgrade().is_some()).count();
		j.key("cl")
			.arr()
			.boolean(clone.is_some())
			.num(alive as i64)
			.num(total as i64)
			.end_arr();
		j.key("ctext")
			.opt_chars(&clone.as_ref().and_then(|x| build(x, RO(0), Inner::None)));
		j.end_obj();
	}
	j.end_arr();
	true
}

impl J {
	/// for every node: can its parent and its root be reached from it?
	fn key_less_links(&mut self, weak: &[WNode]) {
		for w in weak {
			self.arr();
			if let Some(n) = w.upgrade() {
				let n = n.borrow();
				self.boolean(up(&n.parent)).boolean(up(&n.root));
			}
			self.end_arr();
		}
	}
}
