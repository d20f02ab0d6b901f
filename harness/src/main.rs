//! Drives the real rphtml and records what it does, as one JSON record per line.
//!
//! rpharness PROP CASES OUTDIR SHARDS SEED NRANDOM NLONG SCRATCH SAMPLE [MODEL...]
//!
//! CASES has cases, one per line:
//!   D bits cp,cp,...                      a source with parse options (R, L: from the random generator)
//!   G 0  call;call;...                   a history of calls (g: random; call: name,a,b,cp.cp.cp)
//!   H bits cp,cp,... r op;op;...          a clone/edit history (op: side,name,n,at,cp.cp.cp)
//! MODEL is the output of the model checker, with the behaviours of the specification
//!   "B tag bits digest <<cp, cp, ...>>"
//! All of them are run in the real code; SAMPLE of each file, and all whose digest is not the one the specification
//! expects, are recorded in full.
mod digest;
mod edit;
mod gen;
mod hist;
mod json;
mod observe;
mod rng;

use edit::Op;
use gen::{Gen, Profile};
use json::J;
use observe::*;
use rng::Rng;
use rphtml::parser::{allow_insert, is_content_tag, Attr, DocHolder, NameCase, Node, NodeType, RefNode};
use rphtml::util;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// the case a thread is at, and since when
type Cur = Arc<Mutex<(Option<Case>, Instant)>>;

struct Out {
	files: Vec<BufWriter<File>>,
	n: usize,
	step: usize,
	cur: Cur,
	trace: bool,
	case: String,
	mem: Option<String>,
}

impl Out {
	fn rec(&mut self, kind: &str, origin: &str, f: impl FnOnce(&mut J)) {
		let mut j = J::new();
		j.obj();
		j.key("id").num(self.n as i64);
		j.key("kind").word(kind);
		j.key("from").word(origin);
		j.key("case").word(&self.case);
		f(&mut j);
		j.end_obj();
		if let Some(m) = &mut self.mem {
			m.push_str(&j.0);
			return;
		}
		let k = self.n % self.files.len();
		writeln!(self.files[k], "{}", j.0).expect("write record");
		self.n += self.step;
	}
	fn now(&mut self, c: &Case) {
		self.case = c.line();
		if self.trace {
			eprintln!("CASE {}", self.case);
		}
		*self.cur.lock().unwrap() = (Some(c.clone()), Instant::now());
	}
	/// not written to a file
	fn memory() -> Self {
		Out {
			files: vec![],
			n: 0,
			step: 1,
			cur: Arc::new(Mutex::new((None, Instant::now()))),
			trace: false,
			case: String::new(),
			mem: Some(String::new()),
		}
	}
}

#[derive(Clone)]
struct Case {
	o: Opt,
	src: String,
	from: &'static str,
	hist: Option<(usize, Vec<Op>)>,
	calls: Vec<hist::Call>,
	pump: Option<(String, String, String, usize, Option<(usize, usize)>)>, // before, piece, after, how often, the nodes
}

impl Case {
	/// the case as a line of a cases file
	fn line(&self) -> String {
		if !self.calls.is_empty() {
			return format!(
				"{} 0  {}",
				if self.from == "model" { 'G' } else { 'g' },
				hist::line(&self.calls)
			);
		}
		let code = |s: &str| -> String {
			let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
			v.join(",")
		};
		if let Some((before, piece, after, n, list)) = &self.pump {
			let (s, c) = list.unwrap_or((0, 0));
			return format!(
				"P {} {} {} {} {} {} {}",
				self.o.bits(),
				code(before),
				code(piece),
				code(after),
				n,
				s,
				c
			);
		}
		let kind = match (&self.hist, self.from) {
			(Some(_), _) => 'H',
			(_, "model") => 'D',
			(_, "long") => 'L',
			_ => 'R',
		};
		let mut s = format!("{} {} {}", kind, self.o.bits(), code(&self.src));
		if let Some((r, ops)) = &self.hist {
			s += &format!(" {} ", r);
			for op in ops {
				let text: Vec<String> = op.text.iter().map(|c| (*c as u32).to_string()).collect();
				s += &format!("{},{},{},{},{};", op.side, op.op, op.n, op.at, text.join("."));
			}
		}
		s
	}
	/// every case has its own random choices, so that it can be run again alone
	fn rng(&self, seed: u64) -> Rng {
		let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
		for b in self.line().bytes() {
			h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
		}
		Rng::new(h)
	}
}

fn cps(s: &str, sep: char) -> String {
	s.split(sep)
		.filter(|x| !x.is_empty())
		.map(|x| char::from_u32(x.parse().expect("code point")).expect("char"))
		.collect()
}

fn case_of(line: &str) -> Case {
	let f: Vec<&str> = line.split(' ').collect();
	let o = Opt::from_bits(f[1].parse().expect("bits"));
	let mut src = cps(f.get(2).unwrap_or(&""), ',');
	let mut pump = None;
	if f[0] == "P" {
		let (b, p, a) = (src, cps(f[3], ','), cps(f[4], ','));
		let n: usize = f[5].parse().expect("number");
		src = format!("{}{}{}", b, p.repeat(n), a);
		let (s, c): (usize, usize) = (f[6].parse().expect("number"), f[7].parse().expect("number"));
		pump = Some((b, p, a, n, Some((s, c)).filter(|_| s > 0)));
	}
	let hist = if f[0] == "H" {
		let ops = f[4]
			.split(';')
			.filter(|s| !s.is_empty())
			.map(|s| {
				let p: Vec<&str> = s.split(',').collect();
				let mut op = Op::new(
					p[0].parse().unwrap(),
					p[1],
					p[2].parse().unwrap(),
					p[3].parse().unwrap(),
					&cps(p[4], '.'),
				);
				if op.op == "attr" {
					op.key = Some(vec!['k']);
					op.val = Some(op.text.clone());
					op.quote = Some('"');
				}
				op
			})
			.collect();
		Some((f[3].parse().unwrap(), ops))
	} else {
		None
	};
	Case {
		o,
		src,
		from: match f[0] {
			"R" => "random",
			"g" => "random",
			"L" | "P" => "long",
			_ => "model",
		},
		hist,
		pump,
		calls: if f[0] == "G" || f[0] == "g" {
			hist::read(f[3])
		} else {
			vec![]
		},
	}
}

fn read_cases(path: &str) -> Vec<Case> {
	let mut out = vec![];
	if path == "-" {
		return out;
	}
	let mut seen = HashSet::new();
	for line in BufReader::new(File::open(path).expect("cases file")).lines() {
		let line = line.expect("line");
		if !seen.insert(line.clone()) {
			continue;
		}
		out.push(case_of(&line));
	}
	out
}

fn doc_fields(j: &mut J, p: &Parsed, plain: bool) {
	j.key("res").word(p.word());
	j.key("err");
	err_json(j, &p.err());
	j.key("nodes");
	match p.doc() {
		Some(d) => nodes_json(j, &d.get_root_node()),
		None => {
			j.arr().end_arr();
		}
	}
	j.key("plain").arr();
	if plain {
		if let Some(d) = p.doc() {
			if let Some(t) = render(d, RO(0), Inner::None) {
				j.chars(&t);
			}
		}
	}
	j.end_arr();
}

/// the options without those the property is about
fn base_options(prop: &str, ro: RO, inner: Inner) -> Option<(RO, Inner)> {
	match prop {
		"C15" => Some((RO(ro.0 & !1), inner)),
		"C16" => Some((RO(ro.0 & !(1 << 3)), inner)),
		"C18" => Some((ro, Inner::None)),
		"C19" => Some((RO(ro.0 & !(3 << 6)), inner)),
		_ => None,
	}
}

fn rd_json(j: &mut J, at: usize, ro: RO, inner: Inner, out: &Option<Vec<char>>, base: &Option<Vec<char>>) {
	j.obj();
	j.key("at").num(at as i64);
	j.key("ro");
	ro.json(j);
	j.key("inner").word(inner.word());
	j.key("out").opt_chars(out);
	j.key("base").opt_chars(base);
	j.end_obj();
}

/// render node number i (the document itself for 1 unless `direct`) and record it
fn rd(
	j: &mut J,
	prop: &str,
	d: &DocHolder,
	at: usize,
	node: Option<&RefNode>,
	ro: RO,
	inner: Inner,
) -> Option<Vec<char>> {
	let go = |ro: RO, inner: Inner| match node {
		Some(n) => build(n, ro, inner),
		None => render(d, ro, inner),
	};
	let out = go(ro, inner);
	let base = base_options(prop, ro, inner).and_then(|(ro, inner)| go(ro, inner));
	rd_json(j, at, ro, inner, &out, &base);
	out
}

/// which render options a property is about
fn ro_choices(prop: &str, r: &mut Rng) -> Vec<RO> {
	let bit = |i: u32| 1u32 << i;
	match prop {
		"C15" => vec![
			RO(bit(0)),
			RO(bit(0) | (r.below(256) as u32 & !bit(6) & !bit(3) & !bit(4))),
		],
		"C16" => vec![RO(bit(3)), RO(bit(3) | (r.below(256) as u32 & 0b100110))],
		"C17" => {
			let mut v = vec![RO(bit(1)), RO(bit(2)), RO(bit(4)), RO(bit(5))];
			for _ in 0..3 {
				v.push(RO(r.below(256) as u32));
			}
			v.push(RO(r.below(256) as u32 & 0b110110));
			v
		}
		"C18" => vec![RO(0), RO(r.below(256) as u32)],
		"C19" => vec![
			RO(bit(6)),
			RO(bit(7)),
			RO(bit(0) | bit(6)),
			RO(bit(6) | bit(7) | (r.below(2) as u32)),
		],
		_ => vec![RO(r.below(256) as u32)],
	}
}

/// inner html or text of something that has none: the documented panics
fn documented(n: &RefNode, inner: Inner) -> bool {
	let n = n.borrow();
	let tags = n.childs.as_ref().map_or(0, |c| {
		c.iter().filter(|x| x.borrow().node_type == NodeType::Tag).count()
	});
	match n.node_type {
		_ if inner == Inner::None => false,
		NodeType::AbstractRoot => tags != 1,
		NodeType::Tag => false,
		NodeType::Comment | NodeType::XMLCDATA => inner == Inner::Html,
		_ => true,
	}
}

fn run_doc(out: &mut Out, prop: &str, c: &Case, r: &mut Rng) {
	let p = parse(&c.src, c.o);
	let brief = out.mem.is_some();
	out.rec("doc", c.from, |j| {
		j.key("src").text(&c.src);
		j.key("o");
		c.o.json(j);
		doc_fields(j, &p, true);
		// lookups by id
		j.key("ids").arr();
		if prop == "C21" {
			if let Some(d) = p.doc() {
				let flat = flatten(&d.get_root_node());
				let mut keys: Vec<String> = vec!["".into(), "x".into(), "X".into(), "nosuch".into(), "id".into()];
				for (n, _) in &flat {
					if let Some(m) = &n.borrow().meta {
						for a in &m.borrow().attrs {
							if let Some(v) = &a.value {
								let s: String = v.content.iter().collect();
								keys.push(s.to_uppercase());
								keys.push(s.trim().to_string());
								keys.push(s);
							}
							if let Some(k) = &a.key {
								keys.push(k.content.iter().collect());
							}
						}
					}
				}
				let mut seen = std::collections::HashSet::new();
				let mut first: Vec<String> = d.borrow().id_tags.borrow().keys().cloned().collect();
				first.sort();
				first.extend(keys);
				first.retain(|k| seen.insert(k.clone()));
				first.truncate(if c.from == "long" { 1000 } else { 80 });
				for k in first {
					let hit = guard(|| d.get_element_by_id(&k));
					let n: i64 = match hit {
						None => -2,
						Some(None) => 0,
						Some(Some(node)) => flat
							.iter()
							.position(|(x, _)| Rc::ptr_eq(x, &node))
							.map_or(-1, |i| i as i64 + 1),
					};
					j.arr().text(&k).num(n).end_arr();
				}
			}
		}
		j.end_arr();
		// document detection of every node
		j.key("isdoc").arr();
		if prop == "C23" {
			if let Some(d) = p.doc() {
				for (n, _) in flatten(&d.get_root_node()).iter().take(6) {
					match guard(|| n.borrow().is_document()) {
						Some((a, b)) => j.arr().boolean(a).boolean(b).end_arr(),
						None => j.arr().end_arr(),
					};
				}
			}
		}
		j.end_arr();
		// C24: the root knows its document; C01: nothing panics
		let mut px: Vec<&str> = vec![];
		let mut docok = true;
		j.key("rd").arr();
		if let Some(d) = p.doc() {
			let root = d.get_root_node();
			let up = root.borrow().document.as_ref().and_then(|w| w.upgrade());
			docok = up.map_or(false, |doc| {
				// it has the options it was parsed with, and another holder of it is the same document
				guard(|| {
					let same = Rc::ptr_eq(&doc.borrow().root, &root) && c.o.same(&doc.borrow().parse_options);
					let holder = rphtml::parser::DocHolder::from(Rc::clone(&doc));
					same
						&& Rc::ptr_eq(&holder.get_root_node(), &root)
						&& (prop != "C24" || render(&holder, RO(0), Inner::None) == render(d, RO(0), Inner::None))
				})
				.unwrap_or(false)
			});
			if prop == "C01" {
				let flat = flatten(&root);
				for ro in [
					RO(0),
					RO(255),
					RO(r.below(256) as u32),
					RO(r.below(256) as u32),
					RO(1 | r.below(256) as u32),
				] {
					for inner in [Inner::None, Inner::Html, Inner::Text] {
						let t = render(d, ro, inner);
						if t.is_none() && !(brief && documented(&root, inner)) {
							rd_json(j, 1, ro, inner, &t, &None);
						}
					}
				}
				for (i, (n, _)) in flat.iter().enumerate().take(20) {
					let ro = RO(r.below(256) as u32);
					for inner in [Inner::None, Inner::Html, Inner::Text] {
						let t = build(n, ro, inner);
						if t.is_none() && !(brief && documented(n, inner)) {
							rd_json(j, i + 1, ro, inner, &t, &None);
						}
					}
					if guard(|| n.borrow().is_document()).is_none() {
						px.push("is_document");
					}
					match guard(|| n.borrow().clone_node()) {
						None => px.push("clone_node"),
						Some(cl) => {
							if build(&cl, ro, Inner::None).is_none() {
								px.push("clone_build");
							}
						}
					}
					if guard(|| n.borrow().clone()).is_none() {
						px.push("clone");
					}
					if guard(|| format!("{:?}", n.borrow())).is_none() {
						px.push("debug");
					}
					if let Some(m) = &n.borrow().meta {
						for a in &m.borrow().attrs {
							if guard(|| (a.build(false), a.build(true), a.check_if_id())).is_none() {
								px.push("attr_build");
							}
						}
					}
				}
				for k in ["", "x", "y", "nosuch"] {
					if guard(|| d.get_element_by_id(k)).is_none() {
						px.push("get_element_by_id");
					}
				}
			}
		}
		j.end_arr();
		let mut same = true;
		if prop == "C24" {
			if let Some(d) = p.doc() {
				let flat = flatten(&d.get_root_node());
				for (i, (x, _)) in flat.iter().enumerate().take(5) {
					for (k, (y, _)) in flat.iter().enumerate().take(5) {
						same &= guard(|| Node::is_same(x, &Rc::clone(y))) == Some(i == k);
					}
				}
			}
		}
		j.key("same").boolean(same);
		j.key("docok").boolean(docok);
		j.key("px").arr();
		px.dedup();
		for x in px {
			j.word(x);
		}
		j.end_arr();
	});
}

fn run_fix(out: &mut Out, c: &Case) {
	let p = parse(&c.src, c.o);
	let t1 = p.doc().and_then(|d| render(d, RO(0), Inner::None));
	let p2 = t1.as_ref().map(|t| parse(&t.iter().collect::<String>(), c.o));
	let t2 = p2
		.as_ref()
		.and_then(|p| p.doc())
		.and_then(|d| render(d, RO(0), Inner::None));
	out.rec("fix", c.from, |j| {
		j.key("src").text(&c.src);
		j.key("o");
		c.o.json(j);
		j.key("res").word(p.word());
		j.key("plain").opt_chars(&t1);
		j.key("res2").word(p2.as_ref().map_or("none", |p| p.word()));
		j.key("plain2").opt_chars(&t2);
	});
}

fn run_pairs(out: &mut Out, c: &Case, r: &mut Rng) {
	// switch on some more of the options, never case sensitivity
	let more = (r.next() as u32 | r.next() as u32) & 62;
	let single = 2u32 << r.below(5);
	let mut adds = digest::changed_by(&c.src, c.o);
	adds.push(match r.below(4) {
		0 => 62,
		1 => single,
		_ => more,
	});
	adds.sort();
	adds.dedup();
	for add in adds {
		run_pair(out, c, Opt::from_bits(c.o.bits() | add));
	}
}

fn run_pair(out: &mut Out, c: &Case, o2: Opt) {
	let a = parse(&c.src, c.o);
	let b = parse(&c.src, o2);
	out.rec("pair", c.from, |j| {
		j.key("src").text(&c.src);
		j.key("o");
		c.o.json(j);
		j.key("o2");
		o2.json(j);
		for (k, p) in [("a", &a), ("b", &b)] {
			j.key(k).obj();
			doc_fields(j, p, true);
			j.end_obj();
		}
	});
}

fn run_render(out: &mut Out, prop: &str, c: &Case, r: &mut Rng, edited: bool) {
	let p = parse(&c.src, c.o);
	if p.doc().is_none() && (edited || p.word() != "panic") {
		return;
	}
	let mut ops: Vec<Op> = vec![];
	let root = p.doc().map(|d| d.get_root_node());
	if let (true, Some(root)) = (edited, &root) {
		for _ in 0..(1 + r.below(6)) {
			let op = edit::random_op(root, 0, r);
			edit::apply(root, &op);
			ops.push(op);
		}
	}
	out.rec("rend", c.from, |j| {
		j.key("src").text(&c.src);
		j.key("o");
		c.o.json(j);
		j.key("ed").boolean(edited);
		j.key("ops").arr();
		for op in &ops {
			j.obj();
			op.json(j);
			j.end_obj();
		}
		j.end_arr();
		doc_fields(j, &p, true);
		j.key("ents").arr();
		if let Some(root) = &root {
			if prop == "C15" || prop == "C17" || prop == "C18" || prop == "C19" {
				for (n, v) in entities(&all_texts(root)) {
					j.obj();
					j.key("n").chars(&n);
					j.key("r").arr();
					if let Some(v) = v {
						j.num(v as u32 as i64);
					}
					j.end_arr();
					j.end_obj();
				}
			}
		}
		j.end_arr();
		let mut reparse: Vec<(RO, Vec<char>)> = vec![];
		j.key("rd").arr();
		if let Some(d) = p.doc() {
			let root = d.get_root_node();
			let flat = flatten(&root);
			if prop == "C18" {
				for inner in [Inner::Html, Inner::Text] {
					for ro in ro_choices(prop, r) {
						rd(j, prop, d, 1, None, ro, inner);
					}
				}
				for _ in 0..5 {
					let i = r.below(flat.len());
					let ro = if r.pct(50) { RO(0) } else { RO(r.below(256) as u32) };
					for inner in [Inner::None, Inner::Html, Inner::Text] {
						rd(j, prop, d, i + 1, Some(&flat[i].0), ro, inner);
					}
				}
			} else {
				for ro in ro_choices(prop, r) {
					if let Some(t) = rd(j, prop, d, 1, None, ro, Inner::None) {
						reparse.push((ro, t));
					}
				}
				// and of some node on its own
				let i = r.below(flat.len());
				for ro in ro_choices(prop, r) {
					rd(j, prop, d, i + 1, Some(&flat[i].0), ro, Inner::None);
				}
				if prop == "C19" {
					// decoding and encoding also act on the inner html and text
					let ro = RO((1 << 6) | (r.below(4) as u32 & 1) | ((r.below(2) as u32) << 7));
					for inner in [Inner::Html, Inner::Text] {
						rd(j, prop, d, i + 1, Some(&flat[i].0), ro, inner);
					}
				}
			}
		}
		j.end_arr();
		// parse the first output again
		j.key("again").arr();
		if !edited && (prop == "C16" || prop == "C15" || prop == "C19") {
			for (ro, t) in reparse.iter().take(if prop == "C19" { 0 } else { 1 }) {
				let q = parse(&t.iter().collect::<String>(), c.o);
				j.obj();
				j.key("ro");
				ro.json(j);
				doc_fields(j, &q, true);
				j.key("out").arr();
				if let Some(d) = q.doc() {
					if let Some(t) = render(d, *ro, Inner::None) {
						j.chars(&t);
					}
				}
				j.end_arr();
				j.end_obj();
			}
		}
		j.end_arr();
	});
}

fn run_hist(out: &mut Out, c: &Case, r: &mut Rng) {
	let p = parse(&c.src, c.o);
	let doc = match p.doc() {
		Some(d) => d,
		None => return,
	};
	let root = doc.get_root_node();
	let mut pre: Vec<Op> = vec![];
	if c.hist.is_none() && r.pct(40) {
		// a tree that was edited before it is cloned
		for _ in 0..(1 + r.below(3)) {
			let op = edit::random_op(&root, 0, r);
			edit::apply(&root, &op);
			pre.push(op);
		}
	}
	let flat = flatten(&root);
	let at = match &c.hist {
		Some((n, _)) => *n,
		None => 1 + r.below(flat.len()),
	};
	if at < 1 || at > flat.len() {
		return;
	}
	let target = Rc::clone(&flat[at - 1].0);
	drop(flat);
	out.rec("hist", c.from, |j| {
		j.key("src").text(&c.src);
		j.key("o");
		c.o.json(j);
		j.key("pre").arr();
		for op in &pre {
			j.obj();
			op.json(j);
			j.end_obj();
		}
		j.end_arr();
		j.key("r").num(at as i64);
		j.key("before");
		nodes_json(j, &root);
		let clone = guard(|| target.borrow().clone_node());
		j.key("panic").boolean(clone.is_none());
		j.key("after");
		nodes_json(j, &root);
		let ro = RO(r.below(256) as u32);
		j.key("ro");
		ro.json(j);
		let clone = match clone {
			None => {
				j.key("value").arr().end_arr();
				j.key("clone").arr().end_arr();
				j.key("plain").arr().end_arr();
				j.key("steps").arr().end_arr();
				return;
			}
			Some(c) => c,
		};
		// the same through the Clone trait
		j.key("value");
		match guard(|| target.borrow().clone()) {
			Some(v) => nodes_json(j, &Rc::new(RefCell::new(v))),
			None => {
				j.arr().end_arr();
			}
		}
		j.key("clone");
		nodes_json(j, &clone);
		// both sides rendered, with default options and some others
		j.key("plain").arr();
		for (n, ro) in [(&target, RO(0)), (&clone, RO(0)), (&target, ro), (&clone, ro)] {
			j.opt_chars(&build(n, ro, Inner::None));
		}
		j.end_arr();
		j.key("steps").arr();
		let given = c.hist.as_ref().map(|(_, ops)| ops.clone());
		let total = given.as_ref().map_or(1 + r.below(5), |g| g.len());
		for i in 0..total {
			let op = match &given {
				Some(g) => g[i].clone(),
				None => {
					let side = r.below(2);
					edit::random_op(if side == 0 { &root } else { &clone }, side, r)
				}
			};
			edit::apply(if op.side == 0 { &root } else { &clone }, &op);
			j.obj();
			op.json(j);
			j.key("a");
			nodes_json(j, &root);
			j.key("b");
			nodes_json(j, &clone);
			j.end_obj();
		}
		j.end_arr();
	});
}

fn file_fields(j: &mut J, key: &str, p: &Parsed) {
	j.key(key).obj();
	doc_fields(j, p, true);
	j.end_obj();
}

fn run_file(out: &mut Out, c: &Case, scratch: &Path, r: &mut Rng, mode: &str) {
	// the line structure is what parse_file is about: vary the line ends
	let mut text = c.src.clone();
	if c.from != "model" && c.pump.is_none() {
		match r.below(8) {
			0 => text.push('\n'),
			1 => text.push('\r'),
			2 => text.push_str("\r\n"),
			3 => text = text.replace('\n', "\r\n"),
			4 => text = text.replace(' ', "\n"),
			5 => text.push_str("\n\n"),
			_ => {}
		}
		// what a reader of lines might treat specially: marks, other line separators, the end of a text file
		let odd = [
			"\u{feff}", "\u{85}", "\u{2028}", "\u{2029}", "\u{b}", "\u{c}", "\u{0}", "\u{1a}", "\r\r\n", "\n\r", "\u{fffd}",
			"\u{fffe}",
		];
		if r.pct(12) {
			text.insert_str(0, odd[r.below(odd.len())]);
		}
		if r.pct(6) {
			text.push_str(odd[r.below(odd.len())]);
		}
		if r.pct(10) {
			let at: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
			if !at.is_empty() {
				text.insert_str(at[r.below(at.len())], odd[r.below(odd.len())]);
			}
		}
		if r.pct(3) {
			// longer than any read buffer
			let fill: String = (0..(8100 + r.below(200)))
				.map(|i| if i % 97 == 96 { '\n' } else { 'f' })
				.collect();
			text = format!("{}\u{4e2d}\u{e9}{}", fill, text);
		}
	}
	let mut bytes = text.clone().into_bytes();
	let dir = scratch.join("d");
	let _ = std::fs::create_dir_all(&dir);
	let file = dir.join("f\u{e9}.html");
	let (path, what): (PathBuf, &str) = match mode {
		"missing" => (dir.join("nosuch.html"), "missing"),
		"relmissing" => (PathBuf::from("nosuch.html"), "missing"),
		"dir" => (dir.clone(), "dir"),
		"bad" => {
			let at = r.below(bytes.len() + 1);
			let junk: &[u8] = [
				&[0xffu8][..],
				&[0xc3, 0x28],
				&[0xe4, 0xb8],
				&[0xed, 0xa0, 0x80],
				&[0xf5, 0x80],
			][r.below(5)];
			bytes.splice(at..at, junk.iter().copied());
			if std::str::from_utf8(&bytes).is_ok() {
				return;
			}
			(file.clone(), "bad")
		}
		"rel" => (PathBuf::from("f\u{e9}.html"), "ok"),
		"reldots" => (PathBuf::from("../d/./f\u{e9}.html"), "ok"),
		"absdots" => (dir.join("../d/./f\u{e9}.html"), "ok"),
		"link" | "rellink" => {
			let link = dir.join("l n%20k");
			let _ = std::os::unix::fs::symlink("f\u{e9}.html", &link);
			(if mode == "link" { link } else { PathBuf::from("l n%20k") }, "ok")
		}
		"linkdots" | "rellinkdots" => {
			// s is a link to e/g: s/../x is e/x, and there is another x where the name alone would lead
			let deep = dir.join("e/g");
			let _ = std::fs::create_dir_all(&deep);
			let _ = std::os::unix::fs::symlink("e/g", dir.join("s"));
			std::fs::write(dir.join("e/x.html"), &bytes).expect("write scratch file");
			std::fs::write(dir.join("x.html"), "<another>").expect("write scratch file");
			let base = if mode == "linkdots" {
				dir.clone()
			} else {
				PathBuf::new()
			};
			(base.join("s/../x.html"), "ok")
		}
		"empty" => (PathBuf::from(""), "dir"),
		_ => (file.clone(), "ok"),
	};
	if what == "ok" || what == "bad" {
		std::fs::write(&file, &bytes).expect("write scratch file");
	}
	std::env::set_current_dir(&dir).expect("chdir to scratch");
	let a = parse_file(&path, c.o);
	// the text as parse would see it: each line with a single LF
	let mut norm = String::new();
	if what == "ok" {
		let mut rest = text.as_str();
		while !rest.is_empty() {
			match rest.find('\n') {
				Some(i) => {
					let line = &rest[..i];
					norm.push_str(line.strip_suffix('\r').unwrap_or(line));
					norm.push('\n');
					rest = &rest[i + 1..];
				}
				None => {
					norm.push_str(rest);
					norm.push('\n');
					rest = "";
				}
			}
		}
	}
	let b = parse(&norm, c.o);
	let short = text.len() < 2000;
	out.rec("file", c.from, |j| {
		j.key("src").text(if what == "ok" { &text } else { "" });
		j.key("o");
		c.o.json(j);
		j.key("what").word(what);
		j.key("mode").word(mode);
		j.key("short").boolean(short);
		j.key("norm").text(&norm);
		file_fields(j, "a", &a);
		file_fields(j, "b", &b);
	});
}

fn ranges(j: &mut J, lo: u32, hi: u32, f: impl Fn(&char) -> bool) {
	j.arr();
	let mut start: Option<u32> = None;
	let mut last = lo;
	for cp in lo..=hi {
		let is = char::from_u32(cp).map_or(false, |c| f(&c));
		if is && start.is_none() {
			start = Some(cp);
		}
		if !is {
			if let Some(s) = start.take() {
				j.arr().num(s as i64).num(cp as i64 - 1).end_arr();
			}
		}
		last = cp;
	}
	if let Some(s) = start {
		j.arr().num(s as i64).num(last as i64).end_arr();
	}
	j.end_arr();
}

fn run_classes(out: &mut Out, mut names: Vec<String>, nrandom: usize, r: &mut Rng) {
	let step = 1024u32;
	let mut lo = 0;
	while lo < 0x110000 {
		out.rec("cls", "sweep", |j| {
			j.key("lo").num(lo as i64);
			j.key("hi").num((lo + step - 1) as i64);
			j.key("non");
			ranges(j, lo, lo + step - 1, util::is_non_character);
			j.key("key");
			ranges(j, lo, lo + step - 1, util::is_char_available_in_key);
			j.key("val");
			ranges(j, lo, lo + step - 1, util::is_char_available_in_value);
			j.key("quo");
			ranges(j, lo, lo + step - 1, Attr::need_quoted_char);
		});
		lo += step;
	}
	// names: every special name in every letter case, and names that are nearly special
	names.extend(["".into(), "html".into(), "pre".into()]);
	for base in gen::VOID.iter().chain(gen::RAW.iter()).chain(gen::FOREIGN.iter()) {
		let n = base.len();
		for mask in 0..(1u32 << n) {
			names.push(
				base
					.chars()
					.enumerate()
					.map(|(i, c)| if mask >> i & 1 > 0 { c.to_ascii_uppercase() } else { c })
					.collect(),
			);
		}
		for i in 0..n {
			for with in ["", "x", "\u{0}", "\u{17f}", "\u{130}", " "] {
				let mut cs: Vec<String> = base.chars().map(|c| c.to_string()).collect();
				cs[i] = with.into();
				names.push(cs.concat());
			}
		}
		for s in ["x", " ", "s", "\n", "-", "\u{0}"] {
			names.push(format!("{}{}", base, s));
			names.push(format!("{}{}", s, base));
		}
		// keep length, shift letters outside of the ASCII letters (case folding by bit tricks)
		for i in 0..n {
			let cs: String = base
				.chars()
				.enumerate()
				.map(|(k, c)| if k == i { char::from(c as u8 ^ 0x60) } else { c })
				.collect();
			names.push(cs);
		}
	}
	for p in gen::PLAIN.iter().chain(gen::DICT.iter()) {
		names.push(p.to_string());
		names.push(p.to_uppercase());
	}
	for _ in 0..nrandom {
		let n = r.below(7);
		names.push((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect());
	}
	names.sort();
	names.dedup();
	let types = [
		NodeType::AbstractRoot,
		NodeType::HTMLDOCTYPE,
		NodeType::Comment,
		NodeType::Text,
		NodeType::SpacesBetweenTag,
		NodeType::Tag,
		NodeType::TagEnd,
		NodeType::XMLCDATA,
	];
	for name in names {
		let cs: Vec<char> = name.chars().collect();
		out.rec("ins", "sweep", |j| {
			j.key("name").text(&name);
			j.key("al").arr();
			for t in types {
				let v = guard(|| allow_insert(&cs, t));
				j.arr()
					.word(type_word(t))
					.word(v.map_or("panic", |b| if b { "yes" } else { "no" }))
					.end_arr();
			}
			j.end_arr();
			let word = |v: Option<bool>| v.map_or("panic", |b| if b { "yes" } else { "no" });
			j.key("exact").word(word(guard(|| is_content_tag(&cs, &None))));
			j.key("lower")
				.word(word(guard(|| is_content_tag(&cs, &Some(NameCase::Lower)))));
			j.key("upper")
				.word(word(guard(|| is_content_tag(&cs, &Some(NameCase::Upper)))));
		});
	}
}

/// does the real code show something else than the specification expects?
fn suspect(prop: &str, c: &Case, want: i64, seed: u64) -> bool {
	match prop {
		"C20" | "C22" | "C25" => false,
		"C01" => {
			let mut out = Out::memory();
			run_doc(&mut out, prop, c, &mut c.rng(seed));
			let rec = out.mem.unwrap_or_default();
			rec.contains("\"res\":\"panic\"") || !rec.contains("\"rd\":[]") || !rec.contains("\"px\":[]")
		}
		_ => digest::suspect(prop, &c.src, c.o, want),
	}
}

/// "B tag bits digest <<cp, cp>>"
fn model_line(line: &str) -> Option<(&str, Case, i64)> {
	let rest = line.strip_prefix("\"B ")?;
	let mut f = rest.splitn(4, ' ');
	let tag = f.next()?;
	let o = Opt::from_bits(f.next()?.parse().ok()?);
	let want = f.next()?.parse().ok()?;
	let list = f.next()?.strip_prefix("<<")?.strip_suffix(">>\"")?;
	let mut src = String::with_capacity(32);
	for x in list.split(", ").filter(|x| !x.is_empty()) {
		src.push(char::from_u32(x.parse().ok()?)?);
	}
	Some((
		tag,
		Case {
			o,
			src,
			from: "model",
			hist: None,
			pump: None,
			calls: vec![],
		},
		want,
	))
}

#[derive(Default)]
struct Filtered {
	/// per tag: how many, the first ones, and the ones with the smallest hash
	tags: BTreeMap<String, (usize, Vec<String>, BTreeMap<u64, String>)>,
	bad: usize,
	/// the shortest that differ
	bads: Vec<String>,
}

const QUOTA: usize = 4000;
const BADS: usize = 1200;

impl Filtered {
	fn keep_bads(&mut self) {
		self.bads.sort_by_key(|c| c.len());
		self.bads.truncate(BADS);
	}
	fn merge(&mut self, o: Filtered) {
		for (t, (n, early, heap)) in o.tags {
			let mine = self.tags.entry(t).or_default();
			mine.0 += n;
			mine.1.extend(early);
			mine.1.sort_by_key(|c| c.len());
			mine.1.truncate(QUOTA);
			mine.2.extend(heap);
			while mine.2.len() > QUOTA {
				mine.2.pop_last();
			}
		}
		self.bad += o.bad;
		self.bads.extend(o.bads);
		self.keep_bads();
	}
	fn sample(&self, total: usize) -> Vec<String> {
		let mut lists: Vec<Vec<&String>> = vec![];
		for (tag, (_, early, heap)) in &self.tags {
			let mut v = vec![];
			let (mut a, mut b) = (early.iter(), heap.values());
			loop {
				let (x, y) = (a.next(), b.next());
				if x.is_none() && y.is_none() {
					break;
				}
				v.extend(x);
				v.extend(y);
			}
			if tag.starts_with("bigrun") {
				v.truncate(100); // long texts, slow to examine
			}
			lists.push(v);
		}
		let mut out: Vec<String> = vec![];
		let mut seen: HashSet<&String> = HashSet::new();
		let mut i = 0;
		while out.len() < total && lists.iter().any(|l| l.len() > i) {
			for l in &lists {
				if let Some(c) = l.get(i) {
					if out.len() < total && seen.insert(c) {
						out.push((*c).clone());
					}
				}
			}
			i += 1;
		}
		out
	}
}

fn filter_lines(prop: &str, lines: &[String], seed: u64, cur: &Cur, trace: bool) -> Filtered {
	let mut f = Filtered::default();
	for line in lines {
		let (tag, c, want) = match model_line(line) {
			Some(x) => x,
			None => {
				eprintln!("unreadable line of the model checker: {}", line);
				std::process::exit(3);
			}
		};
		if trace {
			eprintln!("CASE {}", c.line());
		}
		*cur.lock().unwrap() = (Some(c.clone()), Instant::now());
		if !f.tags.contains_key(tag) {
			f.tags.insert(tag.to_string(), Default::default());
		}
		let e = f.tags.get_mut(tag).unwrap();
		e.0 += 1;
		let mut hash = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
		for b in line.bytes() {
			hash = (hash ^ b as u64).wrapping_mul(0x0100_0000_01b3);
		}
		if e.1.len() < QUOTA {
			e.1.push(c.line());
		}
		if e.2.len() < QUOTA || *e.2.last_key_value().unwrap().0 > hash {
			e.2.insert(hash, c.line());
			if e.2.len() > QUOTA {
				e.2.pop_last();
			}
		}
		// what cannot be examined is looked at again, alone
		if guard(|| suspect(prop, &c, want, seed)).unwrap_or(true) {
			f.bad += 1;
			f.bads.push(c.line());
			if f.bads.len() > 4 * BADS {
				f.keep_bads();
			}
		}
	}
	*cur.lock().unwrap() = (None, Instant::now());
	f
}

/// run all behaviours in the output of a model checker
fn filter_file(prop: &str, path: &str, seed: u64, curs: &[Cur], trace: bool) -> Filtered {
	let mut all = Filtered::default();
	let mut lines = BufReader::with_capacity(1 << 20, File::open(path).expect("model file")).lines();
	loop {
		let mut chunk: Vec<String> = vec![];
		let mut end = true;
		for line in lines.by_ref() {
			let line = line.expect("line");
			if line.starts_with("\"B ") {
				chunk.push(line);
			}
			if chunk.len() == 80_000 {
				end = false;
				break;
			}
		}
		let k = curs.len();
		let size = (chunk.len() / k).max(1) + 1;
		let parts: Vec<Filtered> = std::thread::scope(|sc| {
			let hs: Vec<_> = chunk
				.chunks(size)
				.zip(curs)
				.map(|(part, cur)| {
					std::thread::Builder::new()
						.stack_size(64 << 20)
						.spawn_scoped(sc, move || filter_lines(prop, part, seed, cur, trace))
						.expect("thread")
				})
				.collect();
			hs.into_iter().map(|h| h.join().expect("filter")).collect()
		});
		for p in parts {
			all.merge(p);
		}
		if end {
			return all;
		}
	}
}

fn run_life(out: &mut Out, c: &Case) {
	let mut j = J::new();
	j.obj();
	if hist::run_life(&mut j, &c.calls) {
		j.end_obj();
		out.rec("life", c.from, |k| {
			k.key("w").raw(&j.0);
		});
	}
}

fn run_case(out: &mut Out, prop: &str, c: &Case, seed: u64, scratch: &Path) {
	out.now(c);
	json::PUMP.with(|p| {
		p.set(c.pump.as_ref().map(|(_, piece, _, n, list)| json::Pump {
			list: *list,
			n: *n,
			len: piece.chars().count(),
			lines: piece.contains('\n') || piece.contains('\r'),
		}))
	});
	let modes = [
		"abs",
		"rel",
		"reldots",
		"absdots",
		"link",
		"rellink",
		"linkdots",
		"rellinkdots",
		"missing",
		"relmissing",
		"dir",
		"bad",
		"empty",
	];
	let mut r = c.rng(seed);
	match prop {
		"C03" => run_fix(out, c),
		"C13" => run_pairs(out, c, &mut r),
		"C15" | "C16" | "C18" | "C19" => run_render(out, prop, c, &mut r, false),
		"C17" => {
			run_render(out, prop, c, &mut r, false);
			run_render(out, prop, c, &mut r, true);
		}
		"C20" => run_hist(out, c, &mut r),
		"C27" => out.rec("build", c.from, |j| hist::run_build(j, &c.calls)),
		"C28" => out.rec("world", c.from, |j| hist::run_world(j, &c.calls, c.from == "random")),
		"C29" => run_life(out, c),
		"C30" => out.rec("cat", c.from, |j| hist::run_cat(j, &c.calls)),
		"C22" => {
			let m = if c.from == "model" || r.pct(85) {
				modes[r.below(8)]
			} else if r.pct(60) {
				"bad"
			} else {
				modes[8 + r.below(5)]
			};
			run_file(out, c, scratch, &mut r, m)
		}
		_ => run_doc(out, prop, c, &mut r),
	}
	if ["C15", "C18", "C19"].contains(&prop) && r.pct(30) {
		run_render(out, prop, c, &mut r, true);
	}
}

/// positions, lines and columns beyond 16 bits; the dropped end tags keep the tree and the buffers small
fn huge(prop: &str) -> Vec<Case> {
	let case = |bits: u32, src: String| Case {
		o: Opt::from_bits(bits),
		src,
		from: "long",
		hist: None,
		pump: None,
		calls: vec![],
	};
	let mut v = vec![
		case(
			16 | 32,
			"</z>".repeat(16_400) + "<a>t</a> <!--c--><b k=v id=x> y<br></b ><1<!x",
		),
		case(
			16 | 32,
			"</z>".repeat(16_384) + "<a>t</a> <!--c--><b k=v id=x> y<br></b ></q>u< <script>s</script >\n<!DOCTYPE x>",
		),
	];
	if prop == "C22" {
		// characters of several bytes across the boundaries of any read buffer
		for shift in 0..3 {
			v.push(case(8, format!("<a>{}{}", "x".repeat(shift), "\u{20ac}".repeat(6_000))));
			v.push(case(
				8,
				format!("<a>{}{}", "x".repeat(shift), "\u{20ac}\r\n".repeat(2_000)),
			));
		}
	}
	if prop == "C05" {
		v.push(case(16, "</z\n>".repeat(65_600) + "<a>t</a> <!x"));
		v.push(case(16, "</z\r>".repeat(33_000) + "<a>t"));
	}
	v
}

/// one piece repeated a thousand times and more: what is kept in a buffer, a list or a chain has no limit
const RUNS: [(&str, &str, &str, usize); 51] = [
	("<a>", "x", "</a> <b>", 1),
	("<a>", "\u{e9}\u{20ac}", "</b>", 2),
	("<a> ", "t  ", " </a>", 3),
	("<a>t", " ", "t<b> </b></a>", 1),
	("<a>", " ", "<b></b></a>", 1),
	("<pre>", " ", "<b> </b></pre>  t", 1),
	("<!--", "x", "--><!---->", 1),
	("<!--", "-", "-->", 1),
	("<svg><g><![CDATA[", "]", "]]></g></svg><b/>", 1),
	("<a k='", "v ", "' j=w>t</a>", 2),
	("<a k=", "v", "/ id=x>t</a>", 1),
	("<a ", "k", "=1 KK>t</a>", 1),
	("<a", "b", ">t</a>", 1),
	("<a>t</a", " ", "><b>", 1),
	("<script>", "a</scrip>", "</SCRIPT ><i>t</i>", 9),
	("<Title>", "&<", " </title><i>t</i>", 2),
	("<a>", "&lt; ", "</a>", 5),
	("<!DOCTYPE ", "x ", "><html></html> ", 2),
	("<a>\n", "\r\n", "</b>", 2),
	("<a> ", "</z> ", "t</a>", 5),
	("<a>", "< ", "<i></i></a>", 2),
	("<a>t</", "\u{e9}\u{20ac}", "></a>", 2),
	("<a", "\u{20ac}b", "/>t", 2),
	("<b><x", "\u{e9}", " k>t", 1),
	("<script>s</script", " \n", ">t", 2),
	("<svg><![CDATA", "x", "[", 1),
	("<a", " ", "k=v j>t</a>", 1),
	("<a k", " ", "=v j>t</a>", 1),
	("<a k=", " ", "v>t</a>", 1),
	("<a k", "/", "j/>t</a>", 1),
	("<p>x</p>", " \t", "x<b>", 2),
	("<p>&", "a", "; &lt;</p>", 1),
	("<!DOCTYPE x '", "v<", "'>t", 2),
	("<a id=x k='", "v=", "'/><a id='x'>t", 2),
	("<a>", "line \n", "t</b>", 6),
	("<a k='\n", "v\n", "'>t</a><!x", 2),
	// what almost ends them, late in a long one
	("<!--", "x", "->-!>-- >--!>- ->]]>--><!--y-->", 1),
	("<!--", "x->", "--><!--y-->", 3),
	("<svg><g><![CDATA[", "x", "]>] ]>]] >--></g>]]></g></svg>", 1),
	("<svg><g><![CDATA[", "x]>", "]]></g></svg>", 3),
	("<script>", "x", "</scrip></scriptx></script x></ script></SCRIPT\n><i>t</i>", 1),
	("<style>", "x", "</styl></script></style/></style<></style ><i>t</i>", 1),
	("<textarea>", "\u{20ac}", "</title></textarea/></textarea ><b>t</b>", 1),
	("<a k=\"", "v", "' > /> <b> =\" j>t</a>", 1),
	("<a k='", "v\">", "\" > /> <b> =' j>t</a>", 3),
	("<a k=", "v", "\"'</=`<b j>t</a>", 1),
	("<a ", "k", "\"'<`a=1 KK>t</a>", 1),
	("<p>", "x", "< <1<<b></b></p>", 1),
	("<p>", "x", "</q>y</P >z</r> </p >", 1),
	("<!DOCTYPE x \"", "v", "' > <b>\" y>t", 1),
	("<svg><g>", "x", "<g/> <!--c--><![CDATA[d]]></g ><b/>", 1),
];

fn big(thorough: bool) -> Vec<Case> {
	let lists: &[(&str, &str, &str, usize)] = &[
		("<a>", "<i>u</i>", " t</a>", 300),
		(" ", "<br>", " <p k=v>", 600),
		("<a", " k", "=1 id=y>t</a>", 300),
		("<a id=x>", "<b>", " t ", 270),
		("<svg>", "<svg>", "<g/>", 130),
		("<p>", "<i></i>", "t</p>", 1100),
	];
	let mut v = vec![];
	let mut add = |before: &str, piece: &str, after: &str, n: usize, i: usize| {
		for bits in if thorough {
			vec![0, 60, 1]
		} else {
			vec![[60, 0][i % 2], 60]
		} {
			v.push(Case {
				o: Opt::from_bits(bits),
				src: format!("{}{}{}", before, piece.repeat(n), after),
				from: "long",
				hist: None,
				pump: None,
				calls: vec![],
			});
		}
	};
	for (i, r) in RUNS.iter().enumerate() {
		for n in if thorough {
			vec![1024, 2050, 4100]
		} else {
			vec![[1030, 2050][i % 2]]
		} {
			add(r.0, r.1, r.2, 1 + n / r.3, i);
		}
	}
	for (i, r) in lists.iter().enumerate() {
		add(r.0, r.1, r.2, r.3, i);
	}
	// a cut at a byte is inside of a character for one of them
	for shift in 0..3 {
		let x = "x".repeat(shift);
		for (before, after) in [
			("<a>t</", "></a>"),
			("<a", "/>"),
			("<a", " k>t"),
			("<a k=", ">t</a>"),
			("<a ", "=1>t</a>"),
			("<!--", "--"),
			("<title>", "</title >u"),
			("<p>", "</q>"),
			("<A></a", ">"),
		] {
			add(&format!("{}{}", before, x), "\u{20ac}", after, 230, shift + before.len());
		}
	}
	let names: String = (0..300).map(|i| format!(" K{}=v{}", i, i)).collect();
	add(&format!("<a{}", names), " j", ">t</a>", 1, 0);
	let ids: String = (0..300).map(|i| format!("<i id=x{}>t", i)).collect();
	add("", &ids.replace(">t", "></i>"), "<b id=x7>", 1, 1);
	v
}

/// thousands of nodes, as children or one in the other, recorded as 40 of them
fn pumped_lists() -> Vec<Case> {
	// before, piece, after, number of the first node, nodes per piece, options, how often
	let lists: [(&str, &str, &str, usize, usize, u32, usize); 12] = [
		("<p>", "<br>", "t</p>", 3, 1, 0, 3_000),
		("<p>", "<br/>", "t</p ", 3, 1, 8, 66_000),
		(" ", "<!--x-->", " <html></html>", 3, 1, 0, 2_000),
		("<p>", "<i></i>", "t</q></p> ", 3, 1, 16, 9_000),
		("<p>", "<b>t</b>", "</p>u", 3, 2, 0, 4_100),
		("<p>", "<b>t</b>", "<", 3, 2, 60, 700),
		("<svg>", "<g/>", "x</svg><g/>", 3, 1, 0, 1_500),
		("<p><i>", "<a>", "t", 4, 1, 8, 1_100),
		("", "<b>", "t", 2, 1, 8, 3_000),
		("<svg>", "<g>", "<a/>", 3, 1, 8, 600),
		("<pre>", "<b>", "  t ", 3, 1, 8 + 16, 530),
		("", "<pre>", "<x ", 2, 1, 8, 1_030),
	];
	lists
		.iter()
		.map(|(before, piece, after, s, c, bits, n)| Case {
			o: Opt::from_bits(*bits),
			src: format!("{}{}{}", before, piece.repeat(*n), after),
			from: "long",
			hist: None,
			pump: Some((
				before.to_string(),
				piece.to_string(),
				after.to_string(),
				*n,
				Some((*s, *c)),
			)),
			calls: vec![],
		})
		.collect()
}

/// the same with thousands of repetitions, recorded as 40 of them
fn pumped(prop: &str) -> Vec<Case> {
	let mut v = vec![];
	for (i, (before, piece, after, len)) in RUNS.iter().enumerate() {
		// a list of attributes is not a text; in a file CR LF is one character
		if before.starts_with("<!D") || (prop == "C22" && piece.contains('\r')) {
			continue;
		}
		let mut totals = vec![4_110, 8_210, 66_000];
		if piece.ends_with('\n') && ["C05", "C22"].contains(&prop) {
			totals.push(1_100_000);
		}
		for (k, total) in totals.iter().enumerate() {
			let n = 1 + total / len;
			v.push(Case {
				o: Opt::from_bits([60, 0, 56, 5][(i + k) % 4]),
				src: format!("{}{}{}", before, piece.repeat(n), after),
				from: "long",
				hist: None,
				calls: vec![],
				pump: Some((before.to_string(), piece.to_string(), after.to_string(), n, None)),
			});
		}
	}
	v
}

/// one element in the other, on a stack of the usual size: parse, render, clone, drop
fn deep(step: &str, n: usize) {
	let run = std::thread::Builder::new().stack_size(8 << 20);
	let (step, o) = (step.to_string(), Opt::from_bits(8));
	let done = run.spawn(move || {
		let p = parse(&"<b>".repeat(n), o);
		let d = p.doc().expect("accepted");
		match step.as_str() {
			"render" => println!("{}", render(d, RO(0), Inner::None).map_or(0, |t| t.len())),
			"clone" => std::mem::forget(d.get_root_node().borrow().clone_node()),
			_ => return,
		}
		std::mem::forget(p);
	});
	done.expect("thread").join().expect("no panic");
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a[1] == "deep" {
		return deep(&a[2], a[3].parse().unwrap());
	}
	let prop = a[1].clone();
	let shards: usize = a[4].parse().unwrap();
	let seed: u64 = a[5].parse().unwrap();
	let nrandom: usize = a[6].parse().unwrap();
	let nlong: usize = a[7].parse().unwrap();
	let scratch = PathBuf::from(&a[8]);
	let nsample: usize = a[9].parse().unwrap();
	let trace = std::env::var("RPH_TRACE").is_ok();
	std::panic::set_hook(Box::new(|_| {}));
	// parse_file with relative paths needs the current directory for itself
	let threads = if trace || prop == "C22" || prop == "C25" {
		1
	} else {
		shards
	};
	let curs: Vec<Cur> = (0..threads)
		.map(|_| Arc::new(Mutex::new((None, Instant::now()))))
		.collect();
	let watch = curs.clone();
	let hang_path = PathBuf::from(&a[3]).join("hang");
	let hang_file = hang_path.clone();
	std::thread::spawn(move || loop {
		std::thread::sleep(Duration::from_millis(500));
		for w in &watch {
			let g = w.lock().unwrap();
			if let (Some(c), true) = (&g.0, g.1.elapsed() > Duration::from_secs(30)) {
				let _ = std::fs::write(&hang_file, c.line());
				std::process::exit(7);
			}
		}
	});
	let pnum: u64 = prop[1..].parse().unwrap_or(0);
	let mut r = Rng::new(seed.wrapping_mul(1000).wrapping_add(pnum));
	let mut cases = read_cases(&a[2]);
	for path in &a[10..] {
		let f = filter_file(&prop, path, seed, &curs, trace);
		let total: usize = f.tags.values().map(|t| t.0).sum();
		println!("model {} {} {}", path, total, f.bad);
		for (t, v) in &f.tags {
			println!("tag {} {} {}", path, t, v.0);
		}
		let kept: Vec<String> = f.bads.iter().cloned().chain(f.sample(nsample)).collect();
		cases.extend(kept.iter().map(|l| case_of(l)));
	}
	let open = |i: usize| {
		let path = PathBuf::from(&a[3]).join(format!("t{}.ndjson", i));
		BufWriter::new(File::create(path).expect("shard"))
	};
	let make = |files: Vec<BufWriter<File>>, n: usize, step: usize, cur: Cur| Out {
		files,
		n,
		step,
		cur,
		trace,
		case: String::new(),
		mem: None,
	};
	if prop == "C25" {
		let mut out = make((0..shards).map(open).collect(), 0, 1, curs[0].clone());
		let names = cases.into_iter().map(|c| c.src).collect();
		run_classes(&mut out, names, nrandom, &mut r);
		for f in &mut out.files {
			f.flush().expect("flush");
		}
		return;
	}
	let pool = cases.len();
	let calls = ["C27", "C28", "C29", "C30"].contains(&prop.as_str());
	for _ in 0..(if calls { nrandom } else { 0 }) {
		cases.push(Case {
			o: Opt::default(),
			src: String::new(),
			from: "random",
			hist: None,
			pump: None,
			calls: hist::random(&prop, &mut r),
		});
	}
	for i in 0..(if calls { 0 } else { nrandom + nlong }) {
		let mut p = Profile::of(&prop);
		if r.pct(15) {
			p = Profile::base();
		}
		let mut o = gen::options(&prop, &mut r);
		let src = if i >= nrandom {
			Gen::new(&mut r, p).long(i)
		} else if pool > 0 && r.pct(25) {
			// a behaviour of the specification, slightly changed
			let c = cases[r.below(pool)].clone();
			if r.pct(60) {
				o = c.o;
			}
			let mut g = Gen::new(&mut r, p);
			g.mutate(&c.src)
		} else {
			Gen::new(&mut r, p).source()
		};
		cases.push(Case {
			o,
			src,
			from: if i < nrandom { "random" } else { "long" },
			hist: None,
			pump: None,
			calls: vec![],
		});
	}
	if nlong > 0 && ["C01", "C04", "C05", "C06", "C11", "C12", "C22", "C24"].contains(&prop.as_str()) {
		cases.extend(huge(&prop));
	}
	if nlong > 0 && !["C25", "C27", "C28", "C29", "C30"].contains(&prop.as_str()) {
		cases.extend(big(nlong > 28));
		cases.extend(pumped(&prop));
	}
	let whole = [
		"C02", "C03", "C04", "C05", "C06", "C10", "C11", "C12", "C14", "C22", "C23", "C24", "C26",
	];
	if nlong > 0 && whole.contains(&prop.as_str()) {
		cases.extend(pumped_lists());
	}
	let mut seen: HashSet<String> = HashSet::new();
	cases.retain(|c| seen.insert(c.line()));
	drop(seen);
	let per = if threads == 1 { shards } else { 1 };
	std::thread::scope(|sc| {
		for t in 0..threads {
			let files: Vec<_> = (t..t + per).map(open).collect();
			let mut out = make(files, t, threads, curs[t].clone());
			let (cases, prop, scratch, hang_file) = (&cases, &prop, &scratch, &hang_path);
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(sc, move || {
					for c in cases.iter().skip(t).step_by(threads) {
						if guard(|| run_case(&mut out, prop, c, seed, scratch)).is_none() {
							let _ = std::fs::write(hang_file, c.line());
							std::process::exit(8);
						}
					}
					*out.cur.lock().unwrap() = (None, Instant::now());
					for f in &mut out.files {
						f.flush().expect("flush");
					}
				})
				.expect("thread");
		}
	});
}
