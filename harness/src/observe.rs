//! What can be observed of the real code through its public interface.
use crate::json::{child_number, line_col, node_number, position, J, KEPT, PUMP};
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::error::{ErrorKind, ParseError};
use rphtml::parser::{Doc, DocHolder, Node, NodeType, RefNode};
use rphtml::types::BoxDynError;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::{Rc, Weak};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Opt {
	pub c: bool,
	pub e: bool,
	pub s: bool,
	pub u: bool,
	pub x: bool,
	pub l: bool,
}

impl Opt {
	pub fn from_bits(bits: u32) -> Self {
		Opt {
			c: bits & 1 > 0,
			e: bits & 2 > 0,
			s: bits & 4 > 0,
			u: bits & 8 > 0,
			x: bits & 16 > 0,
			l: bits & 32 > 0,
		}
	}
	pub fn bits(&self) -> u32 {
		self.c as u32
			| (self.e as u32) << 1
			| (self.s as u32) << 2
			| (self.u as u32) << 3
			| (self.x as u32) << 4
			| (self.l as u32) << 5
	}
	pub fn same(&self, p: &ParseOptions) -> bool {
		format!("{:?}", self.real()) == format!("{:?}", p)
	}
	pub fn real(&self) -> ParseOptions {
		ParseOptions {
			case_sensitive_tagname: self.c,
			allow_attr_key_starts_with_equal_sign: self.e,
			allow_self_closing: self.s,
			auto_fix_unclosed_tag: self.u,
			auto_fix_unexpected_endtag: self.x,
			auto_fix_unescaped_lt: self.l,
			..Default::default()
		}
	}
	pub fn json(&self, j: &mut J) {
		j.obj();
		for (k, v) in [
			("c", self.c),
			("e", self.e),
			("s", self.s),
			("u", self.u),
			("x", self.x),
			("l", self.l),
		] {
			j.key(k).boolean(v);
		}
		j.end_obj();
	}
}

/// render options; the bits are m l e q c v d n
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct RO(pub u32);

impl RO {
	pub fn real(&self, inner: Inner) -> RenderOptions {
		let b = |i: u32| self.0 & (1 << i) > 0;
		RenderOptions {
			minify_spaces: b(0),
			lowercase_tagname: b(1),
			remove_endtag_space: b(2),
			remove_attr_quote: b(3),
			remove_comment: b(4),
			always_close_void: b(5),
			inner_html: inner == Inner::Html,
			decode_entity: b(6),
			encode_content: b(7),
			..Default::default()
		}
	}
	pub fn json(&self, j: &mut J) {
		j.obj();
		for (i, k) in ["m", "l", "e", "q", "c", "v", "d", "n"].iter().enumerate() {
			j.key(k).boolean(self.0 & (1 << i) > 0);
		}
		j.end_obj();
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Inner {
	None,
	Html,
	Text,
}

impl Inner {
	pub fn word(&self) -> &'static str {
		match self {
			Inner::None => "none",
			Inner::Html => "html",
			Inner::Text => "text",
		}
	}
}

/// run code under test; None: it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
	catch_unwind(AssertUnwindSafe(f)).ok()
}

#[derive(Clone)]
pub struct ErrObs {
	pub kind: String,
	pub args: Vec<String>,
	pub line: i64,
	pub col: i64,
	pub index: i64,
	pub disp: String,
	pub kind_disp: String,
}

pub fn observe_err(e: &BoxDynError) -> ErrObs {
	match e.downcast_ref::<ParseError>() {
		None => ErrObs {
			kind: "Io".into(),
			args: vec![],
			line: -1,
			col: -1,
			index: -1,
			disp: String::new(),
			kind_disp: String::new(),
		},
		Some(pe) => {
			use ErrorKind::*;
			let (kind, args): (&str, Vec<String>) = match &pe.kind {
				WrongTag(a) => ("WrongTag", vec![a.clone()]),
				WrongEndTag(a) => ("WrongEndTag", vec![a.clone()]),
				ChildInSpecialTag(a, c) => ("ChildInSpecialTag", vec![a.clone(), c.to_string()]),
				UnmatchedClosedTag(a) => ("UnmatchedClosedTag", vec![a.clone()]),
				UnexpectedCharacter(c) => ("UnexpectedCharacter", vec![c.to_string()]),
				UnclosedTag(a) => ("UnclosedTag", vec![a.clone()]),
				NoSpaceBetweenAttr(c) => ("NoSpaceBetweenAttr", vec![c.to_string()]),
				WrongHtmlDoctype(c) => ("WrongHtmlDoctype", vec![c.to_string()]),
				UnrecognizedTag(a, b) => ("UnrecognizedTag", vec![a.clone(), b.clone()]),
				WrongTagIdentity(a) => ("WrongTagIdentity", vec![a.clone()]),
				WrongRootTextNode(a) => ("WrongRootTextNode", vec![a.clone()]),
				WrongCaseSensitive(a) => ("WrongCaseSensitive", vec![a.clone()]),
				WrongSelfClosing(a) => ("WrongSelfClosing", vec![a.clone()]),
				CommonError(a) => ("CommonError", vec![a.clone()]),
			};
			// the region is only observable through its display
			let region = pe.region.to_string();
			let nums: Vec<i64> = region
				.split(|c: char| !c.is_ascii_digit())
				.filter(|s| !s.is_empty())
				.filter_map(|s| s.parse().ok())
				.collect();
			let n = |i: usize| nums.get(i).copied().unwrap_or(-1);
			ErrObs {
				kind: kind.into(),
				args,
				line: n(0),
				col: n(1),
				index: n(2),
				disp: pe.to_string(),
				kind_disp: pe.kind.to_string(),
			}
		}
	}
}

pub fn err_json(j: &mut J, e: &Option<ErrObs>) {
	j.arr();
	if let Some(e) = e {
		j.obj();
		j.key("k").word(&e.kind);
		j.key("a").arr();
		for a in &e.args {
			j.text(a);
		}
		j.end_arr();
		let ((line, col), index) = (line_col(e.line, e.col), position(e.index));
		let place = |l: i64, c: i64, i: i64| format!("[line:{},col:{},index:{}]", l, c, i);
		j.key("line").num(line);
		j.key("col").num(col);
		j.key("i").num(index);
		j.key("disp")
			.text(&e.disp.replace(&place(e.line, e.col, e.index), &place(line, col, index)));
		j.key("kd").text(&e.kind_disp);
		j.end_obj();
	}
	j.end_arr();
}

pub enum Parsed {
	Ok(DocHolder),
	Err(ErrObs),
	Panic,
}

impl Parsed {
	pub fn word(&self) -> &'static str {
		match self {
			Parsed::Ok(_) => "ok",
			Parsed::Err(_) => "err",
			Parsed::Panic => "panic",
		}
	}
	pub fn err(&self) -> Option<ErrObs> {
		match self {
			Parsed::Err(e) => Some(e.clone()),
			_ => None,
		}
	}
	pub fn doc(&self) -> Option<&DocHolder> {
		match self {
			Parsed::Ok(d) => Some(d),
			_ => None,
		}
	}
}

pub fn parse(src: &str, o: Opt) -> Parsed {
	match guard(|| Doc::parse(src, o.real()).map_err(|e| observe_err(&e))) {
		None => Parsed::Panic,
		Some(Ok(d)) => Parsed::Ok(d),
		Some(Err(e)) => Parsed::Err(e),
	}
}

pub fn parse_file(path: &std::path::Path, o: Opt) -> Parsed {
	match guard(|| Doc::parse_file(path, o.real()).map_err(|e| observe_err(&e))) {
		None => Parsed::Panic,
		Some(Ok(d)) => Parsed::Ok(d),
		Some(Err(e)) => Parsed::Err(e),
	}
}

pub fn type_word(t: NodeType) -> &'static str {
	match t {
		NodeType::AbstractRoot => "Root",
		NodeType::HTMLDOCTYPE => "Doctype",
		NodeType::Comment => "Comment",
		NodeType::Text => "Text",
		NodeType::SpacesBetweenTag => "Spaces",
		NodeType::Tag => "Tag",
		NodeType::TagEnd => "TagEnd",
		NodeType::XMLCDATA => "CData",
	}
}

/// the nodes in document order, with the (1-based) number of the parent
pub fn flatten(root: &RefNode) -> Vec<(RefNode, usize)> {
	let mut out = vec![];
	let mut stack = vec![(Rc::clone(root), 0usize)];
	while let Some((n, p)) = stack.pop() {
		out.push((Rc::clone(&n), p));
		let me = out.len();
		if let Some(childs) = &n.borrow().childs {
			for c in childs.iter().rev() {
				stack.push((Rc::clone(c), me));
			}
		}
	}
	out
}

fn links(w: &Option<Weak<RefCell<Node>>>, to: &RefNode) -> bool {
	match w {
		Some(w) => w.upgrade().map_or(false, |r| Rc::ptr_eq(&r, to)),
		None => false,
	}
}

fn dangling(w: &Option<Weak<RefCell<Node>>>) -> bool {
	w.as_ref().map_or(false, |w| w.upgrade().is_none())
}

/// the nodes of a pumped list that are not recorded: those that repeat the last recorded ones
fn repeated(flat: &[(RefNode, usize)]) -> std::ops::Range<usize> {
	if let Some((pump, (s, c))) = PUMP.with(|p| p.get()).and_then(|p| p.list.map(|l| (p, l))) {
		let range = s - 1 + KEPT * c..s - 1 + pump.n * c;
		let like = |i: usize| {
			let (a, b) = (&flat[i - c], &flat[i]);
			let nested = a.1 + c == b.1;
			let (x, y) = (a.0.borrow(), b.0.borrow());
			let name = |n: &Node| n.meta.as_ref().map(|m| m.borrow().name.clone());
			let flags = |n: &Node| n.meta.as_ref().map(|m| (m.borrow().is_void, m.borrow().self_closed, m.borrow().auto_fix));
			let kids = |n: &Node| n.childs.as_ref().map_or(0, |c| c.len());
			let end = |n: &Node| n.end_tag.as_ref().map(|e| e.borrow().content.clone());
			let place = |n: &Node| n.end_tag.as_ref().map_or(0, |e| e.borrow().begin_at);
			x.node_type == y.node_type
				&& x.begin_at + pump.len == y.begin_at
				&& x.end_at + pump.len == y.end_at
				&& x.content == y.content
				&& name(&x) == name(&y)
				&& flags(&x) == flags(&y)
				&& kids(&x) == kids(&y)
				&& end(&x) == end(&y)
				&& (place(&x) == place(&y) || place(&x) + pump.len == place(&y))
				&& (if nested || x.index == y.index {
					x.index == y.index
				} else {
					a.1 == b.1 && x.index + 1 == y.index
				})
				&& (nested || a.1 == b.1)
				&& links(&y.parent, &flat[b.1 - 1].0)
				&& y.end_tag.as_ref().map_or(true, |e| links(&e.borrow().parent, &b.0))
		};
		if flat.len() >= range.end && range.clone().all(like) {
			return range;
		}
	}
	0..0
}

pub fn nodes_json(j: &mut J, root: &RefNode) {
	let flat = flatten(root);
	let skip = repeated(&flat);
	j.arr();
	for (i, (n, p)) in flat.iter().enumerate() {
		if skip.contains(&i) {
			continue;
		}
		let node = n.borrow();
		j.obj();
		j.key("t").word(type_word(node.node_type));
		j.key("b").num(position(node.begin_at as i64));
		j.key("e").num(position(node.end_at as i64));
		j.key("p").num(if skip.is_empty() { *p as i64 } else { node_number(*p as i64) });
		j.key("i").num(child_number(node.index as i64));
		j.key("k")
			.num(child_number(node.childs.as_ref().map_or(0, |c| c.len()) as i64));
		j.key("c").opt_chars(&node.content);
		j.key("m").boolean(node.meta.is_some());
		let meta = node.meta.as_ref().map(|m| m.borrow());
		j.key("name");
		match &meta {
			Some(m) => j.chars(&m.name),
			None => j.arr().end_arr(),
		};
		j.key("at").arr();
		let mut map: Vec<(String, usize)> = vec![];
		if let Some(m) = &meta {
			for a in &m.attrs {
				j.obj();
				j.key("k").arr();
				if let Some(k) = &a.key {
					j.chars(&k.content);
				}
				j.end_arr();
				j.key("v").arr();
				if let Some(v) = &a.value {
					j.chars(&v.content);
				}
				j.end_arr();
				j.key("q").arr();
				if let Some(q) = &a.quote {
					j.num(*q as u32 as i64);
				}
				j.end_arr();
				j.key("nq").boolean(a.need_quote);
				j.end_obj();
			}
			map = m.lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect();
			map.sort();
		}
		j.end_arr();
		j.key("map").arr();
		for (k, v) in &map {
			j.arr().text(k).num(*v as i64).end_arr();
		}
		j.end_arr();
		j.key("vo").boolean(meta.as_ref().map_or(false, |m| m.is_void));
		j.key("sc").boolean(meta.as_ref().map_or(false, |m| m.self_closed));
		j.key("af").boolean(meta.as_ref().map_or(false, |m| m.auto_fix));
		j.key("et").arr();
		if let Some(et) = &node.end_tag {
			let e = et.borrow();
			j.obj();
			j.key("c");
			match &e.content {
				Some(c) => j.chars(c),
				None => j.arr().end_arr(),
			};
			j.key("b").num(position(e.begin_at as i64));
			j.key("e").num(position(e.end_at as i64));
			// the end tag knows its element, has the right type, and carries nothing else
			j.key("ok")
				.boolean(links(&e.parent, n) && e.node_type == NodeType::TagEnd && e.content.is_some() && e.childs.is_none());
			j.end_obj();
		}
		j.end_arr();
		// links: to the parent, and to the root of the tree
		let parent_ok = if *p == 0 {
			node.parent.is_none()
		} else {
			links(&node.parent, &flat[*p - 1].0)
		};
		j.key("lp").boolean(parent_ok);
		j.key("lr").boolean(links(&node.root, root));
		// no link to something that does not exist any more
		j.key("ld").boolean(!dangling(&node.parent) && !dangling(&node.prev));
		// a previous sibling, if recorded, is the previous sibling
		let prev_ok = match &node.prev {
			None => true,
			Some(w) => match w.upgrade() {
				None => false,
				Some(r) => {
					*p > 0 && {
						let parent = flat[*p - 1].0.borrow();
						let cs = parent.childs.as_ref().unwrap();
						let at = cs.iter().position(|c| Rc::ptr_eq(c, n)).unwrap();
						at > 0 && Rc::ptr_eq(&cs[at - 1], &r)
					}
				}
			},
		};
		j.key("lv").boolean(prev_ok);
		j.end_obj();
	}
	j.end_arr();
}

/// rendering of a node; None: panic
pub fn build(node: &RefNode, ro: RO, inner: Inner) -> Option<Vec<char>> {
	guard(|| node.borrow().build(&ro.real(inner), inner == Inner::Text))
}

/// rendering through the document
pub fn render(doc: &DocHolder, ro: RO, inner: Inner) -> Option<Vec<char>> {
	guard(|| {
		if inner == Inner::Text {
			doc.render_text(&ro.real(inner))
		} else {
			doc.render(&ro.real(inner))
		}
	})
	.map(|s| s.chars().collect())
}

/// the references in a text and what they stand for (the environment)
pub fn entities(texts: &[Vec<char>]) -> Vec<(Vec<char>, Option<char>)> {
	let mut out: Vec<(Vec<char>, Option<char>)> = vec![];
	for t in texts {
		let mut start: Option<usize> = None;
		for (i, c) in t.iter().enumerate() {
			match c {
				'&' => start = Some(i + 1),
				';' => {
					if let Some(s) = start {
						let name = t[s..i].to_vec();
						if !out.iter().any(|(n, _)| n == &name) {
							let r = guard(|| rphtml::entity::Entity::decode_chars(&name).ok()).flatten();
							out.push((name, r));
						}
					}
					start = None;
				}
				_ => {}
			}
		}
	}
	out
}

pub fn all_texts(root: &RefNode) -> Vec<Vec<char>> {
	flatten(root)
		.iter()
		.filter_map(|(n, _)| n.borrow().content.clone())
		.collect()
}
