//! Edits of a tree through the public fields, with the same meaning as in HtmlEdit.tla.
use crate::json::J;
use crate::observe::flatten;
use crate::rng::Rng;
use rphtml::parser::{Attr, AttrData, Node, NodeType, RefNode, TagMeta};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Op {
	pub side: usize, // 0: the original tree, 1: the clone
	pub op: String,
	pub n: usize,  // number of the node in document order, from 1
	pub at: usize, // position among the children / attributes, from 0
	pub text: Vec<char>,
	pub key: Option<Vec<char>>,
	pub val: Option<Vec<char>>,
	pub quote: Option<char>,
	pub nq: bool,
}

impl Op {
	pub fn new(side: usize, op: &str, n: usize, at: usize, text: &str) -> Self {
		Op {
			side,
			op: op.into(),
			n,
			at,
			text: text.chars().collect(),
			key: None,
			val: None,
			quote: None,
			nq: false,
		}
	}
	pub fn json(&self, j: &mut J) {
		j.key("side").num(self.side as i64);
		j.key("op").word(&self.op);
		j.key("n").num(self.n as i64);
		j.key("at").num(self.at as i64);
		j.key("text").chars(&self.text);
		j.key("attr").obj();
		j.key("k").opt_chars(&self.key);
		j.key("v").opt_chars(&self.val);
		j.key("q").arr();
		if let Some(q) = self.quote {
			j.num(q as u32 as i64);
		}
		j.end_arr();
		j.key("nq").boolean(self.nq);
		j.end_obj();
	}
}

pub fn leaf(op: &str, text: &[char], at: usize) -> RefNode {
	let mut node = match op {
		"insText" => Node::new(NodeType::Text, 0),
		"insSpaces" => Node::new(NodeType::SpacesBetweenTag, 0),
		"insComment" => Node::new(NodeType::Comment, 0),
		"insCData" => Node::new(NodeType::XMLCDATA, 0),
		_ => Node::new(NodeType::Tag, 0),
	};
	node.index = at;
	let node = if op == "insTag" {
		let mut meta = TagMeta::default();
		meta.name = text.to_vec();
		node.meta = Some(RefCell::new(meta));
		let rc = Rc::new(RefCell::new(node));
		let mut end = Node::new(NodeType::TagEnd, 0);
		end.content = Some(text.to_vec());
		end.parent = Some(Rc::downgrade(&rc));
		rc.borrow_mut().end_tag = Some(Rc::new(RefCell::new(end)));
		rc
	} else {
		node.content = Some(text.to_vec());
		Rc::new(RefCell::new(node))
	};
	node
}

fn data(content: Vec<char>) -> AttrData {
	AttrData {
		content,
		..Default::default()
	}
}

/// apply an edit; an edit that does not apply does nothing
pub fn apply(root: &RefNode, op: &Op) {
	let flat = flatten(root);
	if op.n < 1 || op.n > flat.len() {
		return;
	}
	let (node, parent) = (Rc::clone(&flat[op.n - 1].0), flat[op.n - 1].1);
	let t = node.borrow().node_type;
	match op.op.as_str() {
		"content" => {
			let ok = match t {
				NodeType::Text | NodeType::SpacesBetweenTag | NodeType::Comment | NodeType::XMLCDATA => true,
				NodeType::Tag => node.borrow().content.is_some(),
				_ => false,
			};
			if ok {
				node.borrow_mut().content = Some(op.text.clone());
			}
		}
		"append" => {
			// change in place, through a borrowed content
			if let Some(c) = &mut node.borrow_mut().content {
				c.extend_from_slice(&op.text);
			}
		}
		"poke" => {
			// change in place, of the same length
			if let Some(c) = &mut node.borrow_mut().content {
				if let (Some(x), Some(y)) = (c.first_mut(), op.text.first()) {
					*x = *y;
				}
			}
		}
		"rename" => {
			if t == NodeType::Tag {
				if let Some(m) = &node.borrow().meta {
					m.borrow_mut().name = op.text.clone();
				}
			}
		}
		"attr" => {
			if t == NodeType::Tag {
				if let Some(m) = &node.borrow().meta {
					m.borrow_mut().attrs.push(Attr {
						key: op.key.clone().map(data),
						value: op.val.clone().map(data),
						quote: op.quote,
						need_quote: op.nq,
						..Default::default()
					});
				}
			}
		}
		"delattr" => {
			if t == NodeType::Tag {
				if let Some(m) = &node.borrow().meta {
					let mut m = m.borrow_mut();
					if op.at < m.attrs.len() {
						m.attrs.remove(op.at);
					}
				}
			}
		}
		"endtag" => {
			let node = node.borrow();
			if let Some(et) = &node.end_tag {
				et.borrow_mut().content = Some(op.text.clone());
			}
		}
		"noend" => {
			node.borrow_mut().end_tag = None;
		}
		"selfclose" | "void" => {
			if t == NodeType::Tag {
				if let Some(m) = &node.borrow().meta {
					let mut m = m.borrow_mut();
					if op.op == "void" {
						m.is_void = !m.is_void;
					} else {
						m.self_closed = !m.self_closed;
					}
				}
			}
		}
		"type" => {
			let to = match t {
				NodeType::Text => NodeType::SpacesBetweenTag,
				NodeType::SpacesBetweenTag => NodeType::Text,
				other => other,
			};
			node.borrow_mut().node_type = to;
		}
		"remove" => {
			if parent > 0 {
				let p = &flat[parent - 1].0;
				if let Some(cs) = &mut p.borrow_mut().childs {
					cs.retain(|c| !Rc::ptr_eq(c, &node));
				}
			}
		}
		_ if op.op.starts_with("ins") => {
			if t == NodeType::Tag || t == NodeType::AbstractRoot {
				let child = leaf(&op.op, &op.text, op.at);
				child.borrow_mut().parent = Some(Rc::downgrade(&node));
				let mut b = node.borrow_mut();
				let cs = b.childs.get_or_insert_with(Vec::new);
				if op.at <= cs.len() {
					cs.insert(op.at, child);
				}
				if b.childs.as_ref().map_or(false, |c| c.is_empty()) {
					b.childs = None;
				}
			}
		}
		_ => {}
	}
}

const NAMES: [&str; 12] = [
	"a", "B", "pre", "PRE", "br", "Title", "script", "svg", "x", "textarea", "div", "Pre",
];
const TEXTS: [&str; 14] = [
	"t",
	" ",
	"  a  b ",
	"\n",
	"&lt;",
	"<&>",
	"a &amp;  b",
	"",
	"x\t\ty",
	"\u{e9}",
	"&#60;  ;",
	"\r\n  q",
	"&",
	" &gt; ",
];
const ENDS: [&str; 8] = ["a", "B ", "pre\n", "br", "x \t", "", "TITLE  ", "P"];

pub fn random_op(root: &RefNode, side: usize, r: &mut Rng) -> Op {
	let flat = flatten(root);
	let n = 1 + r.below(flat.len());
	let kids = flat[n - 1].0.borrow().childs.as_ref().map_or(0, |c| c.len());
	let op = r.pick(&[
		"content",
		"content",
		"append",
		"poke",
		"rename",
		"rename",
		"attr",
		"attr",
		"delattr",
		"endtag",
		"noend",
		"selfclose",
		"void",
		"type",
		"remove",
		"insText",
		"insText",
		"insSpaces",
		"insComment",
		"insCData",
		"insTag",
		"insTag",
	]);
	let mut o = Op::new(side, op, n, r.below(kids + 1), "");
	o.text = match op {
		"rename" | "insTag" => r.pick(&NAMES).chars().collect(),
		"endtag" => r.pick(&ENDS).chars().collect(),
		"insSpaces" => [" ", "\n ", "\t"][r.below(3)].chars().collect(),
		_ => r.pick(&TEXTS).chars().collect(),
	};
	if op == "attr" {
		let keys = ["k", "ID", "class", "x"];
		let vals = ["v", "", "a b", "x\"y", "a=b", "/"];
		if !r.pct(10) {
			o.key = Some(r.pick(&keys).chars().collect());
		}
		if !r.pct(20) {
			o.val = Some(r.pick(&vals).chars().collect());
			o.quote = [None, Some('"'), Some('\'')][r.below(3)];
			o.nq = r.pct(40);
		}
	}
	if op == "delattr" {
		o.at = r.below(3);
	}
	o
}
