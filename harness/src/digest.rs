//! The digest of spec/Digest.tla, computed from the real code.
//!
//! A behaviour emitted by the model checker carries the digest that the specification expects. `suspect` says whether
//! the real code shows something else; such a case is recorded in full and judged by the specification.
use crate::observe::*;
use rphtml::parser::{DocHolder, NodeType, RefNode};
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct H(pub i64);

impl H {
	pub fn mix(self, x: i64) -> H {
		H((self.0 * 37 + x + 2) % 1_000_003)
	}
	fn texts<'a>(self, t: impl ExactSizeIterator<Item = &'a char>) -> H {
		let mut h = self.mix(t.len() as i64);
		for c in t {
			h = h.mix(*c as u32 as i64);
		}
		h
	}
	pub fn text(self, t: &[char]) -> H {
		self.texts(t.iter())
	}
	fn b(self, b: bool) -> H {
		self.mix(b as i64)
	}
	fn opt(self, t: Option<&[char]>) -> H {
		match t {
			None => self.mix(0),
			Some(t) => self.mix(1).text(t),
		}
	}
}

fn type_code(t: NodeType) -> i64 {
	match t {
		NodeType::AbstractRoot => 1,
		NodeType::HTMLDOCTYPE => 2,
		NodeType::Comment => 3,
		NodeType::Text => 4,
		NodeType::SpacesBetweenTag => 5,
		NodeType::Tag => 6,
		NodeType::TagEnd => 7,
		NodeType::XMLCDATA => 8,
	}
}

fn kind_code(k: &str) -> i64 {
	[
		"WrongTag",
		"WrongEndTag",
		"UnclosedTag",
		"WrongHtmlDoctype",
		"UnrecognizedTag",
		"WrongCaseSensitive",
		"WrongSelfClosing",
		"CommonError",
	]
	.iter()
	.position(|x| *x == k)
	.map_or(99, |i| i as i64 + 1)
}

type Flat = Vec<(RefNode, usize)>;

fn d_struct(mut h: H, flat: &Flat) -> H {
	h = h.mix(flat.len() as i64);
	for (n, p) in flat {
		let n = n.borrow();
		let kids = n.childs.as_ref().map_or(0, |c| c.len());
		h = h
			.mix(type_code(n.node_type))
			.mix(*p as i64)
			.mix(kids as i64)
			.opt(n.content.as_deref());
		h = match &n.meta {
			None => h.text(&[]).b(false).b(false),
			Some(m) => {
				let m = m.borrow();
				h.text(&m.name).b(m.is_void).b(m.self_closed)
			}
		};
		h = match &n.end_tag {
			None => h.opt(None),
			Some(e) => h.opt(Some(e.borrow().content.as_deref().unwrap_or(&[]))),
		};
	}
	h
}

fn d_attrs(mut h: H, flat: &Flat, ok: &mut bool) -> H {
	h = h.mix(flat.len() as i64);
	for (n, _) in flat {
		if let Some(m) = &n.borrow().meta {
			let m = m.borrow();
			h = h.mix(m.attrs.len() as i64);
			for a in &m.attrs {
				h = h.opt(a.key.as_ref().map(|k| &k.content[..]));
				h = h.opt(a.value.as_ref().map(|v| &v.content[..]));
				h = match a.quote {
					None => h.mix(0),
					Some(q) => h.mix(1).mix(q as u32 as i64),
				};
			}
			// the name lookup: the first attribute of each name
			let mut want = std::collections::HashMap::new();
			for (i, a) in m.attrs.iter().enumerate() {
				if let Some(k) = &a.key {
					let k: String = k.content.iter().map(|c| c.to_ascii_lowercase()).collect();
					want.entry(k).or_insert(i);
				}
			}
			if want != m.lc_name_map.iter().map(|(k, v)| (k.clone(), *v)).collect() {
				*ok = false;
			}
		}
	}
	h
}

fn d_ranges(mut h: H, flat: &Flat, d: &DocHolder, ok: &mut bool) -> H {
	let root = d.get_root_node();
	h = h.mix(flat.len() as i64);
	for (r, p) in flat {
		let n = r.borrow();
		let (b, e) = (n.begin_at as i64, n.end_at as i64);
		let open = e == b || e == 0 || n.node_type == NodeType::AbstractRoot;
		h = h.mix(b).mix(if open { 0 } else { e }).mix(n.index as i64);
		let fixed = n.meta.as_ref().map_or(false, |m| m.borrow().auto_fix);
		h = match &n.end_tag {
			Some(t) if !fixed => {
				let t = t.borrow();
				h.mix(t.begin_at as i64).mix(t.end_at as i64)
			}
			_ => h.mix(0),
		};
		let to = |w: &Option<std::rc::Weak<std::cell::RefCell<rphtml::parser::Node>>>, t: &RefNode| {
			w.as_ref()
				.and_then(|w| w.upgrade())
				.map_or(false, |x| Rc::ptr_eq(&x, t))
		};
		let parent = if *p == 0 {
			n.parent.is_none()
		} else {
			to(&n.parent, &flat[*p - 1].0)
		};
		let end = n.end_tag.as_ref().map_or(true, |t| to(&t.borrow().parent, r));
		if !(parent && end && to(&n.root, &root)) {
			*ok = false;
		}
	}
	h
}

/// the digest of the specification, and whether everything else that can be seen at once is right
fn digest(prop: &str, src: &str, o: Opt) -> (i64, bool) {
	let p = parse(src, o);
	let mut fine = true;
	let d = match &p {
		Parsed::Panic => return (-1, false),
		Parsed::Err(e) => {
			let mut h = H(1).mix(kind_code(&e.kind));
			for a in &e.args {
				let cs: Vec<char> = a.chars().collect();
				h = h.text(&cs);
			}
			return match prop {
				"C04" | "C08" | "C09" | "C11" | "C12" | "C14" | "C26" => (h.0, true),
				"C05" => (
					h.mix(e.index).mix(e.line).mix(e.col).0,
					e.disp == format!("[line:{},col:{},index:{}]{}", e.line, e.col, e.index, e.kind_disp),
				),
				"C10" => (h.mix(e.index).0, true),
				_ => (0, true),
			};
		}
		Parsed::Ok(d) => d,
	};
	let root = d.get_root_node();
	let mut ren = |h: H, ro: u32| match render(d, RO(ro), Inner::None) {
		Some(t) => h.text(&t),
		None => {
			fine = false;
			h
		}
	};
	let plain = 0;
	let h = match prop {
		"C02" => ren(H(1), plain),
		"C03" => {
			if o.e {
				return (0, true);
			}
			let t = render(d, RO(0), Inner::None).unwrap_or_default();
			let s: String = t.iter().collect();
			let q = parse(&s, o);
			fine = q.doc().and_then(|d| render(d, RO(0), Inner::None)).as_ref() == Some(&t);
			H(1).text(&t)
		}
		"C04" | "C05" => H(0),
		"C06" => d_struct(H(1), &flatten(&root)),
		"C07" => d_attrs(H(1), &flatten(&root), &mut fine),
		"C08" | "C09" | "C10" | "C11" | "C12" | "C14" | "C26" => {
			let flat = flatten(&root);
			let mut any = true;
			let mut h = d_attrs(d_struct(H(1), &flat), &flat, &mut any);
			for (n, _) in &flat {
				h = h.b(n.borrow().meta.as_ref().map_or(false, |m| m.borrow().auto_fix));
			}
			ren(h, plain)
		}
		"C15" | "C16" => {
			let ro = if prop == "C15" { 1 } else { 8 };
			let h = ren(H(1), ro);
			if !o.e {
				let t = render(d, RO(ro), Inner::None).unwrap_or_default();
				let s: String = t.iter().collect();
				let q = parse(&s, o);
				fine = fine && q.doc().and_then(|d| render(d, RO(ro), Inner::None)) == Some(t);
			}
			h
		}
		"C17" => [2, 4, 16, 32, 54].iter().fold(H(1), |h, ro| ren(h, *ro)),
		"C18" => {
			let mut h = H(1);
			let flat = flatten(&root);
			let count = match flat.len() {
				n if n > 100 => 6,
				n => n.min(41) - 1,
			};
			for (n, _) in flat.iter().skip(1).take(count) {
				for inner in [Inner::Html, Inner::Text] {
					h = h.opt(build(n, RO(0), inner).as_deref());
				}
			}
			h
		}
		"C19" => [64, 128, 65].iter().fold(H(1), |h, ro| ren(h, *ro)),
		"C21" => {
			let flat = flatten(&root);
			let mut h = H(1);
			for (n, _) in &flat {
				if let Some(m) = &n.borrow().meta {
					for a in &m.borrow().attrs {
						if let (Some(k), Some(v)) = (&a.key, &a.value) {
							let k: String = k.content.iter().collect();
							let v: String = v.content.iter().collect();
							if k.eq_ignore_ascii_case("id") {
								let hit = guard(|| d.get_element_by_id(&v)).flatten();
								let i = hit.and_then(|x| flat.iter().position(|(y, _)| Rc::ptr_eq(&x, y)));
								h = h.mix(i.map_or(0, |i| i as i64 + 1));
							}
						}
					}
				}
			}
			let mut known: Vec<String> = d.borrow().id_tags.borrow().keys().cloned().collect();
			known.extend(["", "x", "X", "y", "id"].iter().map(|k| k.to_string()));
			for k in &known {
				// an id that no attribute has is not found
				let some = flat.iter().any(|(n, _)| {
					n.borrow().meta.as_ref().map_or(false, |m| {
						m.borrow().attrs.iter().any(|a| match (&a.key, &a.value) {
							(Some(n), Some(v)) => {
								n.content.len() == 2
									&& n.content.iter().collect::<String>().eq_ignore_ascii_case("id")
									&& v.content.iter().collect::<String>() == *k
							}
							_ => false,
						})
					})
				});
				if guard(|| d.get_element_by_id(k)).flatten().is_some() != some {
					fine = false;
				}
			}
			h
		}
		"C23" => {
			let mut h = H(1);
			for (n, _) in &flatten(&root) {
				match guard(|| n.borrow().is_document()) {
					Some((a, b)) => h = h.b(a).b(b),
					None => fine = false,
				}
			}
			h
		}
		"C24" => {
			let up = root.borrow().document.as_ref().and_then(|w| w.upgrade());
			let up = up.map_or(false, |doc| Rc::ptr_eq(&doc.borrow().root, &root));
			let h = d_ranges(H(1), &flatten(&root), d, &mut fine);
			fine = fine && up;
			h
		}
		_ => H(0),
	};
	(h.0, fine)
}

/// more options must not change an accepted document: the added options for which they do
pub fn changed_by(src: &str, o: Opt) -> Vec<u32> {
	let look = |o: Opt| {
		let p = parse(src, o);
		p.doc().map(|d| {
			let flat = flatten(&d.get_root_node());
			let mut ok = true;
			let h = d_ranges(d_attrs(d_struct(H(1), &flat), &flat, &mut ok), &flat, d, &mut ok);
			(h.0, ok, render(d, RO(0), Inner::None))
		})
	};
	let a = look(o);
	if a.is_none() {
		return vec![];
	}
	[2u32, 4, 8, 16, 32, 62]
		.into_iter()
		.filter(|add| look(Opt::from_bits(o.bits() | add)) != a)
		.collect()
}

pub fn suspect(prop: &str, src: &str, o: Opt, want: i64) -> bool {
	match prop {
		"C13" => !changed_by(src, o).is_empty(),
		_ => {
			let (h, fine) = digest(prop, src, o);
			h != want || !fine
		}
	}
}
