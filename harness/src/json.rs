//! A small JSON writer: the records are written by hand, no dependency is needed.
use std::cell::Cell;

/// A source in which a piece of `len` characters is repeated `n` times is recorded as if it were repeated `KEPT` times:
/// where a text has the n repetitions (of the piece, or of what became of it), n - KEPT of them are left out, and positions
/// behind them are moved back.  What the code lost or changed on the way is not n repetitions and is recorded as it is.
pub const KEPT: usize = 40;
#[derive(Clone, Copy)]
pub struct Pump {
	pub n: usize,
	pub len: usize,
	pub lines: bool,
	pub list: Option<(usize, usize)>, // a list of nodes: number of the first, nodes per piece
}
thread_local! {
	pub static PUMP: Cell<Option<Pump>> = Cell::new(None);
}

fn shrink(cs: Vec<char>, p: Pump) -> Vec<char> {
	let mut cs = cs;
	for u in 1..=12 {
		let mut at = 0;
		while at + u < cs.len() {
			let same = (at..cs.len() - u).take_while(|j| cs[*j] == cs[*j + u]).count();
			let count = (same + u) / u;
			if count + 2 >= p.n && count <= p.n + 4 {
				cs.drain(at..at + (p.n - KEPT) * u);
				at += KEPT * u;
			} else {
				at += same + 1;
			}
		}
	}
	cs
}

/// a position (or a column) in the source
pub fn position(v: i64) -> i64 {
	match PUMP.with(|p| p.get()) {
		Some(p) if v >= (p.n * p.len) as i64 => v - ((p.n - KEPT) * p.len) as i64,
		_ => v,
	}
}

/// the number of a node
pub fn node_number(v: i64) -> i64 {
	match PUMP.with(|p| p.get()) {
		Some(Pump {
			n, list: Some((s, c)), ..
		}) if v >= (s + KEPT * c) as i64 => v - ((n - KEPT) * c) as i64,
		_ => v,
	}
}

/// the number of children, or the place among them
pub fn child_number(v: i64) -> i64 {
	match PUMP.with(|p| p.get()) {
		Some(Pump { n, list: Some(_), .. }) if v >= n as i64 => v - (n - KEPT) as i64,
		_ => v,
	}
}

/// line and column
pub fn line_col(line: i64, col: i64) -> (i64, i64) {
	match PUMP.with(|p| p.get()) {
		Some(p) if p.lines => {
			if line >= p.n as i64 {
				(line - (p.n - KEPT) as i64, col)
			} else {
				(line, col)
			}
		}
		_ => (line, position(col)),
	}
}

pub struct J(pub String);

impl J {
	pub fn new() -> Self {
		J(String::with_capacity(4096))
	}
	fn sep(&mut self) {
		if let Some(c) = self.0.chars().last() {
			if c != '{' && c != '[' && c != ':' {
				self.0.push(',');
			}
		}
	}
	pub fn obj(&mut self) -> &mut Self {
		self.sep();
		self.0.push('{');
		self
	}
	pub fn end_obj(&mut self) -> &mut Self {
		self.0.push('}');
		self
	}
	pub fn arr(&mut self) -> &mut Self {
		self.sep();
		self.0.push('[');
		self
	}
	pub fn end_arr(&mut self) -> &mut Self {
		self.0.push(']');
		self
	}
	pub fn key(&mut self, k: &str) -> &mut Self {
		self.sep();
		self.0.push('"');
		self.0.push_str(k);
		self.0.push_str("\":");
		self
	}
	pub fn num(&mut self, n: i64) -> &mut Self {
		self.sep();
		self.0.push_str(&n.to_string());
		self
	}
	pub fn boolean(&mut self, b: bool) -> &mut Self {
		self.sep();
		self.0.push_str(if b { "true" } else { "false" });
		self
	}
	/// identifiers only: nothing is escaped
	pub fn word(&mut self, s: &str) -> &mut Self {
		self.sep();
		self.0.push('"');
		self.0.push_str(s);
		self.0.push('"');
		self
	}
	/// a text is an array of code points
	pub fn chars<'a, I: IntoIterator<Item = &'a char>>(&mut self, cs: I) -> &mut Self {
		self.arr();
		match PUMP.with(|p| p.get()) {
			None => {
				for c in cs {
					self.num(*c as u32 as i64);
				}
			}
			Some(p) => {
				for c in shrink(cs.into_iter().copied().collect(), p) {
					self.num(c as u32 as i64);
				}
			}
		}
		self.end_arr()
	}
	pub fn text(&mut self, s: &str) -> &mut Self {
		let cs: Vec<char> = s.chars().collect();
		self.chars(&cs)
	}
	pub fn opt_chars(&mut self, o: &Option<Vec<char>>) -> &mut Self {
		self.arr();
		if let Some(cs) = o {
			self.chars(cs);
		}
		self.end_arr()
	}
	pub fn opt_num(&mut self, n: Option<i64>) -> &mut Self {
		self.arr();
		if let Some(n) = n {
			self.num(n);
		}
		self.end_arr()
	}
	/// a value that was written before
	pub fn raw(&mut self, s: &str) -> &mut Self {
		self.sep();
		self.0.push_str(s);
		self
	}
}
