//! Seeded generation of sources: a grammar with a property specific emphasis, mutations of its
//! products, token soup, and a few long inputs.
use crate::observe::Opt;
use crate::rng::Rng;

pub const VOID: [&str; 14] = [
	"img", "input", "meta", "link", "br", "hr", "col", "base", "param", "source", "area", "embed", "track", "wbr",
];
pub const RAW: [&str; 4] = ["script", "style", "title", "textarea"];
pub const FOREIGN: [&str; 2] = ["svg", "math"];
pub const PLAIN: [&str; 26] = [
	"a", "b", "p", "div", "span", "i", "x-y", "h1", "a:b", "html", "head", "body", "li", "brx", "im", "scripts", "tit",
	"textare", "sv", "svgs", "pr", "prex", "mat", "b\u{e9}", "x_1.2", "table",
];

/// names of elements: HTML (also obsolete ones), SVG, MathML, custom
pub const DICT: [&str; 222] = [
	"a", "abbr", "acronym", "address", "applet", "area", "article", "aside", "audio", "b", "base", "basefont", "bdi",
	"bdo", "bgsound", "big", "blink", "blockquote", "body", "br", "button", "canvas", "caption", "center", "cite",
	"code", "col", "colgroup", "command", "content", "data", "datalist", "dd", "del", "details", "dfn", "dialog",
	"dir", "div", "dl", "dt", "element", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "form",
	"frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "i", "iframe",
	"image", "img", "input", "ins", "isindex", "kbd", "keygen", "label", "legend", "li", "link", "listing", "main",
	"map", "mark", "marquee", "math", "menu", "menuitem", "meta", "meter", "multicol", "nav", "nextid", "nobr",
	"noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "output", "p", "param", "picture",
	"plaintext", "portal", "pre", "progress", "q", "rb", "rbc", "rp", "rt", "rtc", "ruby", "s", "samp", "script",
	"search", "section", "select", "selectedcontent", "shadow", "slot", "small", "source", "spacer", "span", "strike",
	"strong", "style", "sub", "summary", "sup", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th",
	"thead", "time", "title", "tr", "track", "tt", "u", "ul", "var", "video", "wbr", "xmp", "animate",
	"animateMotion", "animateTransform", "circle", "clipPath", "defs", "desc", "ellipse", "feBlend", "feGaussianBlur",
	"filter", "foreignObject", "g", "glyph", "line", "linearGradient", "marker", "mask", "metadata", "mpath", "path",
	"pattern", "polygon", "polyline", "radialGradient", "rect", "set", "stop", "switch", "symbol", "text", "textPath",
	"tref", "tspan", "use", "view", "annotation", "annotation-xml", "maction", "merror", "mfrac", "mglyph", "mi",
	"mn", "mo", "mover", "mpadded", "mphantom", "mroot", "mrow", "ms", "mspace", "msqrt", "mstyle", "msub", "msup",
	"mtable", "mtd", "mtext", "mtr", "munder", "semantics", "none", "mprescripts", "xml", "x-a", "my-tag", "o:p",
	"fb:like", "amp-img", "link-x",
];

#[derive(Clone)]
pub struct Profile {
	// weights of the kinds of child nodes
	pub text: usize,
	pub spaces: usize,
	pub elem: usize,
	pub void: usize,
	pub raw: usize,
	pub foreign: usize,
	pub pre: usize,
	pub comment: usize,
	pub doctype: usize,
	pub cdata: usize,
	// percentages
	pub attrs: usize,
	pub selfclose: usize,
	pub upper: usize,
	pub entity: usize,
	pub ids: usize,
	pub html: usize,
	pub stray: usize,
	pub missing: usize,
	pub lt: usize,
	pub mutate: usize,
	pub soup: usize,
	pub truncate: usize,
	pub newline: usize,
}

impl Profile {
	pub fn base() -> Self {
		Profile {
			text: 10,
			spaces: 6,
			elem: 14,
			void: 4,
			raw: 3,
			foreign: 2,
			pre: 1,
			comment: 2,
			doctype: 1,
			cdata: 2,
			attrs: 35,
			selfclose: 6,
			upper: 12,
			entity: 8,
			ids: 10,
			html: 4,
			stray: 4,
			missing: 3,
			lt: 2,
			mutate: 25,
			soup: 15,
			truncate: 5,
			newline: 10,
		}
	}
	pub fn of(prop: &str) -> Self {
		let mut p = Profile::base();
		match prop {
			"C01" => {
				p.soup = 35;
				p.mutate = 45;
				p.truncate = 25;
				p.lt = 5;
			}
			"C02" => {
				p.stray = 0;
				p.missing = 0;
				p.lt = 0;
				p.mutate = 12;
				p.soup = 8;
				p.selfclose = 3;
				p.truncate = 0;
			}
			"C03" => {
				p.lt = 8;
				p.stray = 8;
				p.missing = 8;
			}
			"C04" => {
				p.mutate = 45;
			}
			"C05" => {
				p.mutate = 55;
				p.newline = 60;
				p.truncate = 10;
			}
			"C06" => {
				p.spaces = 12;
			}
			"C07" => {
				p.attrs = 95;
				p.truncate = 12;
				p.ids = 5;
			}
			"C08" => {
				p.raw = 30;
				p.upper = 35;
			}
			"C09" => {
				p.comment = 12;
				p.doctype = 8;
				p.cdata = 10;
				p.foreign = 8;
				p.mutate = 35;
			}
			"C10" => {
				p.missing = 25;
				p.truncate = 35;
			}
			"C11" => {
				p.stray = 35;
				p.spaces = 12;
			}
			"C12" => {
				p.lt = 35;
			}
			"C13" => {
				p.lt = 6;
				p.stray = 6;
				p.selfclose = 8;
			}
			"C14" => {
				p.foreign = 30;
				p.cdata = 14;
				p.selfclose = 25;
				p.upper = 30;
			}
			"C15" => {
				p.spaces = 20;
				p.text = 20;
				p.pre = 12;
				p.newline = 40;
				p.stray = 6;
				p.mutate = 8;
			}
			"C16" => {
				p.attrs = 95;
				p.doctype = 3;
				p.mutate = 8;
			}
			"C17" => {
				p.void = 10;
				p.comment = 8;
				p.upper = 35;
				p.mutate = 5;
				p.soup = 5;
			}
			"C18" => {
				p.cdata = 6;
				p.comment = 6;
				p.doctype = 3;
				p.mutate = 5;
				p.soup = 5;
			}
			"C19" => {
				p.entity = 60;
				p.raw = 8;
				p.mutate = 5;
				p.soup = 3;
			}
			"C20" => {
				p.mutate = 5;
				p.soup = 5;
			}
			"C21" => {
				p.attrs = 90;
				p.ids = 70;
				p.missing = 10;
				p.truncate = 15;
			}
			"C22" => {
				p.newline = 60;
				p.mutate = 25;
			}
			"C23" => {
				p.html = 55;
				p.doctype = 6;
				p.comment = 6;
			}
			"C24" => {
				p.stray = 8;
				p.lt = 8;
				p.missing = 8;
			}
			"C26" => {
				p.upper = 60;
				p.raw = 8;
				p.void = 8;
			}
			_ => {}
		}
		p
	}
}

pub struct Gen<'r> {
	pub r: &'r mut Rng,
	pub p: Profile,
	budget: i32,
}

const WS: [char; 5] = [' ', '\n', '\t', '\r', '\u{c}'];
const WORDS: [&str; 30] = [
	"t",
	"ab",
	"x y",
	"1",
	"-",
	"--",
	"]]",
	">",
	"\"",
	"'",
	"=",
	"/",
	"&",
	";",
	"\u{e9}",
	"\u{4e2d}",
	"\u{1f600}",
	"\u{a0}",
	"\u{0}",
	"\u{b}",
	"\u{feff}",
	"]",
	"&lt",
	"a=b",
	"/>",
	"-->",
	"]]>",
	"!",
	"\u{2028}",
	"K\u{212a}",
];
const ENTS: [&str; 34] = [
	"&lt;",
	"&gt;",
	"&amp;",
	"&quot;",
	"&apos;",
	"&nbsp;",
	"&copy;",
	"&#60;",
	"&#x3c;",
	"&#X3E;",
	"&#38;",
	"&#x1F600;",
	"&Eacute;",
	"&eacute;",
	"&hearts;",
	"&amp;lt;",
	"&lt",
	"&;",
	"&nosuch;",
	"&&lt;",
	"&#;",
	"&#x;",
	"&#32;",
	"&#10;",
	"&#0;",
	"&#xD800;",
	"&#99999999;",
	"&a b;",
	"& lt;",
	"&lt ;",
	"&LT;",
	"&#x20;",
	"&#160;",
	"&AMP;",
];
/// characters that are easily confused with others: Unicode whitespace, case variants of ASCII letters, letters with case
/// outside of ASCII, code points whose low byte is an ASCII character, full-width forms
pub const ODD: [char; 62] = [
	'\u{b}',
	'\u{1c}',
	'\u{1d}',
	'\u{1e}',
	'\u{1f}',
	'\u{85}',
	'\u{a0}',
	'\u{1680}',
	'\u{2003}',
	'\u{200b}',
	'\u{2028}',
	'\u{2029}',
	'\u{3000}',
	'\u{feff}',
	'\u{212a}',
	'\u{17f}',
	'\u{130}',
	'\u{131}',
	'\u{df}',
	'\u{1e9e}',
	'\u{e9}',
	'\u{c9}',
	'\u{e4}',
	'\u{c4}',
	'\u{3a9}',
	'\u{2126}',
	'\u{ff41}',
	'\u{ff21}',
	'\u{ff1c}',
	'\u{ff1e}',
	'\u{120}',
	'\u{122}',
	'\u{126}',
	'\u{12d}',
	'\u{12f}',
	'\u{13b}',
	'\u{13c}',
	'\u{13d}',
	'\u{13e}',
	'\u{141}',
	'\u{161}',
	'\u{15b}',
	'\u{15d}',
	'\u{121}',
	'\u{10d}',
	'\u{10a}',
	'\u{0}',
	'\u{7f}',
	'\u{1}',
	'\u{8}',
	'[',
	'{',
	'@',
	'`',
	'\\',
	'|',
	'^',
	'~',
	'_',
	'\u{fffd}',
	'\u{ffff}',
	'\u{10ffff}',
];
const SOUP: [&str; 62] = [
	"<",
	">",
	"/",
	"!",
	"=",
	"\"",
	"'",
	" ",
	"\n",
	"\r",
	"\r\n",
	"a",
	"x",
	"B",
	"<a",
	"<a>",
	"</a>",
	"</a",
	"<b>",
	"</b>",
	"</B >",
	"<br>",
	"<br/>",
	"<svg>",
	"</svg>",
	"<SVG",
	"<math>",
	"</math>",
	"<script>",
	"</script>",
	"<STYLE>",
	"</style >",
	"<title>",
	"</title>",
	"<textarea",
	"</textarea>",
	"<pre>",
	"</pre>",
	"<!--",
	"-->",
	"<!-",
	"--",
	"<!DOCTYPE html>",
	"<!doctype",
	"<![CDATA[",
	"]]>",
	"]",
	"[",
	"<!",
	"</",
	"</>",
	"/>",
	"id=x",
	" id=\"y\"",
	" k='v w'",
	"x=/y",
	"==",
	"&lt;",
	"\u{0}",
	"\u{e9}",
	"<hr",
	"<?",
];

impl<'r> Gen<'r> {
	pub fn new(r: &'r mut Rng, p: Profile) -> Self {
		Gen { r, p, budget: 0 }
	}

	fn cased(&mut self, s: &str) -> String {
		if !self.r.pct(self.p.upper) {
			return s.to_string();
		}
		match self.r.below(3) {
			0 => s.to_uppercase(),
			1 => {
				let i = self.r.below(s.chars().count());
				s.chars()
					.enumerate()
					.map(|(j, c)| if i == j { c.to_ascii_uppercase() } else { c })
					.collect()
			}
			_ => s
				.chars()
				.map(|c| if self.r.pct(50) { c.to_ascii_uppercase() } else { c })
				.collect(),
		}
	}
	fn ws(&mut self) -> String {
		let n = 1 + self.r.below(3);
		(0..n)
			.map(|_| {
				if self.r.pct(self.p.newline) {
					['\n', '\r', '\n', '\r'][self.r.below(4)]
				} else if self.r.pct(60) {
					' '
				} else {
					WS[self.r.below(5)]
				}
			})
			.collect()
	}
	fn word(&mut self) -> String {
		if self.r.pct(60) {
			let n = 1 + self.r.below(4);
			(0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
		} else {
			self.r.pick(&WORDS).to_string()
		}
	}
	pub fn text(&mut self) -> String {
		let mut s = String::new();
		let n = 1 + self.r.below(4);
		for _ in 0..n {
			if self.r.pct(self.p.entity) {
				s.push_str(self.r.pick(&ENTS));
			} else if self.r.pct(40) {
				s.push_str(&self.ws());
			} else {
				s.push_str(&self.word());
			}
		}
		s.replace('<', "")
	}
	fn bare_lt(&mut self) -> String {
		let next = [
			"1", " ", "=", ">", "<", "&", ".", "?", "-", "\n", "\"", "\u{e9}", "0", "<<", "(", "_", "<a", "\u{0}", "[", ":",
		];
		format!("<{}", self.r.pick(&next))
	}
	fn key(&mut self) -> String {
		let ks = [
			"a", "b", "class", "href", "x", "data-x", "ID", "Id", "iD", "id", "onclick", ":k", "@k", "\u{e9}", "k\"", "'k",
			"\"", "'", "\"q\"", "k'k'", "A", "Class", "v-on:a.b", "[x]", "<", "k<", "\u{131}d", "idx", "i", "", "-", "&",
			"k\u{0}", "checked", "disabled", "value", "name", "src", "style", "type", "xmlns", "xlink:href", "title", "lang",
			"async", "srcset", "hidden",
		];
		let k = if self.r.pct(self.p.ids) {
			["id", "id", "id", "ID", "Id", "iD"][self.r.below(6)].to_string()
		} else {
			self.r.pick(&ks).to_string()
		};
		if k.is_empty() {
			"z".into()
		} else {
			k
		}
	}
	fn attr_value(&mut self, quote: Option<char>) -> String {
		if self.r.pct(30) {
			// few distinct values, so that ids repeat
			return ["x", "y", "X", "x", "", "1"][self.r.below(if quote.is_some() { 6 } else { 4 })].to_string();
		}
		let pool = [
			"v",
			"a b",
			"",
			"/",
			"/a",
			"a/",
			"a/b",
			"=",
			"a=b",
			"==",
			"`",
			"a`b",
			"<",
			">",
			"a<b",
			"a>b",
			"\"",
			"'",
			"it's",
			"say \"x\"",
			"\n",
			" ",
			" a",
			"a ",
			"\t",
			"&lt;",
			"&quot;",
			"\u{e9}",
			"\u{a0}",
			"\u{b}",
			"\u{0}",
			"{{x}}",
			"a\u{c}b",
			"</a>",
			"-->",
			"#",
			"1",
			"x\ry",
			"http://x.y/z?q=1&r=2",
			"/>",
			"//",
			"a;b",
			"\u{3000}",
			"\u{85}",
		];
		let mut v = self.r.pick(&pool).to_string();
		if self.r.pct(20) {
			v.push_str(self.r.pick(&pool));
		}
		match quote {
			Some(q) => v.retain(|c| c != q),
			None => {
				v.retain(|c| !c.is_ascii_whitespace() && c != '>');
				while v.starts_with('"') || v.starts_with('\'') {
					v.remove(0);
				}
				if v.is_empty() {
					v.push('v');
				}
			}
		}
		v
	}
	pub fn attrs(&mut self) -> String {
		let mut s = String::new();
		if !self.r.pct(self.p.attrs) {
			if self.r.pct(10) {
				s.push_str(&self.ws());
			}
			return s;
		}
		let n = 1 + self.r.below(4);
		let mut glue = true;
		for _ in 0..n {
			if glue || self.r.pct(85) {
				if self.r.pct(8) {
					s.push('/');
				} else {
					s.push_str(&self.ws());
				}
				if self.r.pct(5) {
					s.push('/');
				}
			}
			let k = self.key();
			s.push_str(&k);
			glue = true;
			match self.r.below(10) {
				0 | 1 => {}
				2 => {
					// "=" without a value
					s.push('=');
					if self.r.pct(50) {
						s.push_str(&self.ws());
						s.push('"');
						s.push('"');
					} else {
						// swallows what follows as its value; only at the end it has none
						break;
					}
				}
				m => {
					if self.r.pct(12) {
						s.push_str(&self.ws());
					}
					s.push('=');
					if self.r.pct(12) {
						s.push_str(&self.ws());
					}
					let quote = match m {
						3 | 4 | 5 => Some('"'),
						6 | 7 => Some('\''),
						_ => None,
					};
					let v = self.attr_value(quote);
					if let Some(q) = quote {
						s.push(q);
						s.push_str(&v);
						s.push(q);
						glue = false;
					} else {
						s.push_str(&v);
					}
				}
			}
		}
		if self.r.pct(15) {
			s.push_str(&self.ws());
		}
		s
	}
	fn close(&mut self, name: &str) -> String {
		let mut n = name.to_string();
		if self.r.pct(2) && !n.is_empty() {
			let mut cs: Vec<char> = n.chars().collect();
			let i = self.r.below(cs.len());
			cs[i] = self.near(cs[i]);
			n = cs.into_iter().collect();
		}
		if self.r.pct(self.p.upper / 3) {
			n = self.cased(&name.to_lowercase());
		}
		if self.r.pct(15) {
			n.push_str(&self.ws());
		}
		format!("</{}>", n)
	}
	fn stray(&mut self) -> String {
		let names = [
			"zz", "a", "div", "br", "p", "", " a", "svg", "script", "A", "pre", "z z", "html", "b",
		];
		let n = self.r.pick(&names).to_string();
		self.close(&n)
	}
	fn raw_content(&mut self, name: &str) -> String {
		let n = self.r.below(4);
		let mut s = String::new();
		let full: Vec<char> = format!("</{}", name).chars().collect();
		let suffix: String = full[1 + self.r.below(full.len() - 1)..].iter().collect();
		let prefix: String = full[..1 + self.r.below(full.len())].iter().collect();
		let gap = WS[self.r.below(5)].to_string().repeat(self.r.below(14));
		let mut other = full.clone();
		let i = self.r.below(other.len());
		other[i] = self.near(other[i]);
		let other: String = other.into_iter().collect();
		let near = [
			format!("{}{}>", suffix, gap),
			format!("{}{}>", prefix, gap),
			format!("{}{}>", other, gap),
			format!("</{}{}", name, gap),
			format!("</{}", name),
			format!("</ {}>", name),
			format!("</{}x>", name),
			format!("<{}>", name),
			format!("</{}/>", name),
			format!("</{} x>", name),
			format!("< /{}>", name),
			"</b>".to_string(),
			"<a>".to_string(),
			"<!--".to_string(),
			"-->".to_string(),
			"if(a<b && c>d){}".to_string(),
			"</scrip>".to_string(),
			"</titles>".to_string(),
			">".to_string(),
			"</".to_string(),
			"&lt;".to_string(),
			"<![CDATA[ ]]>".to_string(),
			"</script".to_string(),
			format!("</{}", &name[..name.len() - 1]),
		];
		for _ in 0..n {
			match self.r.below(4) {
				0 => s.push_str(&self.ws()),
				1 => s.push_str(&self.text()),
				_ => s.push_str(&near[self.r.below(near.len())]),
			}
		}
		s
	}
	fn comment_text(&mut self) -> String {
		let pool = [
			"", " c ", "-", ">", "->", "--", "-- >", "<a>", "</a>", "--!>", " - ", "<!--", "]]>", "\n", "x", "--x", "- ->",
			"\u{e9}", "<!-", "[if IE]",
		];
		let mut s = self.r.pick(&pool).to_string();
		if self.r.pct(40) {
			s.push_str(self.r.pick(&pool));
		}
		s.replace("-->", "")
	}
	fn cdata_text(&mut self) -> String {
		let pool = [
			"", "x", "]", "]]", "] ]>", ">", "]>", "<a>", "</svg>", "--", "&lt;", " ", "]]]", "[", "\n",
		];
		let mut s = self.r.pick(&pool).to_string();
		if self.r.pct(40) {
			s.push_str(self.r.pick(&pool));
		}
		s.replace("]]>", "")
	}
	fn doctype(&mut self) -> String {
		let d = self.cased("doctype");
		let d = if self.r.pct(50) { "DOCTYPE".to_string() } else { d };
		let rest = [
			" html",
			" HTML",
			" html PUBLIC \"-//W3C//DTD XHTML 1.0//EN\" \"http://www.w3.org/x.dtd\"",
			" html SYSTEM 'about:legacy-compat'",
			" html \"\"",
			"\nhtml ",
			" html x=\"a b\"",
			" html id=d",
			" html/",
			" ",
			" 'x'y",
			" html a='b'/",
		];
		format!("<!{}{}>", d, self.r.pick(&rest))
	}
	fn elem(&mut self, name: &str, depth: usize, foreign: bool) -> String {
		let mut name = self.cased(name);
		if self.r.pct(4) {
			// a name with an unusual character, not at its start
			let mut cs: Vec<char> = name.chars().collect();
			let i = 1 + self.r.below(cs.len());
			cs.insert(i, ODD[self.r.below(ODD.len())]);
			name = cs.into_iter().collect();
		}
		let mut s = format!("<{}", name);
		s.push_str(&self.attrs());
		if self.r.pct(self.p.selfclose) {
			s.push_str(if self.r.pct(50) { " />" } else { "/>" });
			return s;
		}
		s.push('>');
		s.push_str(&self.children(depth + 1, foreign));
		if !self.r.pct(self.p.missing) {
			s.push_str(&self.close(&name));
		}
		s
	}
	fn children(&mut self, depth: usize, foreign: bool) -> String {
		let mut s = String::new();
		let n = if depth == 0 {
			1 + self.r.below(5)
		} else {
			self.r.below(4)
		};
		for _ in 0..n {
			if self.budget <= 0 || depth > 7 {
				break;
			}
			self.budget -= 1;
			if self.r.pct(self.p.stray) {
				s.push_str(&self.stray());
				continue;
			}
			if self.r.pct(self.p.lt) {
				s.push_str(&self.bare_lt());
				continue;
			}
			let p = self.p.clone();
			let w = [
				p.text,
				p.spaces,
				p.elem,
				p.void,
				p.raw,
				p.foreign,
				p.pre,
				p.comment,
				p.doctype,
				if foreign { p.cdata * 3 } else { p.cdata / 6 },
			];
			let total: usize = w.iter().sum();
			let mut k = self.r.below(total.max(1));
			let mut kind = 0;
			for (i, x) in w.iter().enumerate() {
				if k < *x {
					kind = i;
					break;
				}
				k -= x;
			}
			match kind {
				0 => s.push_str(&self.text()),
				1 => s.push_str(&self.ws()),
				2 => {
					let name = if self.r.pct(self.p.html) {
						"html"
					} else if self.r.pct(60) {
						["a", "b", "p", "div"][self.r.below(4)]
					} else if self.r.pct(70) {
						self.r.pick(&PLAIN)
					} else {
						loop {
							let name = self.r.pick(&DICT);
							if !VOID.contains(&name) && !RAW.contains(&name) {
								break name;
							}
						}
					};
					s.push_str(&self.elem(name, depth, foreign));
				}
				3 => {
					let name = self.r.pick(&VOID);
					let name = self.cased(name);
					s.push('<');
					s.push_str(&name);
					s.push_str(&self.attrs());
					s.push_str(["", "", "/", " /", "//"][self.r.below(5)]);
					s.push('>');
				}
				4 => {
					let name = self.r.pick(&RAW);
					let name = self.cased(name);
					s.push('<');
					s.push_str(&name);
					s.push_str(&self.attrs());
					s.push('>');
					s.push_str(&self.raw_content(&name));
					s.push_str(&self.close(&name));
				}
				5 => {
					let name = self.r.pick(&FOREIGN);
					s.push_str(&self.elem(name, depth, true));
				}
				6 => s.push_str(&self.elem("pre", depth, foreign)),
				7 => s.push_str(&format!("<!--{}-->", self.comment_text())),
				8 => s.push_str(&self.doctype()),
				_ => s.push_str(&format!("<![CDATA[{}]]>", self.cdata_text())),
			}
		}
		s
	}
	/// a character that could be mistaken for c
	fn near(&mut self, c: char) -> char {
		let x = c as u32;
		let y = match self.r.below(8) {
			0 | 1 => x ^ 0x20,
			2 => x ^ 0x40,
			3 => x + 0x100,
			4 => x.wrapping_add(1),
			5 => x.wrapping_sub(1),
			_ => match c {
				'k' | 'K' => 0x212a,
				's' | 'S' => 0x17f,
				'i' | 'I' => 0x130,
				' ' | '\n' | '\t' | '\r' => ODD[self.r.below(14)] as u32,
				_ => ODD[self.r.below(ODD.len())] as u32,
			},
		};
		char::from_u32(y).unwrap_or('\u{fffd}')
	}
	pub fn mutate(&mut self, s: &str) -> String {
		let mut cs: Vec<char> = s.chars().collect();
		let n = 1 + self.r.below(3);
		let special = [
			'<', '>', '/', '!', '-', '=', '"', '\'', ' ', '\n', '[', ']', 'a', 'A', '\r', '&', ';', '\u{0}', 'd', '?', '`',
		];
		for _ in 0..n {
			if cs.is_empty() {
				cs.push('<');
			}
			let i = self.r.below(cs.len());
			match self.r.below(12) {
				0 => {
					cs.remove(i);
				}
				7 | 8 => cs[i] = self.near(cs[i]),
				9 => {
					// a near copy of a piece
					let e = (i + 1 + self.r.below(8)).min(cs.len());
					let mut piece: Vec<char> = cs[i..e].to_vec();
					let k = self.r.below(piece.len());
					piece[k] = self.near(piece[k]);
					for (k, c) in piece.into_iter().enumerate() {
						cs.insert(e + k, c);
					}
				}
				10 => cs.insert(i, ODD[self.r.below(ODD.len())]),
				11 => {
					// much whitespace
					let w = WS[self.r.below(5)];
					for _ in 0..(2 + self.r.below(12)) {
						cs.insert(i, w);
					}
				}
				1 | 2 => cs.insert(i, special[self.r.below(special.len())]),
				3 => cs[i] = special[self.r.below(special.len())],
				4 => {
					// swap the case
					if cs[i].is_ascii_uppercase() {
						cs[i] = cs[i].to_ascii_lowercase();
					} else {
						cs[i] = cs[i].to_ascii_uppercase();
					}
				}
				5 => {
					// repeat a piece
					let e = (i + 1 + self.r.below(8)).min(cs.len());
					let piece: Vec<char> = cs[i..e].to_vec();
					for (k, c) in piece.into_iter().enumerate() {
						cs.insert(e + k, c);
					}
				}
				_ => {
					// cut out a piece
					let e = (i + 1 + self.r.below(8)).min(cs.len());
					cs.drain(i..e);
				}
			}
		}
		cs.into_iter().collect()
	}
	fn soup(&mut self) -> String {
		let n = 1 + self.r.below(12);
		(0..n).map(|_| self.r.pick(&SOUP)).collect()
	}
	pub fn source(&mut self) -> String {
		let mut s = if self.r.pct(self.p.soup) {
			self.soup()
		} else {
			self.budget = 4 + self.r.below(14) as i32;
			let foreign = false;
			let mut s = String::new();
			if self.r.pct(self.p.html / 2) {
				s.push_str(&self.doctype());
			}
			s.push_str(&self.children(0, foreign));
			s
		};
		if self.r.pct(self.p.mutate) {
			s = self.mutate(&s);
		}
		if self.r.pct(self.p.truncate) {
			let n = s.chars().count();
			s = s.chars().take(self.r.below(n + 1)).collect();
		}
		s
	}

	/// inputs that are big in one dimension
	pub fn long(&mut self, which: usize) -> String {
		let n = 60 + self.r.below(200);
		match which % 14 {
			0 => format!("<p>{}</p>", "word  ".repeat(n)),
			1 => {
				let d = 20 + self.r.below(80);
				format!("{}x{}", "<b>".repeat(d), "</b>".repeat(d))
			}
			2 => {
				let k = 15 + self.r.below(60);
				let a: String = (0..k).map(|i| format!(" k{}=\"v {}\"", i, i)).collect();
				format!("<a{}>t</a>", a)
			}
			3 => {
				let k = 20 + self.r.below(60);
				(0..k).map(|i| format!("<i id=i{}>{}</i> ", i % 17, i)).collect()
			}
			4 => format!("<script>{}</script>t", "a<b;</scripts> ".repeat(n / 8)),
			5 => format!("<!--{}--><b>x</b>", "- -- > <a> ".repeat(n / 6)),
			6 => format!("<x{0}>t</x{0} >", "y".repeat(n)),
			7 => format!("<a href=\"{}\" b={}>t</a>", "u ".repeat(n), "w".repeat(n)),
			8 => {
				let d = 10 + self.r.below(50);
				format!("{}<p>y", "<svg><g>".repeat(d))
			}
			9 => {
				let d = 5 + self.r.below(30);
				format!("{}x{}", "<pre> <b>  ".repeat(d), "  </b> </pre> ".repeat(d))
			}
			10 => format!("<p>{}</q>", "line\r\nx\n\ry\r".repeat(n / 6)),
			11 => format!("{}{}", " \n\t".repeat(n), "<br>".repeat(n / 4)),
			12 => "a<1<2< ".repeat(n / 5),
			_ => {
				let d = 5 + self.r.below(40);
				format!("<div>{}</div>", "x</z> </y>  ".repeat(d))
			}
		}
	}
}

/// the parse options to run a source with
pub fn options(prop: &str, r: &mut Rng) -> Opt {
	let any = Opt::from_bits(r.below(64) as u32);
	let mut o = match r.below(6) {
		0 => Opt::default(),
		1 => Opt::from_bits(63 - 3),
		_ => any,
	};
	match prop {
		"C02" => o = Opt::default(),
		"C03" => o.e = false,
		"C10" => o.u = !r.pct(8),
		"C11" => o.x = !r.pct(8),
		"C12" => o.l = !r.pct(8),
		"C13" => o = Opt::from_bits((any.bits() & r.next() as u32) & 63),
		"C14" => {
			o.s = r.pct(10);
		}
		"C26" => o.c = r.pct(50),
		"C15" | "C16" | "C17" | "C18" | "C19" | "C20" | "C21" | "C23" => {
			// mostly accepted
			if r.pct(70) {
				o = Opt::from_bits(any.bits() | 4 | 8 | 16 | 32);
				o.c = false;
			}
		}
		_ => {}
	}
	o
}
