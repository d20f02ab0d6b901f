#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so ids/anchors stay consistent)."""
import json
PZ='src/parser.rs'
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
ps=[]
def add(*a,**k): ps.append(P(*a,**k))
add('C01','Parsing and rendering never panic',
 'For every source text and every combination of parse options, parsing returns either a document or an error and never panics, hangs or aborts. Every document it returns can be rendered with every combination of render options, looked up, inspected and cloned without a panic; only asking for the inner html/text of a node that has none (or of a root without exactly one element child) is a documented panic.',
 ['inputs','configurations'],'all source strings (including ones cut off at any character) x all 64 parse option sets x all render option sets; very deep nesting (more than about 10000 elements) overflows the native stack and is a known finding',
 'The tests feed about 60 hand-picked sources; almost none is cut off inside a token, and option combinations are hardly mixed.',
 [PZ],[('per-character handlers','src/parser.rs parse_* functions'),('end of input handling','src/parser.rs Doc::eof'),('rendering','src/parser.rs Node::build')],['Doc::parse','DocHolder::render','DocHolder::render_text','Node::clone_node'])
add('C02','Default rendering reproduces the source',
 'For every source accepted with the default (strict) parse options, rendering with default options gives back the source character for character, except inside start tags and doctypes, where the separators between attributes (spaces, stray slashes) become one space, "=" without a value is dropped, and a self-closing tag ends with " />". In particular text, comments, CDATA, raw script/style/title/textarea content, tag and attribute spelling, attribute values and quotes, and end tags (with their trailing spaces) are unchanged.',
 ['inputs'],'all sources accepted by the strict parser',
 'Round trips are asserted for about 20 literals; the guarantee is about every accepted source.',
 [PZ],[('tree building','src/parser.rs Doc::next and handlers'),('rendering','src/parser.rs Node::build_node, Attr::build')],['DocHolder::render'])
add('C03','Rendered output is a fixed point of parse and render',
 'Whatever the parser accepts under an option set without attribute names that begin with "=", its default rendering is accepted again under the same options and renders to exactly the same text, so parsing and rendering repeatedly never changes a document further. This includes documents produced by the auto-fix options.',
 ['inputs','configurations'],'all sources x all parse option sets with allow_attr_key_starts_with_equal_sign off',
 'No test re-parses a rendered document.',
 [PZ],[('repair of broken input','src/parser.rs fix_unclosed_tag, fix_unescaped_lt, parse_tagend'),('rendering','src/parser.rs Node::build')],['Doc::parse','DocHolder::render'])
add('C04','Exactly the well-formed sources are accepted',
 'Under each parse option set the parser accepts exactly the sources its grammar and the enabled options allow, and rejects every other source with an error whose kind and quoted text name the first problem met (wrong tag, wrong or case-mismatched end tag, self-closing of a normal element, stray "=", bad doctype or "<!", misplaced CDATA, something unclosed at the end).',
 ['inputs','configurations'],'all sources x all 64 parse option sets',
 'Tests assert is_err()/is_ok() on a few literals and never look at the kind of error.',
 [PZ,'src/error.rs'],[('handlers returning errors','src/parser.rs parse_*'),('end of input','src/parser.rs Doc::eof'),('error kinds','src/error.rs ErrorKind')],['Doc::parse result'])
add('C05','Parse errors point at the right place',
 'Every parse error carries the character index of the problem: the "<" that opens the offending or never-finished construct, or the character at which the violation is detected. Its line and column are those of that index in the source, where CR, LF and CRLF each end one line, lines count from 1 and the column counts the characters of the line up to and including that character; the displayed message shows exactly these numbers followed by the text of the error kind.',
 ['inputs','configurations'],'all rejected sources (any mix of line endings and non-ASCII characters) x all parse option sets',
 'No test looks at a position or at the text of an error.',
 ['src/position.rs','src/error.rs',PZ],[('index to line/column','src/position.rs CodeRegion::from_context_index'),('error creation','src/parser.rs create_parse_error, Doc::error')],['ParseError Display'])
add('C06','The tree mirrors the nesting of the source',
 'For every accepted source the tree has one node per construct in document order: elements nest exactly as their start and end tags do, void and self-closed elements have no children, and every text, whitespace, comment, doctype and CDATA node has the type, the parent and the exact text of its piece of source. Every element that has an end tag in the source carries it with its exact spelling.',
 ['inputs','configurations'],'all accepted sources x all parse option sets',
 'Tests compare rendered strings, which cannot tell a node put under the wrong parent, and inspect only a handful of trees.',
 [PZ],[('open element stack','src/parser.rs Doc.chain_nodes'),('node insertion','src/parser.rs Doc::add_new_node'),('end tag matching','src/parser.rs parse_tagend')],['Node.childs, node_type, content, end_tag, meta.name'])
add('C07','Attributes are parsed faithfully',
 'Each start tag and doctype yields its attributes in source order with exact key, exact value (or none) and the quote character used, for every mix of quoted, unquoted, empty and boolean attributes, spaces around "=", stray slashes and quotes, also when the tag is cut off by the end of a repaired input. The lower-cased name lookup maps each attribute name to its first occurrence and nothing else.',
 ['inputs','configurations'],'all accepted sources x all parse option sets',
 'One test checks ten attributes of one tag; the attribute state machine has dozens of transitions.',
 [PZ],[('attribute state machine','src/parser.rs parse_tag_wait, parse_tag_attr_key, parse_tag_attr_value, parse_tag_self_closing'),('name lookup','src/parser.rs Doc::set_tag_attr_key')],['TagMeta.attrs','TagMeta.lc_name_map'])
add('C08','Raw text elements hold their content verbatim',
 'The content of script, style, title and textarea elements (names in any letter case) is stored as one verbatim text up to the first matching end tag, which is the element name after "</" in the letter case the options require, optionally followed by whitespace, then ">". Nothing inside is interpreted as markup, and parsing resumes normally right after that end tag.',
 ['inputs','configurations'],'all raw text contents (with partial, nested, differently spelled or spaced end tags) x parse option sets',
 'Four literals are tested; almost-matching end tags are not.',
 [PZ],[('raw content scanner','src/parser.rs parse_content_tag'),('entry','src/parser.rs Doc::check_tag_type_do')],['Node.content','Node.end_tag'])
add('C09','Comments, doctypes and CDATA are recognised exactly',
 'A comment runs from "<!--" to the first "-->" that follows, a CDATA section from "<![CDATA[" (exactly so) to the first "]]>", and a doctype from "<!doctype" plus whitespace (any letter case) to its ">"; their text is kept verbatim and never interpreted as markup. Any other "<!" construct is rejected.',
 ['inputs','configurations'],'all sources with such constructs, complete or cut off, in every context',
 'Only a few literal comments and doctypes are tested, with no empty or dash-heavy comments.',
 [PZ],[('detection','src/parser.rs parse_exclamation_begin'),('termination','src/parser.rs parse_comment_or_cdata'),('doctype','src/parser.rs parse_doctype_name')],['Node.node_type','Node.content'])
add('C10','auto_fix_unclosed_tag closes what is open and nothing else',
 'With auto_fix_unclosed_tag, every element still open at the end of input is kept with everything read so far and gets an end tag with its own name, innermost first, while void elements get none; the result is the document one gets by writing these end tags at the end of the source. Unfinished comments, doctypes, raw text, end tags and a trailing "<" remain errors, and without the option any open element is an error naming the innermost one.',
 ['inputs','configurations'],'all sources cut off at any character x parse option sets',
 'Three literals are tested, none cut off inside a tag.',
 [PZ],[('end of input','src/parser.rs Doc::eof'),('repair','src/parser.rs Doc::fix_unclosed_tag')],['Doc::parse','DocHolder::render','TagMeta.auto_fix'])
add('C11','auto_fix_unexpected_endtag drops exactly the unmatched end tags',
 'With auto_fix_unexpected_endtag, an end tag that does not match the innermost open element is dropped and the tree is the same as if it were not in the source: it closes nothing, text on both sides becomes one text node, and all other nodes keep their place, type and content. Without the option the first such end tag is an error.',
 ['inputs','configurations','histories'],'all sources with any number of unmatched end tags at any place x parse option sets',
 'Three literals are tested, always together with auto_fix_unclosed_tag.',
 [PZ],[('end tag matching','src/parser.rs parse_tagend'),('text continuation','src/parser.rs parse_wait')],['Doc::parse','tree','DocHolder::render'])
add('C12','auto_fix_unescaped_lt turns a bare "<" into text',
 'With auto_fix_unescaped_lt, a "<" followed by a character other than a letter, "/" or "!" becomes the text "&lt;" in the innermost open element, joined with the text before and after it, and the character that follows is processed normally. Without the option it is an error, and no other "<" is affected.',
 ['inputs','configurations'],'all sources with bare "<" at any place (after text, tags, void or raw elements, comments, dropped end tags, other "<") x parse option sets',
 'Seven literals are tested by rendered text, which hid that the text was put under the wrong parent.',
 [PZ],[('repair','src/parser.rs Doc::fix_unescaped_lt')],['Doc::parse','tree','DocHolder::render'])
add('C13','Enabling options never changes what was already accepted',
 'If a source is accepted under some parse options, then switching on any of allow_self_closing, allow_attr_key_starts_with_equal_sign and the three auto-fix options as well still accepts it and produces the same tree and the same rendering.',
 ['inputs','configurations'],'all sources x all pairs of option sets',
 'The tests never compare two option sets on an accepted source.',
 [PZ,'src/config.rs'],[('option checks','src/parser.rs uses of parse_options')],['Doc::parse','tree','DocHolder::render'])
add('C14','Self-closing and CDATA rules of svg and math are scoped exactly',
 'Without allow_self_closing, a non-void element may be self-closed only inside an open svg or math element, and CDATA is accepted only there, and not directly in an element spelled like the outermost svg/math element. The scope begins after the outermost svg/math start tag and ends exactly with its matching end tag, whatever the letter case and however svg/math elements are nested in it.',
 ['inputs','configurations','histories'],'all nestings of svg, math and other elements in any letter case x parse option sets',
 'Tests use one flat svg and one flat math element.',
 [PZ],[('scope','src/parser.rs Doc.in_special'),('self closing','src/parser.rs parse_tag_self_closing'),('cdata','src/parser.rs parse_exclamation_begin')],['Doc::parse result'])
add('C15','minify_spaces only touches insignificant whitespace',
 'With minify_spaces, whitespace-only text between tags disappears and every other run of whitespace in text is reduced to its first character, while everything inside a pre element (at any depth, up to its own end tag and no further), all raw text, comments and attributes stay as they are. No other character changes, and (under parse options without attribute names that begin with "=") minifying the minified document again changes nothing.',
 ['inputs','configurations','histories'],'all documents (parsed or edited) x all render option sets with minify_spaces; the second claim for output that keeps comments and does not decode entities',
 'Four literals; no nested, self-closed or re-opened pre.',
 [PZ],[('text rendering','src/parser.rs Node::build_node Text/SpacesBetweenTag'),('pre scope','src/parser.rs Node::build_tree')],['DocHolder::render'])
add('C16','remove_attr_quote never changes the meaning of a tag',
 'With remove_attr_quote, quotes are removed from exactly those attribute values that mean the same without them: a keyed value that is not empty and has no whitespace, quote, backtick, "=", "<" or ">". Under parse options without attribute names that begin with "=", the output parses back to the same elements with the same attribute names and values in the same order.',
 ['inputs','configurations'],'all accepted sources and all attribute values x render option sets with remove_attr_quote',
 'The option is not tested at all.',
 [PZ],[('quote decision','src/parser.rs TagMeta::set_attr_value, Attr::need_quoted_char'),('rendering','src/parser.rs Attr::build')],['DocHolder::render','Attr::build'])
add('C17','Each render option has only its own effect',
 'lowercase_tagname lower-cases element names in start and end tags, remove_endtag_space drops whitespace before the ">" of end tags, remove_comment drops comments, always_close_void writes void elements with " />", and each changes nothing else. Any combination of options is the combination of their separate effects, for parsed documents and for trees edited through the public fields.',
 ['inputs','configurations','histories'],'all documents x all combinations of render options',
 'Each option is tested on one literal or not at all, never in combination.',
 [PZ,'src/config.rs'],[('rendering','src/parser.rs Node::build_node, build_tree')],['DocHolder::render','Node::build'])
add('C18','inner_html and text rendering return exactly the inside',
 'Rendering an element with inner_html gives its normal rendering without its own start and end tag; text rendering gives the text, whitespace, raw and CDATA content of its descendants in order with no markup, comment or doctype. On a document both refer to its only top-level element, and text rendering of a comment gives the comment text.',
 ['inputs','configurations','histories'],'all elements of all documents x render option sets',
 'Four literals.',
 [PZ],[('entry and misuse rules','src/parser.rs Node::build'),('rendering','src/parser.rs Node::build_node need_tag')],['DocHolder::render','DocHolder::render_text','Node::build'])
add('C19','Entity decoding and content encoding apply where they should',
 'decode_entity replaces each valid character reference in text by its character and leaves every other character of the document unchanged (also together with minify_spaces, which then acts on the undecoded text). encode_content replaces "<", ">" and "&" by named references in the content of title and textarea (in any letter case) only, so that decoding the result gives back the original content.',
 ['inputs','configurations'],'all texts with complete, broken, adjacent and unterminated references x render option sets',
 'Six literals, with at most one reference each.',
 [PZ],[('decoding','src/parser.rs Node::build_node Text'),('encoding','src/parser.rs write_content_encode')],['DocHolder::render','DocHolder::render_text'])
add('C20','Cloning gives an equal and independent subtree',
 'clone_node returns a new detached subtree with the same types, names, attributes, contents, end tags and order, source positions counted from the cloned node, and parent, index and previous-sibling links inside the clone; it renders like the original. Later changes to either side never show in the other, and the original is unchanged by cloning, also for trees edited or assembled by hand.',
 ['inputs','histories'],'all nodes of all documents, parsed or edited, and all later edit sequences',
 'One literal with two edits.',
 [PZ],[('deep copy','src/parser.rs Node::clone_node_with, clone_node_without_childs')],['Node::clone_node','Node::clone'])
add('C21','Lookup by id finds the element that carries the id',
 'After parsing, lookup by id returns a node exactly for the values given to attributes named id (in any letter case, quoted or not, possibly empty), compared exactly; if several have the same value, the last one in the source. The returned node is the very node in the tree.',
 ['inputs','configurations'],'all accepted sources x parse option sets x query strings',
 'Two ids in one literal.',
 [PZ],[('id registration','src/parser.rs Doc::set_tag_attr_value, Attr::check_if_id')],['DocHolder::get_element_by_id','Doc.id_tags'])
add('C22','parse_file is parse applied to the lines of the file',
 'parse_file gives the same tree, the same rendering and the same error (kind, line, column and index) as parsing the text of the file with each line ended by a single LF, for absolute and relative paths. A file that is missing, is a directory, or is not valid UTF-8 gives an error and not a panic.',
 ['inputs','configurations','fault_sequences'],'all file contents (any line endings, with or without final newline, invalid bytes) and path kinds x parse option sets',
 'One valid file is parsed and only is_ok() is asserted.',
 [PZ],[('line reader','src/parser.rs Doc::parse_file')],['Doc::parse_file'])
add('C23','Document detection follows the top-level nodes',
 'A parsed root is reported as a document exactly if an html element (any letter case) is among its top-level nodes, and then as syntactically fine exactly if, besides that one element, the top level has only comments, whitespace and doctypes; a root that is not a document, and any other node, is reported as not a document and fine.',
 ['inputs'],'all sequences of top-level nodes',
 'Three literals.',
 [PZ],[('detection','src/parser.rs Node::is_document')],['Node::is_document'])
add('C24','Node links and source positions are consistent',
 'In every parsed tree each node knows its parent, its index among its siblings and its root, the root knows its document (which keeps the options it was parsed with), and each end tag knows its element; two handles are reported as the same node exactly if they are. Start and end positions of every completed text, start tag, end tag, comment, doctype and CDATA section are the character positions of its piece of source (its first character; one past its last), so sibling ranges are ordered and lie between the start of the parent and its end tag.',
 ['inputs','configurations'],'all accepted sources x parse option sets',
 'No test checks positions; parent links are never checked on parsed trees.',
 [PZ],[('link setup','src/parser.rs Doc::add_new_node, fix_unescaped_lt, parse_tagend'),('positions','src/parser.rs Doc::set_tag_end_info, mem_position')],['Node.parent/index/root/document/begin_at/end_at','Node::is_same'])
add('C25','Insertion rules and character classes match their definition',
 'The insertion rule refuses every child for void elements, everything but text and whitespace for title and textarea, and CDATA outside svg and math, for names in any letter case, and allows the rest; the content-tag test accepts exactly script, style, title and textarea. The character classes (noncharacters, characters allowed in attribute keys and values, characters that need quotes) hold for exactly the code points of their definition.',
 ['inputs'],'all names (in all letter cases) x all node types; all 1,112,064 characters',
 'These public helpers are not tested.',
 [PZ,'src/util.rs'],[('insertion rule','src/parser.rs allow_insert, is_content_tag'),('classes','src/util.rs is_non_character, is_char_available_in_key, is_char_available_in_value; src/parser.rs Attr::need_quoted_char')],['allow_insert','is_content_tag','util::*','Attr::need_quoted_char'])
add('C26','End tags match names by the configured letter-case rule',
 'An end tag matches the innermost open element when the names are equal up to ASCII letter case (trailing whitespace of the end tag ignored); with case_sensitive_tagname a match that differs in case is an error for normal elements and is not an end tag for raw text elements. Names are otherwise compared exactly, and void elements are recognised in any letter case under every option.',
 ['inputs','configurations'],'all pairs of names and case variants, including non-letters and non-ASCII letters, x parse option sets',
 'Two literals.',
 [PZ],[('name comparison','src/parser.rs is_equal_chars_ignore_case, parse_tagend, parse_content_tag'),('void test','src/parser.rs is_void_tag')],['Doc::parse result','tree'])
add('C27','Attributes and nodes built by hand mean what was set',
 'Adding and setting attribute keys and values on an element touches the last attribute only and is kept exactly; its text is key, "=", quote, value, quote as set, and without quotes only where the value is a valid unquoted value of a named attribute; it is an id exactly if its key is "id" in any letter case and it has a value. A text node built by hand is whitespace exactly if it has nothing but ASCII whitespace, and keeps its text and position. An element put together from such parts renders as these parts say under every option set.',
 ['inputs','histories','configurations'],'all sequences of calls that build attributes, texts and an element, with all keys, values and quotes, x render option sets',
 'No test builds an attribute; text nodes are built once.',
 [PZ],[('attribute building','src/parser.rs TagMeta::add_attr_key, add_attr_value, set_attr_key, set_attr_value, attrs_to_string'),('attribute text and id','src/parser.rs Attr::build, check_if_id'),('text nodes','src/parser.rs Node::create_text_node')],['TagMeta','Attr::build','Attr::check_if_id','Node::create_text_node'])
add('C28','Every call answers from its arguments and the current tree alone',
 'Whatever was parsed, failed to parse, rendered, cloned, edited, grafted into another or dropped before, in the same or in other documents and in other threads, parsing the same text with the same options gives the same tree or the same error, and rendering, document detection and lookup answer for the tree as it is now. Reading never changes a tree; an edit shows in the next rendering of its own tree and in no other.',
 ['histories','schedules','inputs'],'all histories of parse, render, lookup, document detection, clone, edit and drop on several documents, also run at the same time in several threads',
 'Each test parses once and renders once; none interleaves documents or threads.',
 [PZ],[('parser state','src/parser.rs Doc::new, Doc::parse, Doc::next, Doc::eof'),('rendering state','src/parser.rs Node::build, RenderStatus'),('shared tables','src/parser.rs lazy_static block')],['Doc::parse','DocHolder','Node::build','Node::is_document'])
add('C29','A document owns its nodes; a held node owns what is below it',
 'All nodes stay alive while their document does or while a node above them is held, and are freed when neither is the case: dropping the document and the last held node leaves nothing. The links to the parent, the root and the document never keep anything alive and answer exactly while their target is alive. A held node or a clone keeps rendering its own subtree after its document is gone.',
 ['histories','inputs'],'all histories of holding, releasing, cutting out, cloning and dropping the nodes and documents of all parsed trees',
 'No test drops a document while it holds a node, and none can see a leak.',
 [PZ],[('ownership','src/parser.rs Node (weak links), Doc::into_root, Doc::add_new_node'),('clones','src/parser.rs Node::clone_node_with')],['RefNode','DocHolder','Node.parent/root/document'])
add('C30','A piece of source means the same wherever it stands',
 'Without auto_fix_unclosed_tag: if two sources are accepted, the one written directly after the other is accepted too, and its tree is the tree of the first followed by that of the second (text that meets at the boundary becomes one text), at positions moved by the length of the first; its rendering is the one rendering after the other, under all options but minify_spaces and decode_entity. An error in the first source, other than an unclosed tag, stays the same whatever follows; an error in the second after an accepted first is the same error, moved. An accepted source without its own "</q" written as the content of an element <q> gives that element with exactly this content, and renders as such.',
 ['inputs','configurations'],'all pairs of sources x parse option sets without auto_fix_unclosed_tag',
 'Each test parses one literal; none relates two sources.',
 [PZ],[('parser state after each construct','src/parser.rs Doc::next and the parse_* handlers'),('rendering','src/parser.rs Node::build_node, build_tree')],['Doc::parse result','DocHolder::render'])
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+'\n')
