//! Workload generators: element trees with their expected events, token soups,
//! mutations, and text pieces.

use crate::model::{name_char, name_start, XMLNS_URI, XML_URI};
use crate::rng::Rng;
use crate::run::{CKind, Ev, EvKind, Pos, QName};

//a Dictionary
/// Words and sizes worth trying; filled from the command line
#[derive(Default, Clone)]
pub struct Dict {
    pub words: Vec<String>,
    pub sizes: Vec<usize>,
}

//a Characters and strings
const INTERESTING: &[char] = &[
    '#', '"', '\'', ';', '{', '}', ':', '=', '\\', ' ', '\t', '\r', '\n', 'r', 'a', 'z', '0',
    '9', '-', '.', '_', '&', '<', '>', '!', '?', '/', '\u{0}', '\u{7f}', '\u{80}', '\u{85}',
    '\u{a0}', '\u{b7}', '\u{e9}', '\u{d7}', '\u{300}', '\u{36f}', '\u{370}', '\u{37e}',
    '\u{7ff}', '\u{800}', '\u{1680}', '\u{2028}', '\u{2029}', '\u{200b}', '\u{203f}',
    '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{effff}',
    '\u{f0000}', '\u{10ffff}', '\u{b}', '\u{c}', '(', ')', '[', ']', '|', '%', '@', '`', '~',
    '*', '+', ',', '$', '^',
];

/// Any character, with a taste for the interesting
pub fn any_char(r: &mut Rng) -> char {
    match r.below(12) {
        0..=4 => *r.pick(INTERESTING),
        5..=7 => (b'a' + r.below(26) as u8) as char,
        8 => (0x20 + r.below(0x5f) as u8) as char,
        9 => char::from_u32(r.below(0x250) as u32).unwrap(),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        },
    }
}

/// A character that XML 1.0 can carry and XML writers leave alone in some form
pub fn xml_ok(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{20}'..='\u{7e}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
        && c != '\u{feff}'
        && c != '\u{2028}'
        && !('\u{fdd0}'..='\u{fdef}').contains(&c)
        && (c as u32 & 0xfffe) != 0xfffe
}

const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "r", "_", "ab", "item", "xml", "xmlns", "meat", "a-b", "a.b", "a1",
    "_x", "r1", "rr", "\u{e9}t\u{e9}", "n\u{b7}", "\u{4e2d}\u{6587}", "\u{1f600}x", "A", "Z9",
    "director", "lt", "amp", "id", "name", "a\u{300}", "x\u{203f}y", "\u{37f}", "\u{1fff}",
];

pub fn name(r: &mut Rng, d: &Dict) -> String {
    match r.below(10) {
        0..=6 => r.pick(NAMES).to_string(),
        7 if !d.words.is_empty() => {
            let w = r.pick(&d.words);
            let mut s: String = w.chars().filter(|c| name_char(*c)).collect();
            if !s
                .chars()
                .next()
                .is_some_and(|c| name_start(c) && !c.is_whitespace())
            {
                s.insert(0, 'w');
            }
            s
        }
        _ => {
            let n = 1 + r.skewed(60);
            let mut s = String::new();
            while s.chars().count() < n {
                let c = any_char(r);
                // U+1680 is a name character, but whitespace where a token may start
                if (s.is_empty() && name_start(c) && !c.is_whitespace()) || (!s.is_empty() && name_char(c)) {
                    s.push(c);
                }
            }
            s
        }
    }
}

/// A name that xml-rs and expat both take: ASCII mostly
pub fn xml_name(r: &mut Rng) -> String {
    const N: &[&str] = &[
        "a", "b", "c", "x", "y", "r", "_", "ab", "item", "meat", "a-b", "a.b", "a1", "_x", "r1",
        "rr", "\u{e9}t\u{e9}", "\u{4e2d}\u{6587}", "A", "Z9", "director", "lt", "amp", "id",
        "name",
    ];
    if r.one_in(6) {
        let n = 1 + r.skewed(20);
        let mut s = String::from("n");
        for _ in 1..n {
            s.push((b'a' + r.below(26) as u8) as char);
        }
        s
    } else {
        r.pick(N).to_string()
    }
}

pub fn data_with(r: &mut Rng, d: &Dict, max: usize, f: impl Fn(char) -> bool) -> String {
    let mut s = String::new();
    if r.one_in(12) && !d.words.is_empty() {
        s.extend(r.pick(&d.words).chars().filter(|c| f(*c)));
    }
    let n = r.skewed(max);
    for _ in 0..n {
        for _ in 0..20 {
            let c = any_char(r);
            if f(c) {
                s.push(c);
                break;
            }
        }
    }
    s
}

/// Whitespace of any kind (at least one character if `some`)
pub fn ws(r: &mut Rng, some: bool) -> String {
    const W: &[char] = &[
        ' ', ' ', ' ', ' ', '\n', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}',
        '\u{2028}', '\u{3000}', '\u{2003}',
    ];
    let n = match r.below(8) {
        0..=4 => 1,
        5 => 0,
        6 => 2,
        _ => r.skewed(12),
    };
    let n = if some { n.max(1) } else { n };
    (0..n).map(|_| *r.pick(W)).collect()
}

/// Whitespace without newlines
fn ws_line(r: &mut Rng) -> String {
    const W: &[char] = &[' ', '\t', '\r', '\u{a0}', '\u{2028}', '\u{3000}'];
    let n = match r.below(4) {
        0 | 1 => 0,
        2 => 1,
        _ => 3,
    };
    (0..n).map(|_| *r.pick(W)).collect()
}

//a Trees
#[derive(Clone, Debug)]
pub struct GAttr {
    pub prefix: String,
    pub name: String,
    pub value: String,
    pub uri: String,
    /// '\'' or '"', or ' ' for none
    pub quote: char,
}

#[derive(Clone, Debug)]
pub enum Item {
    Elem(Elem),
    Str {
        raw: bool,
        quote: char,
        hashes: usize,
        data: String,
    },
    Comment(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub prefix: String,
    pub name: String,
    pub uri: String,
    pub attrs: Vec<GAttr>,
    pub boxed: bool,
    pub kids: Vec<Item>,
}

impl Elem {
    pub fn count(&self) -> usize {
        let mut n = 0;
        let mut todo = vec![self];
        while let Some(e) = todo.pop() {
            n += 1;
            for k in &e.kids {
                if let Item::Elem(c) = k {
                    todo.push(c);
                }
            }
        }
        n
    }
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub before: Vec<Vec<String>>,
    pub root: Elem,
    pub after: Vec<Vec<String>>,
}

/// What trees to make
#[derive(Clone)]
pub struct TreeCfg {
    /// total elements wanted, roughly
    pub elems: usize,
    pub deep: bool,
    pub max_attrs: usize,
    pub data: usize,
    pub xmlns: bool,
    /// only what XML can carry: no duplicate attributes, XML characters, plain names
    pub xml: bool,
    pub comments: bool,
    pub strings: bool,
    pub one_in_boxed: usize,
    pub premap: Vec<(String, String)>,
}

impl Default for TreeCfg {
    fn default() -> Self {
        TreeCfg {
            elems: 8,
            deep: false,
            max_attrs: 3,
            data: 30,
            xmlns: false,
            xml: false,
            comments: true,
            strings: true,
            one_in_boxed: 3,
            premap: vec![],
        }
    }
}

const URIS: &[&str] = &[
    "http://a", "http://b", "urn:x", "u", "", "http://example.com/very/long/uri/indeed#frag",
    "\u{e9}", "http://a", "with space",
];
const PREFIXES: &[&str] = &["p", "q", "x", "xs", "\u{e9}", "p1", "_"];

/// Prefixes that look like the reserved ones, or like those above
const ODD_PREFIXES: &[&str] = &["xml", "xmlnsx", "xmlns-", "xmln", "xml2", "Xmlns", "XML", "P", "pp", "e\u{301}"];

/// URIs that differ in ways a comparison of resources might overlook
const ODD_URIS: &[&str] = &[
    " ", " u", "u ", "\tu", "u\r", "U", "http://a/", "HTTP://a", "http://A", "http://a#",
    "http://a?", "http://a:80", "http://%61", "http://a/.", "&amp;", "u&#32;", "\u{a0}u", "e\u{301}",
    "\u{feff}u", "\\x75", "//", "xmlns", XML_URI, XMLNS_URI, "http://www.w3.org/2000/xmlns",
];

pub struct TreeGen<'a> {
    pub r: &'a mut Rng,
    pub d: &'a Dict,
    pub cfg: TreeCfg,
    left: usize,
    scopes: Vec<Vec<(String, String)>>,
}

impl<'a> TreeGen<'a> {
    pub fn new(r: &'a mut Rng, d: &'a Dict, cfg: TreeCfg) -> Self {
        let mut base = vec![(String::new(), String::new())];
        if cfg.xmlns {
            base.push(("xmlns".into(), XMLNS_URI.into()));
            base.push(("xml".into(), XML_URI.into()));
        }
        base.extend(cfg.premap.iter().cloned());
        let left = cfg.elems;
        TreeGen {
            r,
            d,
            cfg,
            left,
            scopes: vec![base],
        }
    }
    fn lookup(&self, prefix: &str) -> Option<&str> {
        for s in self.scopes.iter().rev() {
            for (p, u) in s.iter().rev() {
                if p == prefix {
                    return Some(u);
                }
            }
        }
        None
    }
    /// A prefix in scope, usually none
    fn prefix(&mut self) -> (String, String) {
        let mut opts: Vec<String> = vec![String::new(), String::new()];
        for s in &self.scopes {
            for (p, u) in s {
                if p != "xmlns" && !opts.contains(p) && !(self.cfg.xml && (p == "xml" || u.is_empty())) {
                    opts.push(p.clone());
                }
            }
        }
        let p = self.r.pick(&opts).clone();
        let u = self.lookup(&p).unwrap().to_string();
        (p, u)
    }
    /// A prefix to declare
    fn new_prefix(&mut self) -> String {
        if !self.cfg.xml {
            match self.r.below(12) {
                0..=1 => return self.r.pick(ODD_PREFIXES).to_string(),
                2 => loop {
                    let n = name(self.r, self.d);
                    if n != "xmlns" && n != "xml" {
                        return n;
                    }
                },
                _ => (),
            }
        }
        self.r.pick(PREFIXES).to_string()
    }
    pub fn gname(&mut self) -> String {
        if self.cfg.xml {
            xml_name(self.r)
        } else if self.cfg.xmlns && self.r.one_in(8) {
            self.new_prefix()
        } else {
            // A name whose declaration rules would not interfere
            loop {
                let n = name(self.r, self.d);
                if !(self.cfg.xmlns && n == "xmlns") {
                    return n;
                }
            }
        }
    }
    pub fn value(&mut self) -> (String, char) {
        let xml = self.cfg.xml;
        match self.r.below(4) {
            0 => {
                let mut v = data_with(self.r, self.d, self.cfg.data, |c| {
                    !c.is_whitespace() && (!xml || xml_ok(c))
                });
                if v.is_empty() || v.starts_with('"') || v.starts_with('\'') {
                    v.insert(0, 'v');
                }
                (v, ' ')
            }
            n => {
                let q = if n == 1 { '"' } else { '\'' };
                let v = data_with(self.r, self.d, self.cfg.data, |c| {
                    c != q && c != '\n' && (!xml || (xml_ok(c) && c != '\t'))
                });
                (v, q)
            }
        }
    }
    pub fn string(&mut self) -> Item {
        let xml = self.cfg.xml;
        let hashes = match self.r.below(6) {
            0..=2 => 0,
            3 => 1,
            4 => self.r.range(1, 4),
            _ => self.r.skewed(12),
        };
        let quote = if self.r.one_in(2) { '"' } else { '\'' };
        let mut data = data_with(self.r, self.d, self.cfg.data, |c| {
            (hashes > 0 || (c != quote && c != '\n')) && (!xml || xml_ok(c))
        });
        if hashes > 0 && self.r.one_in(3) {
            // near misses of the terminator
            let n = self.r.below(hashes);
            data.push(quote);
            data.push_str(&"#".repeat(n));
            if self.r.one_in(2) {
                data.push(if self.r.one_in(2) { quote } else { 'k' });
            }
            if self.r.one_in(3) {
                data.push(if quote == '"' { '\'' } else { '"' });
                data.push_str(&"#".repeat(hashes));
            }
        }
        let stop = format!("{}{}", quote, "#".repeat(hashes));
        while let Some(i) = data.find(&stop) {
            data.remove(i);
        }
        Item::Str {
            raw: self.r.one_in(2),
            quote,
            hashes,
            data,
        }
    }
    pub fn comment(&mut self) -> Vec<String> {
        let xml = self.cfg.xml;
        let n = if self.r.one_in(3) {
            1 + self.r.skewed(6)
        } else {
            1
        };
        (0..n)
            .map(|_| data_with(self.r, self.d, self.cfg.data, |c| c != '\n' && (!xml || xml_ok(c))))
            .collect()
    }
    fn elem(&mut self, level: usize) -> Elem {
        self.left = self.left.saturating_sub(1);
        // declarations first, so that the names can use them; written anywhere
        let mut scope: Vec<(String, String)> = vec![];
        let mut attrs: Vec<GAttr> = vec![];
        if self.cfg.xmlns && self.r.one_in(2) {
            let nd = if self.r.one_in(6) {
                4 + self.r.skewed(16)
            } else {
                self.r.range(1, 3)
            };
            for _ in 0..nd {
                let p = if self.r.one_in(4) {
                    String::new()
                } else {
                    self.new_prefix()
                };
                if scope.iter().any(|(q, _)| *q == p) {
                    continue;
                }
                let mut u = self.r.pick(URIS).to_string();
                if self.cfg.xml && !p.is_empty() && u.is_empty() {
                    u = "urn:y".into();
                }
                if !self.cfg.xml && self.r.one_in(4) {
                    u = if self.r.one_in(2) {
                        self.r.pick(ODD_URIS).to_string()
                    } else {
                        data_with(self.r, self.d, 12, |c| !matches!(c, '"' | '\'' | '\n'))
                    };
                }
                scope.push((p.clone(), u.clone()));
                let (dp, dn) = if p.is_empty() {
                    ("", "xmlns")
                } else {
                    ("xmlns", p.as_str())
                };
                attrs.push(GAttr {
                    prefix: dp.into(),
                    name: dn.into(),
                    value: u,
                    uri: XMLNS_URI.into(),
                    quote: if self.r.one_in(2) { '"' } else { '\'' },
                });
            }
        }
        self.scopes.push(scope);
        let (prefix, uri) = self.prefix();
        let name = self.gname();
        let na = if self.cfg.max_attrs > 0 {
            self.r.skewed(self.cfg.max_attrs)
        } else {
            0
        };
        for _ in 0..na {
            let (p, u) = self.prefix();
            let n = self.gname();
            if self.cfg.xml {
                // no two attributes with the same expanded or written name
                if attrs
                    .iter()
                    .any(|a| a.name == n && (a.prefix == p || a.uri == u || self.cfg.xmlns))
                {
                    continue;
                }
            }
            let (value, quote) = self.value();
            let at = self.r.below(attrs.len() + 1);
            attrs.insert(
                at,
                GAttr {
                    prefix: p,
                    name: n,
                    value,
                    uri: u,
                    quote,
                },
            );
        }
        // the same attribute again, whole or with another value
        if !self.cfg.xml && !attrs.is_empty() && self.r.one_in(4) {
            let i = self.r.below(attrs.len());
            let mut a = attrs[i].clone();
            if !(self.cfg.xmlns && (a.prefix == "xmlns" || a.name == "xmlns")) {
                if self.r.one_in(3) {
                    (a.value, a.quote) = self.value();
                }
                let at = if self.r.one_in(2) {
                    i + 1
                } else {
                    self.r.below(attrs.len() + 1)
                };
                attrs.insert(at, a);
            }
        }
        let mut kids: Vec<Item> = vec![];
        let nk = if self.cfg.deep {
            if self.left > 0 {
                1 + self.r.below(2)
            } else {
                0
            }
        } else {
            self.r.below(5)
        };
        for _ in 0..nk {
            match self.r.below(6) {
                0 if self.cfg.strings => {
                    let s = self.string();
                    kids.push(s)
                }
                1 if self.cfg.comments => {
                    let c = self.comment();
                    kids.push(Item::Comment(c))
                }
                _ => {
                    if self.left > 0 && level < 4000 {
                        let e = self.elem(level + 1);
                        kids.push(Item::Elem(e));
                    } else if self.cfg.strings {
                        let s = self.string();
                        kids.push(s)
                    }
                }
            }
        }
        // the same string or comment again
        if !kids.is_empty() && self.r.one_in(5) {
            let i = self.r.below(kids.len());
            if !matches!(kids[i], Item::Elem(_)) {
                for _ in 0..1 + self.r.skewed(4) {
                    kids.insert(i, kids[i].clone());
                }
            }
        }
        // content after an element child needs that child closed: box it
        for i in 0..kids.len() {
            let next_is_elem = match kids.get(i + 1) {
                None => true,
                Some(Item::Elem(_)) => true,
                _ => false,
            };
            if let Item::Elem(e) = &mut kids[i] {
                if !next_is_elem {
                    e.boxed = true;
                }
            }
        }
        self.scopes.pop();
        Elem {
            prefix,
            name,
            uri,
            attrs,
            boxed: self.r.one_in(self.cfg.one_in_boxed),
            kids,
        }
    }
    pub fn doc(mut self) -> Doc {
        let mut before = vec![];
        let mut after = vec![];
        if self.cfg.comments {
            while self.r.one_in(3) {
                let c = self.comment();
                before.push(c);
            }
        }
        let mut root = self.elem(1);
        // spend what is left as children of the root
        let mut guard = 0;
        while self.left > 0 && guard < 10000 {
            guard += 1;
            if let Some(Item::Elem(_)) | None = root.kids.last() {
                self.scopes.push(
                    root.attrs
                        .iter()
                        .filter(|_| self.cfg.xmlns)
                        .filter_map(|a| {
                            if a.prefix.is_empty() && a.name == "xmlns" {
                                Some((String::new(), a.value.clone()))
                            } else if a.prefix == "xmlns" {
                                Some((a.name.clone(), a.value.clone()))
                            } else {
                                None
                            }
                        })
                        .collect(),
                );
                let e = self.elem(2);
                self.scopes.pop();
                root.kids.push(Item::Elem(e));
            } else {
                break;
            }
        }
        if self.cfg.comments && root.boxed {
            while self.r.one_in(3) {
                let c = self.comment();
                after.push(c);
            }
        }
        Doc {
            before,
            root,
            after,
        }
    }
}

//a Writing trees
/// Writes a tree and notes the expected events
pub struct Writer<'a> {
    r: Option<&'a mut Rng>,
    pub text: String,
    pub evs: Vec<Ev>,
    line: usize,
    col: usize,
    last_end: Pos,
    /// unboxed elements not yet ended, with their depth in the current box
    pending: Vec<QName>,
    after_comment: bool,
    need_ws: bool,
    /// drop the newline after a comment at the very end
    trim_end: bool,
}

impl<'a> Writer<'a> {
    pub fn new(r: Option<&'a mut Rng>, version: usize) -> Self {
        let p = Pos {
            ofs: 0,
            line: 1,
            col: 1,
        };
        Writer {
            r,
            text: String::new(),
            evs: vec![Ev {
                k: EvKind::StartDoc(version),
                s: p,
                e: p,
            }],
            line: 1,
            col: 1,
            last_end: p,
            pending: vec![],
            after_comment: false,
            need_ws: false,
            trim_end: false,
        }
    }
    fn pos(&self) -> Pos {
        Pos {
            ofs: self.text.len(),
            line: self.line,
            col: self.col,
        }
    }
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            self.text.push(c);
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
    }
    fn space(&mut self) {
        let need = self.need_ws;
        let s = match &mut self.r {
            None => {
                if need {
                    " ".to_string()
                } else {
                    String::new()
                }
            }
            Some(r) => ws(r, need),
        };
        self.need_ws = false;
        self.put(&s);
    }
    fn ev(&mut self, k: EvKind, s: Pos, e: Pos) {
        self.evs.push(Ev { k, s, e });
    }
    fn comment(&mut self, lines: &[String]) {
        if self.after_comment {
            // an empty line keeps this comment separate
            self.put("\n");
        }
        self.space();
        let s = self.pos();
        for (i, l) in lines.iter().enumerate() {
            if i > 0 {
                self.put("\n");
                if let Some(r) = &mut self.r {
                    let w = ws_line(r);
                    self.put(&w);
                }
            }
            self.put(";");
            self.put(l);
        }
        let before_nl = self.pos();
        self.put("\n");
        let e = self.pos();
        let lengths = lines.iter().map(|l| l.len()).collect();
        self.ev(EvKind::Comment(lines.join("\n"), lengths), s, e);
        self.last_end = e;
        self.after_comment = true;
        let _ = before_nl;
    }
    fn string(&mut self, raw: bool, quote: char, hashes: usize, data: &str) {
        self.space();
        self.after_comment = false;
        let s = self.pos();
        if raw {
            self.put("r");
        }
        let h = "#".repeat(hashes);
        self.put(&h);
        self.put(&quote.to_string());
        self.put(data);
        self.put(&quote.to_string());
        self.put(&h);
        let e = self.pos();
        self.last_end = e;
        self.ev(
            EvKind::Content(if raw { CKind::Raw } else { CKind::Int }, data.to_string()),
            s,
            e,
        );
    }
    fn end_pending(&mut self, keep: usize, at: Pos) {
        while self.pending.len() > keep {
            let q = self.pending.pop().unwrap();
            self.ev(EvKind::End(q), at, at);
        }
    }
    /// Write an element at depth `depth` of its box, leaving it pending if not boxed
    fn elem(&mut self, e: &Elem, depth: usize) {
        // explicit stack of (element, depth, next child, pending elements at its start)
        enum Job<'b> {
            Open(&'b Elem, usize),
            Item(&'b Item, usize),
            Close(&'b Elem, usize, Vec<QName>),
        }
        let mut jobs = vec![Job::Open(e, depth)];
        while let Some(j) = jobs.pop() {
            match j {
                Job::Item(Item::Comment(c), _) => self.comment(c),
                Job::Item(
                    Item::Str {
                        raw,
                        quote,
                        hashes,
                        data,
                    },
                    _,
                ) => self.string(*raw, *quote, *hashes, data),
                Job::Item(Item::Elem(c), d) => jobs.push(Job::Open(c, d)),
                Job::Open(e, depth) => {
                    self.space();
                    self.after_comment = false;
                    let s = self.pos();
                    self.end_pending(depth - 1, s);
                    let mut t = "#".repeat(depth);
                    if !e.prefix.is_empty() {
                        t.push_str(&e.prefix);
                        t.push(':');
                    }
                    t.push_str(&e.name);
                    if e.boxed {
                        t.push('{');
                    }
                    self.put(&t);
                    let en = self.pos();
                    self.last_end = en;
                    self.need_ws = true;
                    let q = QName {
                        prefix: e.prefix.clone(),
                        uri: e.uri.clone(),
                        name: e.name.clone(),
                    };
                    self.ev(
                        EvKind::Start(
                            q.clone(),
                            e.attrs
                                .iter()
                                .map(|a| {
                                    (
                                        QName {
                                            prefix: a.prefix.clone(),
                                            uri: a.uri.clone(),
                                            name: a.name.clone(),
                                        },
                                        a.value.clone(),
                                    )
                                })
                                .collect(),
                        ),
                        s,
                        en,
                    );
                    for a in &e.attrs {
                        self.space();
                        let mut t = String::new();
                        if !a.prefix.is_empty() {
                            t.push_str(&a.prefix);
                            t.push(':');
                        }
                        t.push_str(&a.name);
                        t.push('=');
                        if a.quote == ' ' {
                            t.push_str(&a.value);
                            self.need_ws = true;
                        } else {
                            t.push(a.quote);
                            t.push_str(&a.value);
                            t.push(a.quote);
                        }
                        self.put(&t);
                        self.last_end = self.pos();
                    }
                    let kid_depth = if e.boxed { 1 } else { depth + 1 };
                    if e.boxed {
                        let mut outer = std::mem::take(&mut self.pending);
                        outer.push(q);
                        jobs.push(Job::Close(e, depth, outer));
                    } else {
                        self.pending.push(q);
                    }
                    for k in e.kids.iter().rev() {
                        jobs.push(Job::Item(k, kid_depth));
                    }
                }
                Job::Close(e, depth, mut outer) => {
                    self.space();
                    self.after_comment = false;
                    let s = self.pos();
                    self.end_pending(0, s);
                    let mut t = "#".repeat(depth);
                    if !e.prefix.is_empty() {
                        t.push_str(&e.prefix);
                        t.push(':');
                    }
                    t.push_str(&e.name);
                    t.push('}');
                    self.put(&t);
                    let en = self.pos();
                    let q = outer.pop().unwrap();
                    self.ev(EvKind::End(q), s, en);
                    self.last_end = en;
                    self.need_ws = true;
                    self.pending = outer;
                }
            }
        }
    }
    pub fn write(mut self, d: &Doc) -> (String, Vec<Ev>) {
        for c in &d.before {
            self.comment(c);
        }
        self.elem(&d.root, 1);
        for c in &d.after {
            self.comment(c);
        }
        let trim = self.trim_end
            || match &mut self.r {
                Some(r) => r.one_in(2),
                None => false,
            };
        if self.after_comment && trim {
            // the comment may end with the text: drop its newline
            let p = self.text.pop();
            debug_assert_eq!(p, Some('\n'));
            let last = self.evs.last_mut().unwrap();
            let lens = match &last.k {
                EvKind::Comment(_, l) => l.clone(),
                _ => vec![],
            };
            debug_assert!(!lens.is_empty());
            let s = last.s;
            let t = &self.text[s.ofs..];
            let nl = t.matches('\n').count();
            let e = Pos {
                ofs: self.text.len(),
                line: s.line + nl,
                col: match t.rfind('\n') {
                    None => s.col + t.chars().count(),
                    Some(i) => 1 + t[i + 1..].chars().count(),
                },
            };
            last.e = e;
            self.last_end = e;
        } else {
            self.need_ws = false;
            self.space();
        }
        let at = self.last_end;
        self.end_pending(0, at);
        self.ev(EvKind::EndDoc, at, at);
        (self.text, self.evs)
    }
}

/// Write a document with random layout
pub fn write_doc(r: &mut Rng, d: &Doc, version: usize) -> (String, Vec<Ev>) {
    Writer::new(Some(r), version).write(d)
}

/// Write a document with minimal layout
pub fn write_plain(d: &Doc, version: usize) -> (String, Vec<Ev>) {
    Writer::new(None, version).write(d)
}

/// Box or unbox elements at random, keeping what must be boxed
pub fn rebox(r: &mut Rng, e: &mut Elem) {
    let mut todo: Vec<*mut Elem> = vec![e];
    let mut force: Vec<bool> = vec![false];
    while let Some(p) = todo.pop() {
        let must = force.pop().unwrap();
        // the tree is not touched otherwise while these pointers live
        let e = unsafe { &mut *p };
        e.boxed = must || r.one_in(2);
        let n = e.kids.len();
        let must_kid: Vec<bool> = (0..n)
            .map(|i| !matches!(e.kids.get(i + 1), None | Some(Item::Elem(_))))
            .collect();
        for (i, k) in e.kids.iter_mut().enumerate() {
            if let Item::Elem(c) = k {
                todo.push(c);
                force.push(must_kid[i]);
            }
        }
    }
}

//a Soup and mutation
const SOUP: &[&str] = &[
    "#a ", "#b ", "#a{ ", "#a} ", "##a ", "##b ", "##a{ ", "##a} ", "##b{ ", "##b} ", "###a ",
    "###c{ ", "###c} ", "####a ", "#x:a ", "#x:a{ ", "#x:a} ", "#r ", "#r{ ", "#r} ", "\"s\" ",
    "'s' ", "r\"s\" ", "r's' ", "#\"s\"# ", "#'s\n'# ", "r#\"s\"# ", "r##'s'#'## ", "##\"s\"## ",
    "; c\n", ";\n", ";c\n  ;d\n", " ; x\n", "x=1 ", "x='1' ", "x=\"1\" ", "x='' ", "y=\u{e9} ",
    "x:y=1 ", "xmlns='u' ", "xmlns:x='u' ", "xmlns:x='' ", "xmlns='' ", "xml:y=1 ", "\n", " ",
    "\t", "\r\n", "\u{a0}", "\u{2028}", "#a", "a=", "a", "\"", "'", "#", ";", "r", "=", ":",
    "{", "}", "#a:", "a:b", "\\", "\u{e9}", "#\u{e9} ", "r#", "##", "\"a", "'a\n'", "#\"a",
    "#a\u{1680}", "0", "#0 ", "#-", "a='1'b='2' ", "#a{x ", "%",
];

/// A sequence of plausible tokens, some broken
pub fn soup(r: &mut Rng, d: &Dict, max: usize) -> String {
    let mut s = String::new();
    if r.one_in(2) {
        s.push_str("#a ");
    }
    let n = r.skewed(max);
    let narrow = r.below(4);
    for _ in 0..n {
        match narrow {
            // mostly structure
            0 => s.push_str(SOUP[r.below(20)]),
            1 => s.push_str(SOUP[r.below(46)]),
            _ => match r.below(20) {
                0 if !d.words.is_empty() => {
                    let w = r.pick(&d.words).clone();
                    s.push_str(&w)
                }
                1 => s.push(any_char(r)),
                2 => {
                    s.push_str(&"#".repeat(1 + r.skewed(6)));
                    s.push_str(&name(r, d));
                    s.push_str(*r.pick(&["", "{", "}"]));
                    s.push(' ');
                }
                3 => {
                    s.push_str(&name(r, d));
                    s.push('=');
                    s.push_str(&data_with(r, d, 6, |c| !c.is_whitespace()));
                    s.push(' ');
                }
                _ => s.push_str(r.pick(SOUP)),
            },
        }
    }
    s
}

/// Random characters
pub fn noise(r: &mut Rng, max: usize) -> String {
    let n = r.skewed(max);
    let few: Vec<char> = (0..r.range(1, 5)).map(|_| any_char(r)).collect();
    let narrow = r.one_in(2);
    (0..n)
        .map(|_| if narrow { *r.pick(&few) } else { any_char(r) })
        .collect()
}

/// Change a text in a few places
pub fn mutate(r: &mut Rng, d: &Dict, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = c.len();
        let i = r.below(n + 1);
        match r.below(9) {
            0 => {
                if i < n {
                    c.remove(i);
                }
            }
            1 => c.insert(i, any_char(r)),
            2 => {
                if i < n {
                    c[i] = any_char(r)
                }
            }
            3 => c.truncate(i),
            4 => {
                let j = (i + r.below(12)).min(n);
                let part: Vec<char> = c[i..j].to_vec();
                let at = r.below(n + 1);
                for (k, x) in part.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            5 => {
                let j = (i + r.below(12)).min(n);
                c.drain(i..j);
            }
            6 => {
                let w: Vec<char> = r.pick(SOUP).chars().collect();
                for (k, x) in w.into_iter().enumerate() {
                    c.insert(i + k, x);
                }
            }
            7 => {
                if n > 1 {
                    let j = r.below(n);
                    if i < n {
                        c.swap(i, j);
                    }
                }
            }
            _ => {
                if !d.words.is_empty() {
                    let w: Vec<char> = r.pick(&d.words).chars().collect();
                    for (k, x) in w.into_iter().enumerate() {
                        c.insert(i + k, x);
                    }
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A document of some kind: soup, mutated tree, noise, tree
pub fn any_text(r: &mut Rng, d: &Dict, xmlns: bool) -> String {
    match r.below(10) {
        0..=3 => soup(r, d, 30),
        4..=7 => {
            let cfg = TreeCfg {
                elems: 1 + r.skewed(20),
                xmlns,
                data: 12,
                ..TreeCfg::default()
            };
            let doc = TreeGen::new(r, d, cfg).doc();
            let (t, _) = write_doc(r, &doc, 100);
            mutate(r, d, &t)
        }
        8 => noise(r, 40),
        _ => {
            let cfg = TreeCfg {
                elems: 1 + r.skewed(20),
                xmlns,
                ..TreeCfg::default()
            };
            let doc = TreeGen::new(r, d, cfg).doc();
            write_doc(r, &doc, 100).0
        }
    }
}

/// A text with one part repeated many times
pub fn pumped(r: &mut Rng, d: &Dict, xmlns: bool, max: usize) -> String {
    const OPEN: &[&str] = &[
        "", "#a ", "#a{ ", "#a{ xmlns:x='u' ", "#a x='", "#a \"", "#a #\"", "#a r##'", "#a ;", "#",
        "#a\n", "#a x=",
    ];
    const CLOSE: &[&str] = &["", "", " #a}", "\n#a}", "'", "\"", "\"#", "'##", "\n", "##b ", "z"];
    let (before, part, after) = match r.below(4) {
        0 => {
            let text: Vec<char> = any_text(r, d, xmlns).chars().collect();
            let i = r.below(text.len() + 1);
            let j = (i + 1 + r.skewed(30)).min(text.len());
            (
                text[..i].iter().collect(),
                text[i..j].iter().collect(),
                text[j..].iter().collect(),
            )
        }
        1 => (
            r.pick(OPEN).to_string(),
            noise(r, 4),
            r.pick(CLOSE).to_string(),
        ),
        k => {
            let n = if k == 2 { 46 } else { SOUP.len() };
            let part: String = (0..1 + r.skewed(4)).map(|_| SOUP[r.below(n)]).collect();
            (
                r.pick(OPEN).to_string(),
                part,
                r.pick(CLOSE).to_string(),
            )
        }
    };
    if part.is_empty() {
        return format!("{}{}", before, after);
    }
    let len = match r.below(4) {
        0 => max / 100,
        1 | 2 => max / 10,
        _ => max,
    };
    let times = 2 + r.below(1 + len / part.len());
    format!("{}{}{}", before, part.repeat(times), after)
}

/// All strings over an alphabet of pieces, by number: digits in base n with length
pub fn nth_string(pieces: &[&str], mut k: u64) -> String {
    let n = pieces.len() as u64;
    let mut len = 0u32;
    let mut count = 1u64;
    while k >= count {
        k -= count;
        count *= n;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(pieces[(k % n) as usize]);
        k /= n;
    }
    s
}

/// Number of strings over n pieces of length at most len
pub fn count_strings(n: usize, len: u32) -> u64 {
    (0..=len).map(|l| (n as u64).pow(l)).sum()
}

/// Sizes at which things tend to break
pub fn sizes(d: &Dict, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..70).collect();
    let mut p = 64;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    for x in [100, 200, 300, 500, 1000, 1500, 2000, 3000, 5000, 10000, 50000, 100000] {
        v.extend([x - 1, x, x + 1]);
    }
    for x in &d.sizes {
        v.extend([x.saturating_sub(1), *x, x + 1]);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
