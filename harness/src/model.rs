//! Reference reader: what the documented grammar makes of a text.
//!
//! Written from the documentation, not from the implementation: a hand tokenizer over a
//! character vector, box contexts each with their own list of open elements, and
//! association lists for namespaces.

use crate::run::{CKind, End, Ev, EvKind, Opts, Outcome, Pos, QName};

pub const XMLNS_URI: &str = "http://www.w3.org/2000/xmlns/";
pub const XML_URI: &str = "http://www.w3.org/XML/1998/namespace";

//a Characters
/// NameStartChar of XML 1.0 fifth edition, without the colon
pub fn name_start(c: char) -> bool {
    matches!(c,
        'A'..='Z' | '_' | 'a'..='z'
        | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}

/// NameChar of XML 1.0 fifth edition, without the colon
pub fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

//a Line index
pub struct Lines {
    starts: Vec<usize>,
    /// characters before each multiple of 64 bytes
    cum: Vec<usize>,
}

impl Lines {
    pub fn new(text: &str) -> Self {
        let mut starts = vec![0];
        let mut cum = vec![];
        let mut chars = 0;
        for (i, b) in text.bytes().enumerate() {
            if i % 64 == 0 {
                cum.push(chars);
            }
            if b & 0xc0 != 0x80 {
                chars += 1;
            }
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        cum.push(chars);
        Lines { starts, cum }
    }
    fn chars_before(&self, text: &str, ofs: usize) -> usize {
        let k = ofs / 64;
        if k >= self.cum.len() {
            return *self.cum.last().unwrap();
        }
        let b = &text.as_bytes()[(k * 64).min(text.len())..ofs];
        self.cum[k] + b.iter().filter(|b| **b & 0xc0 != 0x80).count()
    }
    pub fn pos(&self, text: &str, ofs: usize) -> Pos {
        let line = self.starts.partition_point(|s| *s <= ofs);
        let start = self.starts[line - 1];
        Pos {
            ofs,
            line,
            col: 1 + self.chars_before(text, ofs) - self.chars_before(text, start),
        }
    }
}

//a Tokens
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Open {
        prefix: String,
        name: String,
        depth: usize,
        boxed: bool,
    },
    Close {
        prefix: String,
        name: String,
        depth: usize,
    },
    Attr {
        prefix: String,
        name: String,
        value: String,
    },
    Str {
        raw: bool,
        data: String,
    },
    Comment(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MErr {
    pub kind: &'static str,
    pub s: usize,
    pub e: usize,
    pub detail: String,
}

fn merr(kind: &'static str, s: usize, e: usize, detail: impl ToString) -> MErr {
    MErr {
        kind,
        s,
        e,
        detail: detail.to_string(),
    }
}

struct Scan<'a> {
    text: &'a str,
    c: Vec<char>,
    /// byte offset of each character, and of the end
    o: Vec<usize>,
}

impl<'a> Scan<'a> {
    fn new(text: &'a str) -> Self {
        let mut c = vec![];
        let mut o = vec![];
        for (i, ch) in text.char_indices() {
            c.push(ch);
            o.push(i);
        }
        o.push(text.len());
        Scan { text, c, o }
    }
    fn at(&self, i: usize) -> Option<char> {
        self.c.get(i).copied()
    }
    fn text(&self, i: usize, j: usize) -> String {
        self.text[self.o[i]..self.o[j]].to_string()
    }
    fn run(&self, mut i: usize, f: impl Fn(char) -> bool) -> usize {
        while i < self.c.len() && f(self.c[i]) {
            i += 1;
        }
        i
    }
    /// [Name:]Name at i
    fn name(&self, i: usize) -> Option<(usize, String, String)> {
        let one = |i: usize| -> Option<usize> {
            if self.at(i).is_some_and(name_start) {
                Some(self.run(i, name_char))
            } else {
                None
            }
        };
        let e = one(i)?;
        if self.at(e) == Some(':') {
            let e2 = one(e + 1)?;
            Some((e2, self.text(i, e), self.text(e + 1, e2)))
        } else {
            Some((e, String::new(), self.text(i, e)))
        }
    }
    /// The end of the data and of the string, for a string whose data starts at i
    /// where `start` is where an error is reported
    fn string(
        &self,
        start: usize,
        i: usize,
        quote: char,
        hashes: usize,
    ) -> Result<(usize, usize), MErr> {
        let mut j = i;
        while j < self.c.len() {
            if self.c[j] == '\n' && hashes == 0 {
                return Err(merr(
                    "UnexpectedNewlineInQuotedString",
                    self.o[start],
                    self.o[j],
                    "",
                ));
            }
            if self.c[j] == quote
                && j + hashes < self.c.len()
                && self.c[j + 1..=j + hashes].iter().all(|c| *c == '#')
            {
                return Ok((j, j + 1 + hashes));
            }
            j += 1;
        }
        Err(merr("UnexpectedEOF", self.o[start], self.o[start], ""))
    }
    /// The token at i, which is not whitespace
    fn token(&self, i: usize) -> Result<(usize, Tok), MErr> {
        let ch = self.c[i];
        if ch == ';' {
            return Ok(self.comment(i));
        }
        // A string, perhaps raw, perhaps with hashes
        let h0 = if ch == 'r' { i + 1 } else { i };
        let h1 = self.run(h0, |c| c == '#');
        if let Some(q @ ('"' | '\'')) = self.at(h1) {
            let (de, e) = self.string(i, h1 + 1, q, h1 - h0)?;
            return Ok((
                e,
                Tok::Str {
                    raw: ch == 'r',
                    data: self.text(h1 + 1, de),
                },
            ));
        }
        if ch == '#' {
            return self.tag(i);
        }
        if let Some((e, prefix, name)) = self.name(i) {
            return self.attr(i, e, prefix, name);
        }
        Err(merr("UnexpectedCharacter", self.o[i], self.o[i], ch))
    }
    fn comment(&self, i: usize) -> (usize, Tok) {
        let mut lines = vec![];
        let mut j = i;
        loop {
            // j is at a ';'
            let e = self.run(j + 1, |c| c != '\n');
            lines.push(self.text(j + 1, e));
            if e >= self.c.len() {
                return (e, Tok::Comment(lines));
            }
            let next = self.run(e + 1, |c| c != '\n' && c.is_whitespace());
            if self.at(next) != Some(';') {
                return (e + 1, Tok::Comment(lines));
            }
            j = next;
        }
    }
    fn tag(&self, i: usize) -> Result<(usize, Tok), MErr> {
        let h = self.run(i, |c| c == '#');
        let Some((mut e, prefix, name)) = self.name(h) else {
            return Err(merr("ExpectedTagName", self.o[i], self.o[h], ""));
        };
        let depth = h - i;
        let brace = self.at(e).filter(|c| *c == '{' || *c == '}');
        if brace.is_some() {
            e += 1;
        }
        if self.at(e).is_some_and(|c| !c.is_whitespace()) {
            return Err(merr(
                "ExpectedWhitespaceAfterTag",
                self.o[i],
                self.o[e],
                "",
            ));
        }
        let t = match brace {
            Some('}') => Tok::Close {
                prefix,
                name,
                depth,
            },
            b => Tok::Open {
                prefix,
                name,
                depth,
                boxed: b.is_some(),
            },
        };
        Ok((e, t))
    }
    fn attr(
        &self,
        i: usize,
        e: usize,
        prefix: String,
        name: String,
    ) -> Result<(usize, Tok), MErr> {
        match self.at(e) {
            None => return Err(merr("UnexpectedEOF", self.o[i], self.o[e], "")),
            Some('=') => (),
            Some(c) => return Err(merr("ExpectedEquals", self.o[i], self.o[e], c)),
        }
        let v = e + 1;
        let bad = match self.at(v) {
            None => merr("UnexpectedEOF", self.o[v], self.o[v], ""),
            Some(c) => merr("UnexpectedCharacter", self.o[v], self.o[v], c),
        };
        let (data, end) = match self.at(v) {
            None => return Err(bad),
            Some(q @ ('"' | '\'')) => {
                let (de, e) = self.string(v, v + 1, q, 0)?;
                (self.text(v + 1, de), e)
            }
            Some(_) => {
                let e = self.run(v, |c| !c.is_whitespace());
                if e == v {
                    return Err(bad);
                }
                (self.text(v, e), e)
            }
        };
        Ok((
            end,
            Tok::Attr {
                prefix,
                name,
                value: data,
            },
        ))
    }
}

//a Structure
struct Elem {
    prefix: String,
    name: String,
    q: QName,
}

/// A box context: the tag that opened it (None for the document) and its open elements
struct BoxCtx {
    opened_by: Option<(String, String, usize)>,
    open: Vec<Elem>,
}

struct Building {
    prefix: String,
    name: String,
    s: usize,
    e: usize,
    attrs: Vec<(String, String, String, usize, usize)>,
}

/// What the model expects: the events, and the error if refused
pub struct Expect {
    pub evs: Vec<Ev>,
    /// None if accepted; otherwise the acceptable errors, the usual one first
    pub errs: Vec<MErr>,
    /// Events at the end of `evs` that may or may not come before the error: ends
    /// implied by the offending tag
    pub optional_tail: usize,
    /// Statistics for coverage
    pub max_depth: usize,
    pub max_box: usize,
}

impl Expect {
    pub fn accepted(&self) -> bool {
        self.errs.is_empty()
    }
}

struct M<'a> {
    text: &'a str,
    lines: Lines,
    xmlns: bool,
    evs: Vec<Ev>,
    ctxs: Vec<BoxCtx>,
    /// one scope for each open element over the caller's
    scopes: Vec<Vec<(String, String)>>,
    building: Option<(Building, bool, usize)>,
    roots: usize,
    max_depth: usize,
}

impl<'a> M<'a> {
    fn ev(&mut self, k: EvKind, s: usize, e: usize) {
        let s = self.lines.pos(self.text, s);
        let e = self.lines.pos(self.text, e);
        self.evs.push(Ev { k, s, e });
    }
    fn lookup(&self, extra: &[(String, String)], prefix: &str) -> Option<String> {
        for (p, u) in extra.iter().rev() {
            if p == prefix {
                return Some(u.clone());
            }
        }
        for s in self.scopes.iter().rev() {
            for (p, u) in s.iter().rev() {
                if p == prefix {
                    return Some(u.clone());
                }
            }
        }
        None
    }
    fn decls(&self, b: &Building) -> Vec<(String, String)> {
        let mut v = vec![];
        if self.xmlns {
            for (p, n, val, _, _) in &b.attrs {
                if p.is_empty() && n == "xmlns" {
                    v.push((String::new(), val.clone()));
                } else if p == "xmlns" {
                    v.push((n.clone(), val.clone()));
                }
            }
        }
        v
    }
    fn unmapped(&self, b: &Building) -> Vec<MErr> {
        let d = self.decls(b);
        let mut v = vec![];
        if self.lookup(&d, &b.prefix).is_none() {
            v.push(merr("MarkupError/UnmappedPrefix", b.s, b.e, &b.prefix));
        }
        for (p, n, _, s, e) in &b.attrs {
            if self.xmlns && p.is_empty() && n == "xmlns" {
                continue;
            }
            if self.lookup(&d, p).is_none() {
                v.push(merr("MarkupError/UnmappedPrefix", *s, *e, p));
            }
        }
        v
    }
    /// The attributes of the element being built are complete
    fn finish_element(&mut self) -> Result<(), Vec<MErr>> {
        let Some((b, boxed, depth)) = self.building.take() else {
            return Ok(());
        };
        let bad = self.unmapped(&b);
        if !bad.is_empty() {
            return Err(bad);
        }
        let d = self.decls(&b);
        let q = QName {
            prefix: b.prefix.clone(),
            uri: self.lookup(&d, &b.prefix).unwrap(),
            name: b.name.clone(),
        };
        let mut attrs = vec![];
        for (p, n, v, _, _) in &b.attrs {
            let uri = if self.xmlns && p.is_empty() && n == "xmlns" {
                XMLNS_URI.to_string()
            } else {
                self.lookup(&d, p).unwrap()
            };
            attrs.push((
                QName {
                    prefix: p.clone(),
                    uri,
                    name: n.clone(),
                },
                v.clone(),
            ));
        }
        self.ev(EvKind::Start(q.clone(), attrs), b.s, b.e);
        self.scopes.push(d);
        self.ctxs.last_mut().unwrap().open.push(Elem {
            prefix: b.prefix.clone(),
            name: b.name.clone(),
            q,
        });
        self.max_depth = self.max_depth.max(self.scopes.len() - 1);
        if boxed {
            self.ctxs.push(BoxCtx {
                opened_by: Some((b.prefix, b.name, depth)),
                open: vec![],
            });
        }
        Ok(())
    }
    /// End the last open element of the current box context
    fn end_one(&mut self, s: usize, e: usize) {
        let el = self.ctxs.last_mut().unwrap().open.pop().unwrap();
        let _ = (&el.prefix, &el.name);
        self.scopes.pop();
        self.ev(EvKind::End(el.q), s, e);
    }
    fn nothing_open(&self) -> bool {
        self.ctxs.len() == 1 && self.ctxs[0].open.is_empty()
    }
}

/// Tokens of a text for coverage, and the tokenizing error if any
pub fn tokens(text: &str) -> (Vec<(Tok, usize, usize)>, Option<MErr>) {
    let sc = Scan::new(text);
    let mut v = vec![];
    let mut i = 0;
    loop {
        i = sc.run(i, |c| c.is_whitespace());
        if i >= sc.c.len() {
            return (v, None);
        }
        match sc.token(i) {
            Ok((e, t)) => {
                v.push((t, sc.o[i], sc.o[e]));
                i = e;
            }
            Err(e) => return (v, Some(e)),
        }
    }
}

pub fn read(text: &str, o: &Opts) -> Expect {
    let sc = Scan::new(text);
    let mut base = vec![(String::new(), String::new())];
    if o.xmlns {
        base.push(("xmlns".into(), XMLNS_URI.into()));
        base.push(("xml".into(), XML_URI.into()));
    }
    base.extend(o.premap.iter().cloned());
    let mut m = M {
        text,
        lines: Lines::new(text),
        xmlns: o.xmlns,
        evs: vec![],
        ctxs: vec![BoxCtx {
            opened_by: None,
            open: vec![],
        }],
        scopes: vec![base],
        building: None,
        roots: 0,
        max_depth: 0,
    };
    let mut max_box = 0;
    m.ev(EvKind::StartDoc(o.version.unwrap_or(100)), 0, 0);
    let mut i = 0;
    let mut last_end = 0;
    let mut tail;
    let errs: Vec<MErr> = 'read: loop {
        tail = 0;
        i = sc.run(i, |c| c.is_whitespace());
        if i >= sc.c.len() {
            break vec![];
        }
        let (ei, tok) = match sc.token(i) {
            Ok(x) => x,
            Err(e) => {
                let mut v = vec![e];
                if let Some((b, _, _)) = &m.building {
                    v.extend(m.unmapped(b));
                }
                break v;
            }
        };
        let (s, e) = (sc.o[i], sc.o[ei]);
        i = ei;
        if let Tok::Attr {
            prefix,
            name,
            value,
        } = tok
        {
            let Some((b, _, _)) = &mut m.building else {
                break vec![merr(
                    "UnexpectedAttribute",
                    s,
                    e,
                    format!("{}:{}", prefix, name),
                )];
            };
            b.attrs.push((prefix, name, value, s, e));
            last_end = e;
            continue;
        }
        if let Err(v) = m.finish_element() {
            break v;
        }
        match tok {
            Tok::Attr { .. } => unreachable!(),
            Tok::Comment(lines) => {
                let lengths = lines.iter().map(|l| l.len()).collect();
                m.ev(EvKind::Comment(lines.join("\n"), lengths), s, e);
            }
            Tok::Str { raw, data } => {
                if m.nothing_open() {
                    break vec![merr("UnexpectedContent", s, s, "")];
                }
                let k = if raw { CKind::Raw } else { CKind::Int };
                m.ev(EvKind::Content(k, data), s, e);
            }
            Tok::Open {
                prefix,
                name,
                depth,
                boxed,
            } => {
                let open = m.ctxs.last().unwrap().open.len();
                if depth > open + 1 {
                    break vec![merr("UnexpectedTagIndent", s, e, open + 1)];
                }
                while m.ctxs.last().unwrap().open.len() >= depth {
                    m.end_one(s, s);
                    tail += 1;
                }
                if m.nothing_open() {
                    if m.roots > 0 {
                        break vec![merr("MultipleRootElements", s, e, "")];
                    }
                    m.roots += 1;
                }
                m.building = Some((
                    Building {
                        prefix,
                        name,
                        s,
                        e,
                        attrs: vec![],
                    },
                    boxed,
                    depth,
                ));
            }
            Tok::Close {
                prefix,
                name,
                depth,
            } => {
                if m.lookup(&[], &prefix).is_none() {
                    break vec![
                        merr("MarkupError/UnmappedPrefix", s, e, &prefix),
                        merr("UnexpectedCloseTag", s, e, ""),
                    ];
                }
                while !m.ctxs.last().unwrap().open.is_empty() {
                    m.end_one(s, s);
                    tail += 1;
                }
                let matches = match &m.ctxs.last().unwrap().opened_by {
                    None => false,
                    Some((p, n, d)) => *p == prefix && *n == name && *d == depth,
                };
                if !matches {
                    break 'read vec![merr("UnexpectedCloseTag", s, e, "")];
                }
                m.ctxs.pop();
                m.end_one(s, e);
            }
        }
        max_box = max_box.max(m.ctxs.len() - 1);
        last_end = e;
    };
    let mut x = Expect {
        evs: vec![],
        errs,
        optional_tail: tail,
        max_depth: 0,
        max_box,
    };
    if x.errs.is_empty() {
        x.optional_tail = 0;
        if let Err(v) = m.finish_element() {
            x.errs = v;
        } else {
            max_box = max_box.max(m.ctxs.len() - 1);
            while !m.ctxs.last().unwrap().open.is_empty() {
                m.end_one(last_end, last_end);
                x.optional_tail += 1;
            }
            if m.ctxs.len() > 1 || m.roots == 0 {
                x.errs = vec![merr("UnexpectedEOF", last_end, last_end, "")];
            } else {
                x.optional_tail = 0;
                m.ev(EvKind::EndDoc, last_end, last_end);
            }
        }
    }
    x.max_box = max_box;
    x.max_depth = m.max_depth;
    x.evs = m.evs;
    x
}

//a Comparison
/// Which aspects of an event to compare
#[derive(Clone, Copy)]
pub struct Aspects {
    pub uri: bool,
    pub span: bool,
    pub lc: bool,
    pub attrs: bool,
    pub content: bool,
    pub comments: bool,
}

pub const ALL: Aspects = Aspects {
    uri: true,
    span: true,
    lc: true,
    attrs: true,
    content: true,
    comments: true,
};

/// Everything but positions
pub const NO_POS: Aspects = Aspects {
    span: false,
    lc: false,
    ..ALL
};

fn q_eq(a: &QName, b: &QName, asp: &Aspects) -> bool {
    a.prefix == b.prefix && a.name == b.name && (!asp.uri || a.uri == b.uri)
}

pub fn ev_eq(a: &Ev, b: &Ev, asp: &Aspects) -> bool {
    let k = match (&a.k, &b.k) {
        (EvKind::Start(n, at), EvKind::Start(m, bt)) => {
            q_eq(n, m, asp)
                && (!asp.attrs
                    || (at.len() == bt.len()
                        && at
                            .iter()
                            .zip(bt)
                            .all(|((n, v), (m, w))| q_eq(n, m, asp) && v == w)))
        }
        (EvKind::End(n), EvKind::End(m)) => q_eq(n, m, asp),
        (EvKind::Content(..), EvKind::Content(..)) if !asp.content => true,
        (EvKind::Comment(..), EvKind::Comment(..)) if !asp.comments => true,
        (x, y) => x == y,
    };
    k && (!asp.span || (a.s.ofs == b.s.ofs && a.e.ofs == b.e.ofs))
        && (!asp.lc
            || (a.s.line == b.s.line
                && a.s.col == b.s.col
                && a.e.line == b.e.line
                && a.e.col == b.e.col))
}

/// Compare the events of an outcome with the expected ones; None if they agree
pub fn diff_events(x: &Expect, out: &Outcome, asp: &Aspects) -> Option<String> {
    diff_lists(&x.evs, &out.evs, asp, x.optional_tail, x.accepted())
}

pub fn diff_lists(
    exp: &[Ev],
    got: &[Ev],
    asp: &Aspects,
    optional_tail: usize,
    _accepted: bool,
) -> Option<String> {
    for (i, (a, b)) in exp.iter().zip(got).enumerate() {
        if !ev_eq(a, b, asp) {
            return Some(format!("event {}: expected {:?} but got {:?}", i, a, b));
        }
    }
    if got.len() > exp.len() {
        return Some(format!(
            "event {}: nothing more expected but got {:?}",
            exp.len(),
            got[exp.len()]
        ));
    }
    if got.len() + optional_tail < exp.len() {
        return Some(format!(
            "event {}: expected {:?} but got no more events",
            got.len(),
            exp[got.len()]
        ));
    }
    None
}

/// Is the way the outcome ended the expected one (accepted or refused)?
pub fn diff_acceptance(x: &Expect, out: &Outcome) -> Option<String> {
    match (&out.end, x.accepted()) {
        (End::Done, true) => None,
        (End::Done, false) => Some(format!(
            "accepted, but should be refused with {:?}",
            x.errs[0]
        )),
        (End::Err(e), true) => Some(format!("refused with {:?}, but should be accepted", e)),
        (End::Err(_), false) => None,
        (End::Panic(p), _) => Some(format!("panicked: {}", p)),
        (End::StepBudget, _) | (End::EventBudget, _) => {
            Some(format!("did not end: {:?}", out.end))
        }
    }
}

/// Is the error the expected one?
pub fn diff_error(x: &Expect, out: &Outcome, text: &str, with_lc: bool) -> Option<String> {
    let End::Err(e) = &out.end else {
        return diff_acceptance(x, out);
    };
    if x.accepted() {
        return diff_acceptance(x, out);
    }
    let lines = Lines::new(text);
    for m in &x.errs {
        // the colon after an empty prefix may be there or not
        let detail = |d: &str| d.strip_prefix(':').unwrap_or(d).to_string();
        if m.kind != e.kind || detail(&m.detail) != detail(&e.detail) {
            continue;
        }
        let Some((s, en)) = e.span else { continue };
        if s.ofs != m.s || en.ofs != m.e {
            continue;
        }
        if with_lc && (lines.pos(text, m.s) != s || lines.pos(text, m.e) != en) {
            continue;
        }
        if !m.detail.is_empty() && !e.display.contains(&detail(&m.detail)) {
            continue;
        }
        return None;
    }
    Some(format!("expected error {:?} but got {:?}", x.errs, e))
}
