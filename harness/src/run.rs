//! Running the reader under monitors and recording what it delivers as plain data.

use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Name, Namespace, NamespaceStack};
use hml_rs::{HmlError, MarkupError, Posn, Span};
use lexer_rs::{
    BoxDynLexerParseFn, CharStream, Lexer, LexerError, LexerOfStr, LexerParseResult, LineColumn,
    ParserIterator, StreamCharPos, StreamCharSpan,
};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

//a Plain data for events and errors
/// prefix, uri, local name
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct QName {
    pub prefix: String,
    pub uri: String,
    pub name: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CKind {
    Raw,
    Int,
    Ws,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EvKind {
    StartDoc(usize),
    EndDoc,
    Start(QName, Vec<(QName, String)>),
    End(QName),
    Content(CKind, String),
    Comment(String, Vec<usize>),
    Pi(String, Option<String>),
}

impl EvKind {
    pub fn tag(&self) -> &'static str {
        match self {
            EvKind::StartDoc(_) => "StartDocument",
            EvKind::EndDoc => "EndDocument",
            EvKind::Start(..) => "StartElement",
            EvKind::End(_) => "EndElement",
            EvKind::Content(..) => "Content",
            EvKind::Comment(..) => "Comment",
            EvKind::Pi(..) => "ProcessingInstruction",
        }
    }
}

/// A position: byte offset, line, column (line and column 0 if not tracked)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Pos {
    pub ofs: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub k: EvKind,
    pub s: Pos,
    pub e: Pos,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrInfo {
    /// Name of the variant; markup errors as MarkupError/<variant>
    pub kind: String,
    pub span: Option<(Pos, Pos)>,
    /// The offending character, prefix, attribute or permitted depth
    pub detail: String,
    pub display: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// End-of-document was delivered
    Done,
    Err(ErrInfo),
    /// The reader panicked
    Panic(String),
    /// The lexer took more steps than any sensible reading needs
    StepBudget,
    /// More events than a fixed multiple of the text length
    EventBudget,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub evs: Vec<Ev>,
    pub end: End,
    /// Breaches of the character stream's contract (monitored runs only)
    pub contract: Option<String>,
    pub steps: u64,
    /// Results of further requests after the end
    pub after: Vec<Result<&'static str, String>>,
    /// Mappings visible in the namespace stack before and after
    pub maps_before: Vec<(String, String)>,
    pub maps_after: Vec<(String, String)>,
}

impl Outcome {
    pub fn brief(&self) -> String {
        let mut s = String::new();
        for e in &self.evs {
            s.push_str(&format!("{:?}@{}..{} ", e.k, e.s.ofs, e.e.ofs));
            if s.len() > 1500 {
                s.push_str("...");
                break;
            }
        }
        s.push_str(&format!("=> {:?}", self.end));
        s
    }
}

//a Monitored stream
pub struct MonCtl {
    pub steps: Cell<u64>,
    pub budget: u64,
    pub contract: RefCell<Option<String>>,
}

pub const STEP_PANIC: &str = "HV-STEP-BUDGET";

impl MonCtl {
    pub fn new(len: usize) -> Self {
        let n = len as u64 + 10;
        // Hundreds of steps for each character, and quadratic on short texts: far above
        // what any reasonable reading takes, so exceeding it means not terminating.
        let budget = 4000 * n + 20 * n * n.min(4000);
        MonCtl {
            steps: Cell::new(0),
            budget,
            contract: RefCell::new(None),
        }
    }
    fn step(&self, n: u64) {
        let s = self.steps.get() + n;
        self.steps.set(s);
        if s > self.budget {
            panic!("{}", STEP_PANIC);
        }
    }
    fn breach(&self, s: String) {
        let mut c = self.contract.borrow_mut();
        if c.is_none() {
            *c = Some(s);
        }
    }
}

/// A lexer that checks every use of its character stream, and delegates to [LexerOfStr]
pub struct MonLexer<'a, P, T, E>
where
    P: Posn,
{
    inner: LexerOfStr<'a, P, T, E>,
    text: &'a str,
    ctl: &'a MonCtl,
}

impl<'a, P: Posn, T, E> std::fmt::Debug for MonLexer<'a, P, T, E> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "MonLexer")
    }
}

impl<'a, P: Posn, T, E> MonLexer<'a, P, T, E> {
    pub fn new(text: &'a str, ctl: &'a MonCtl) -> Self {
        Self {
            inner: LexerOfStr::new(text),
            text,
            ctl,
        }
    }
    /// Is the position usable? If not record the breach
    fn posn_ok(&self, what: &str, p: &P) -> bool {
        let o = p.byte_ofs();
        if o > self.text.len() {
            self.ctl.breach(format!(
                "{} at byte {} beyond the text of {} bytes",
                what,
                o,
                self.text.len()
            ));
            false
        } else if !self.text.is_char_boundary(o) {
            self.ctl
                .breach(format!("{} at byte {} inside a character", what, o));
            false
        } else {
            true
        }
    }
    fn char_ok(&self, what: &str, p: &P, ch: char) {
        if self.posn_ok(what, p) {
            let actual = self.text[p.byte_ofs()..].chars().next();
            if actual != Some(ch) {
                self.ctl.breach(format!(
                    "{} at byte {} of {:?} but the text has {:?} there",
                    what,
                    p.byte_ofs(),
                    ch,
                    actual
                ));
            }
        }
    }
    fn range_ok(&self, what: &str, s: &P, e: &P) -> bool {
        let ok = self.posn_ok(what, s) && self.posn_ok(what, e);
        if s.byte_ofs() > e.byte_ofs() {
            self.ctl.breach(format!(
                "{} of backward range {}..{}",
                what,
                s.byte_ofs(),
                e.byte_ofs()
            ));
            return false;
        }
        ok
    }
}

impl<'a, P, T, E> Lexer for MonLexer<'a, P, T, E>
where
    P: Posn,
    T: std::fmt::Debug + Clone,
    E: LexerError<P>,
{
    type Token = T;
    type Error = E;
    type State = P;
    fn parse<'iter>(
        &'iter self,
        state: P,
        parsers: &[BoxDynLexerParseFn<'iter, Self>],
    ) -> LexerParseResult<P, T, E> {
        self.ctl.step(1);
        if let Some(ch) = self.peek_at(&state) {
            for p in parsers {
                let result = p(self, state, ch)?;
                if let Some((new_state, token)) = result {
                    if self.posn_ok("token end", &new_state)
                        && new_state.byte_ofs() <= state.byte_ofs()
                    {
                        self.ctl.breach(format!(
                            "token at byte {} ends at byte {} and makes no progress",
                            state.byte_ofs(),
                            new_state.byte_ofs()
                        ));
                    }
                    return Ok(Some((new_state, token)));
                }
            }
            return Err(E::failed_to_parse(state, ch));
        }
        Ok(None)
    }
    fn iter<'iter>(
        &'iter self,
        parsers: &'iter [BoxDynLexerParseFn<'iter, Self>],
    ) -> Box<dyn Iterator<Item = Result<T, E>> + 'iter> {
        Box::new(ParserIterator::new(self, P::default(), parsers))
    }
}

impl<'a, P, T, E> CharStream<P> for MonLexer<'a, P, T, E>
where
    P: Posn,
{
    fn do_while<F: Fn(usize, char) -> bool>(
        &self,
        state: P,
        ch: char,
        f: &F,
    ) -> (P, Option<(P, usize)>) {
        self.ctl.step(1);
        self.char_ok("do_while", &state, ch);
        if self.ctl.contract.borrow().is_some() {
            // do not hand a bad position to the unchecked stream
            return (state, None);
        }
        self.inner.do_while(state, ch, &|n, c| {
            self.ctl.step(1);
            f(n, c)
        })
    }
    fn fold<V, F: Fn(&Self, V, &P, usize, char) -> (V, Option<P>)>(
        &self,
        state: P,
        ch: char,
        acc: V,
        f: &F,
    ) -> (P, Option<(P, usize, V)>) {
        self.ctl.step(1);
        self.char_ok("fold", &state, ch);
        let (mut acc, some_posn) = f(self, acc, &state, 0, ch);
        let Some(mut state2) = some_posn else {
            return (state, None);
        };
        let mut n = 1;
        while let Some(ch) = self.peek_at(&state2) {
            self.ctl.step(1);
            let (new_acc, more) = f(self, acc, &state2, n, ch);
            acc = new_acc;
            let Some(p) = more else {
                break;
            };
            n += 1;
            state2 = p;
        }
        (state2, Some((state, n, acc)))
    }
    fn range_as_bytes(&self, ofs: usize, n: usize) -> &[u8] {
        self.ctl.step(1);
        self.inner.range_as_bytes(ofs, n)
    }
    fn matches_bytes(&self, state: &P, s: &[u8]) -> bool {
        self.ctl.step(1);
        self.posn_ok("matches_bytes", state) && self.inner.matches_bytes(state, s)
    }
    fn get_text_span(&self, span: &StreamCharSpan<P>) -> &str {
        self.ctl.step(1);
        if self.range_ok("get_text_span", span.start(), span.end()) {
            self.inner.get_text_span(span)
        } else {
            ""
        }
    }
    fn get_text(&self, start: P, end: P) -> &str {
        self.ctl.step(1);
        if self.range_ok("get_text", &start, &end) {
            self.inner.get_text(start, end)
        } else {
            ""
        }
    }
    fn matches_str(&self, pos: &P, pat: &str) -> bool {
        self.ctl.step(1);
        self.posn_ok("matches_str", pos) && self.inner.matches_str(pos, pat)
    }
    fn peek_at(&self, state: &P) -> Option<char> {
        self.ctl.step(1);
        if self.posn_ok("peek_at", state) {
            self.inner.peek_at(state)
        } else {
            None
        }
    }
    fn consumed(&self, state: P, num_chars: usize) -> P {
        self.ctl.step(1);
        if self.posn_ok("consumed", &state) {
            let left = self.text[state.byte_ofs()..].chars().take(num_chars).count();
            if left < num_chars {
                self.ctl.breach(format!(
                    "consumed {} characters at byte {} where only {} are left",
                    num_chars,
                    state.byte_ofs(),
                    left
                ));
            }
            self.inner.consumed(state, num_chars)
        } else {
            state
        }
    }
    fn consumed_char(&self, state: P, ch: char) -> P {
        self.ctl.step(1);
        self.char_ok("consumed_char", &state, ch);
        self.inner.consumed_char(state, ch)
    }
    unsafe fn consumed_newline(&self, state: P, num_bytes: usize) -> P {
        self.ctl.step(1);
        let e = state.advance_line(num_bytes);
        if self.range_ok("consumed_newline", &state, &e)
            && !self.text[state.byte_ofs()..e.byte_ofs()].ends_with('\n')
        {
            self.ctl.breach(format!(
                "consumed_newline of {} bytes at byte {} that is no newline",
                num_bytes,
                state.byte_ofs()
            ));
        }
        e
    }
    fn consumed_ascii_str(&self, state: P, s: &str) -> P {
        self.ctl.step(1);
        if self.posn_ok("consumed_ascii_str", &state)
            && !self.text[state.byte_ofs()..].starts_with(s)
        {
            self.ctl.breach(format!(
                "consumed_ascii_str {:?} at byte {} that is not there",
                s,
                state.byte_ofs()
            ));
        }
        self.inner.consumed_ascii_str(state, s)
    }
    unsafe fn consumed_chars(&self, state: P, num_bytes: usize, num_chars: usize) -> P {
        self.ctl.step(1);
        let e = state.advance_cols(num_bytes, num_chars);
        if self.range_ok("consumed_chars", &state, &e)
            && self.text[state.byte_ofs()..e.byte_ofs()].chars().count() != num_chars
        {
            self.ctl.breach(format!(
                "consumed_chars of {} bytes at byte {} that are not {} characters",
                num_bytes,
                state.byte_ofs(),
                num_chars
            ));
        }
        e
    }
}

//a Another lexer implementation, for comparison
/// A lexer over a character vector, using all the default methods of the stream trait
pub struct AltLexer<'a, P, T, E> {
    text: &'a str,
    _p: PhantomData<(P, T, E)>,
}

impl<'a, P, T, E> std::fmt::Debug for AltLexer<'a, P, T, E> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "AltLexer")
    }
}

impl<'a, P, T, E> AltLexer<'a, P, T, E> {
    pub fn new(text: &'a str) -> Self {
        Self {
            text,
            _p: PhantomData,
        }
    }
}

impl<'a, P, T, E> Lexer for AltLexer<'a, P, T, E>
where
    P: Posn,
    T: std::fmt::Debug + Clone,
    E: LexerError<P>,
{
    type Token = T;
    type Error = E;
    type State = P;
    fn parse<'iter>(
        &'iter self,
        state: P,
        parsers: &[BoxDynLexerParseFn<'iter, Self>],
    ) -> LexerParseResult<P, T, E> {
        let Some(ch) = self.peek_at(&state) else {
            return Ok(None);
        };
        for p in parsers {
            if let Some(r) = p(self, state, ch)? {
                return Ok(Some(r));
            }
        }
        Err(E::failed_to_parse(state, ch))
    }
    fn iter<'iter>(
        &'iter self,
        parsers: &'iter [BoxDynLexerParseFn<'iter, Self>],
    ) -> Box<dyn Iterator<Item = Result<T, E>> + 'iter> {
        let mut state = P::default();
        Box::new(std::iter::from_fn(move || match self.parse(state, parsers) {
            Err(e) => Some(Err(e)),
            Ok(None) => None,
            Ok(Some((s, t))) => {
                state = s;
                Some(Ok(t))
            }
        }))
    }
}

impl<'a, P, T, E> CharStream<P> for AltLexer<'a, P, T, E>
where
    P: Posn,
{
    fn range_as_bytes(&self, ofs: usize, n: usize) -> &[u8] {
        &self.text.as_bytes()[ofs..ofs + n]
    }
    fn matches_bytes(&self, state: &P, s: &[u8]) -> bool {
        self.text.as_bytes()[state.byte_ofs()..].starts_with(s)
    }
    fn get_text_span(&self, span: &StreamCharSpan<P>) -> &str {
        &self.text[span.byte_range()]
    }
    fn get_text(&self, start: P, end: P) -> &str {
        &self.text[start.byte_ofs()..end.byte_ofs()]
    }
    fn matches_str(&self, pos: &P, pat: &str) -> bool {
        self.text[pos.byte_ofs()..].starts_with(pat)
    }
    fn peek_at(&self, state: &P) -> Option<char> {
        self.text[state.byte_ofs()..].chars().next()
    }
    fn consumed(&self, mut state: P, num_chars: usize) -> P {
        for _ in 0..num_chars {
            if let Some(ch) = self.peek_at(&state) {
                state = self.consumed_char(state, ch);
            }
        }
        state
    }
}

//a Options and the runs
#[derive(Clone, Debug)]
pub struct Opts {
    pub xmlns: bool,
    pub version: Option<usize>,
    /// Mappings made by the caller before reading
    pub premap: Vec<(String, String)>,
    /// Names interned by the caller before reading
    pub prenames: Vec<String>,
    /// Number of further requests after the end
    pub after: usize,
    /// Record the mappings visible before and after
    pub maps: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            xmlns: false,
            version: None,
            premap: vec![],
            prenames: vec![],
            after: 0,
            maps: false,
        }
    }
}

pub fn qname(ns: &NamespaceStack, n: &Name) -> QName {
    QName {
        prefix: ns.prefix_str(n.prefix).to_string(),
        uri: ns.uri_str(n.uri).to_string(),
        name: ns.name_str(n.name).to_string(),
    }
}

fn pos<P: Posn>(p: &P) -> Pos {
    Pos {
        ofs: p.byte_ofs(),
        line: p.line(),
        col: p.column(),
    }
}

fn span<P: Posn>(s: &Span<P>) -> (Pos, Pos) {
    (pos(s.start()), pos(s.end()))
}

pub fn ev_kind<P: Posn>(ns: &NamespaceStack, e: &Event<P>) -> EvKind {
    match e {
        Event::StartDocument { version, .. } => EvKind::StartDoc(*version),
        Event::EndDocument { .. } => EvKind::EndDoc,
        Event::StartElement { tag, .. } => EvKind::Start(
            qname(ns, &tag.name),
            tag.attributes
                .attributes()
                .iter()
                .map(|a| (qname(ns, &a.name), a.value.clone()))
                .collect(),
        ),
        Event::EndElement { name, .. } => EvKind::End(qname(ns, name)),
        Event::Content { ctype, data, .. } => EvKind::Content(
            match ctype {
                ContentType::Raw => CKind::Raw,
                ContentType::Interpretable => CKind::Int,
                ContentType::Whitespace => CKind::Ws,
            },
            data.clone(),
        ),
        Event::ProcessingInstruction { name, data, .. } => {
            EvKind::Pi(ns.name_str(*name).to_string(), data.clone())
        }
        Event::Comment { data, lengths, .. } => EvKind::Comment(data.clone(), lengths.clone()),
    }
}

pub fn err_info<P: Posn>(e: &HmlError<P>) -> ErrInfo {
    let dbg = format!("{:?}", e);
    let ident = |s: &str| -> String {
        s.chars()
            .take_while(|c| c.is_ascii_alphanumeric() || *c == '_')
            .collect()
    };
    let mut kind = ident(&dbg);
    let detail = match e {
        HmlError::UnexpectedCharacter { ch, .. } => ch.to_string(),
        HmlError::ExpectedEquals { ch, .. } => ch.to_string(),
        HmlError::UnexpectedTagIndent { depth, .. } => depth.to_string(),
        HmlError::UnexpectedAttribute { attr, .. } => attr.clone(),
        HmlError::MarkupError { source, .. } => {
            kind = format!("MarkupError/{}", ident(&format!("{:?}", source)));
            match source {
                MarkupError::UnmappedPrefix { prefix } => prefix.clone(),
                MarkupError::BadName { name } => name.clone(),
                _ => String::new(),
            }
        }
        _ => String::new(),
    };
    ErrInfo {
        kind,
        span: e.span().map(span),
        detail,
        display: format!("{}", e),
    }
}

pub fn maps_of(ns: &NamespaceStack) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = ns
        .into_iter()
        .map(|m| {
            let (p, u) = ns.borrow_mapping(m);
            (p.to_string(), u.to_string())
        })
        .collect();
    v.sort();
    v
}

/// Prepare a namespace stack as the options ask
pub fn setup_ns(ns: &mut NamespaceStack, o: &Opts) {
    for (p, u) in &o.premap {
        ns.add_ns(p, u);
    }
    for n in &o.prenames {
        ns.add_name(n);
    }
}

pub fn record<P: Posn>(ns: &NamespaceStack, e: &Event<P>) -> Ev {
    let (s, en) = span(e.borrow_span());
    Ev {
        k: ev_kind(ns, e),
        s,
        e: en,
    }
}

/// Pull events from a token source until the end; panics pass through
macro_rules! pull {
    ($text:expr, $opts:expr, $ns:expr, $it:expr, $evs:expr, $after:expr, $P:ty) => {{
        let limit = 3 * $text.len() + 64;
        let mut parser: Parser<$P> = Parser::default();
        if let Some(v) = $opts.version {
            parser = parser.set_version(v);
        }
        let mut end = None;
        while end.is_none() {
            match parser.next_event(&mut $ns, || $it.next()) {
                Ok(e) => {
                    let done = e.is_end_document();
                    $evs.push(record(&$ns, &e));
                    if done {
                        end = Some(End::Done);
                    }
                }
                Err(e) => end = Some(End::Err(err_info(&e))),
            }
            if $evs.len() > limit {
                end = Some(End::EventBudget);
            }
        }
        for _ in 0..$opts.after {
            match parser.next_event(&mut $ns, || $it.next()) {
                Ok(e) => $after.push(Ok(record(&$ns, &e).k.tag())),
                Err(e) => $after.push(Err(err_info(&e).kind)),
            }
        }
        end.unwrap()
    }};
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    Plain,
    Mon,
    Alt,
}

fn finish(
    r: std::thread::Result<End>,
    evs: Vec<Ev>,
    after: Vec<Result<&'static str, String>>,
    ctl: Option<&MonCtl>,
) -> Outcome {
    let end = match r {
        Ok(e) => e,
        Err(p) => {
            let m = crate::report::panic_text(&p);
            if m.contains(STEP_PANIC) {
                End::StepBudget
            } else {
                End::Panic(m)
            }
        }
    };
    Outcome {
        evs,
        end,
        contract: ctl.and_then(|c| c.contract.borrow().clone()),
        steps: ctl.map(|c| c.steps.get()).unwrap_or(0),
        after,
        maps_before: vec![],
        maps_after: vec![],
    }
}

/// Read a text from start to end, with a fresh namespace
pub fn read<P: Posn>(text: &str, o: &Opts, which: Which) -> Outcome {
    let mut namespace = Namespace::new(o.xmlns);
    read_in::<P>(&mut namespace, text, o, which)
}

/// Read a text in an existing namespace, with a new stack
pub fn read_in<P: Posn>(
    namespace: &mut Namespace,
    text: &str,
    o: &Opts,
    which: Which,
) -> Outcome {
    let mut ns = NamespaceStack::new(namespace);
    setup_ns(&mut ns, o);
    read_on::<P>(&mut ns, text, o, which)
}

/// Read a text with an existing namespace stack
pub fn read_on<P: Posn>(
    mut ns: &mut NamespaceStack,
    text: &str,
    o: &Opts,
    which: Which,
) -> Outcome {
    let mut evs = vec![];
    let mut after = vec![];
    let maps_before = if o.maps { maps_of(ns) } else { vec![] };
    let ctl = MonCtl::new(text.len());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match which {
        Which::Plain => {
            let lexer = LexerOfStr::new(text);
            let fns = parse_fns();
            let mut it = lexer.iter(&fns);
            pull!(text, o, &mut ns, it, evs, after, P)
        }
        Which::Mon => {
            let lexer = MonLexer::new(text, &ctl);
            let fns = parse_fns();
            let mut it = lexer.iter(&fns);
            pull!(text, o, &mut ns, it, evs, after, P)
        }
        Which::Alt => {
            let lexer = AltLexer::new(text);
            let fns = parse_fns();
            let mut it = lexer.iter(&fns);
            pull!(text, o, &mut ns, it, evs, after, P)
        }
    }));
    let mut out = finish(r, evs, after, (which == Which::Mon).then_some(&ctl));
    out.maps_before = maps_before;
    if o.maps {
        out.maps_after = maps_of(ns);
    }
    out
}

/// What a token source does after a text could not be split into tokens further
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Recovery {
    /// Says there are no more tokens
    Ends,
    /// Goes on after the character that did not fit
    Skips,
}

/// Keep asking a parser for events, whatever it answers; the number of events and of errors
pub fn keep_asking(text: &str, o: &Opts, rec: Recovery) -> Result<(usize, usize), String> {
    let mut namespace = Namespace::new(o.xmlns);
    let mut ns = NamespaceStack::new(&mut namespace);
    setup_ns(&mut ns, o);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let lexer: LexerOfStr<LC, _, HmlError<LC>> = LexerOfStr::new(text);
        let fns = parse_fns();
        let mut parser: Parser<LC> = Parser::default();
        let mut at = LC::default();
        let mut over = false;
        let (mut events, mut errors) = (0, 0);
        for _ in 0..3 * text.len() + 64 {
            let r = parser.next_event(&mut ns, || {
                if over {
                    return None;
                }
                match lexer.parse(at, &fns) {
                    Ok(Some((next, token))) => {
                        at = next;
                        Some(Ok(token))
                    }
                    Ok(None) => None,
                    Err(e) => {
                        match (rec, lexer.peek_at(&at)) {
                            (Recovery::Skips, Some(ch)) => at = lexer.consumed_char(at, ch),
                            _ => over = true,
                        }
                        Some(Err(e))
                    }
                }
            });
            match r {
                Ok(_) => events += 1,
                Err(_) => errors += 1,
            }
        }
        (events, errors)
    }))
    .map_err(|p| crate::report::panic_text(&p))
}

pub type LC = StreamCharPos<LineColumn>;

/// The number of events and a digest of them and of the end, keeping nothing
pub fn digest(text: &str, o: &Opts) -> (usize, u64) {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut namespace = Namespace::new(o.xmlns);
    let mut ns = NamespaceStack::new(&mut namespace);
    setup_ns(&mut ns, o);
    let lexer: LexerOfStr<LC, _, HmlError<LC>> = LexerOfStr::new(text);
    let fns = parse_fns();
    let mut it = lexer.iter(&fns);
    let mut parser: Parser<LC> = Parser::default();
    let mut n = 0;
    loop {
        match parser.next_event(&mut ns, || it.next()) {
            Ok(e) => {
                n += 1;
                let (s, t) = span(e.borrow_span());
                (ev_kind(&ns, &e), s.ofs, s.line, t.ofs, t.col).hash(&mut h);
                if e.is_end_document() || n > 3 * text.len() + 64 {
                    break;
                }
            }
            Err(e) => {
                let e = err_info(&e);
                (e.kind, e.detail, e.span).hash(&mut h);
                break;
            }
        }
    }
    (n, h.finish())
}

/// The usual run: line and column positions on the plain string lexer
pub fn read_lc(text: &str, o: &Opts) -> Outcome {
    read::<LC>(text, o, Which::Plain)
}
