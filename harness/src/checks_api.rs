//! Checks on markup values made by calls: C22.

use crate::checks_names::Frames;
use crate::gen::{self, Dict};
use crate::report::Ctx;
use crate::rng::{hash_bytes, Rng};
use crate::run::{self, Opts, QName, LC};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event, EventType};
use hml_rs::names::{Attribute, Attributes, NSNameId, Name, Namespace, NamespaceStack, Tag};
use hml_rs::{HmlError, HmlResult, MarkupError, Posn, Span};
use lexer_rs::{Lexer, LexerOfStr};

//a Views of events
/// Every accessor of an event against the event itself; the event is used up
fn views<P: Posn>(ns: &NamespaceStack, e: Event<P>) -> Result<(), String> {
    let k = run::ev_kind(ns, &e);
    let bad = |what: &str| -> Result<(), String> { Err(format!("{} of {:?} is wrong", what, k)) };
    let (ty, span) = match &e {
        Event::StartDocument { span, .. } => (EventType::StartDocument, span),
        Event::EndDocument { span, .. } => (EventType::EndDocument, span),
        Event::StartElement { span, .. } => (EventType::StartElement, span),
        Event::EndElement { span, .. } => (EventType::EndElement, span),
        Event::Content { span, .. } => (EventType::Content, span),
        Event::ProcessingInstruction { span, .. } => (EventType::ProcessingInstruction, span),
        Event::Comment { span, .. } => (EventType::Comment, span),
    };
    if e.get_type() != ty {
        return bad("get_type");
    }
    let b = e.borrow_span();
    if b.start() != span.start() || b.end() != span.end() {
        return bad("borrow_span");
    }
    let version = match &e {
        Event::StartDocument { version, .. } => Some(*version),
        _ => None,
    };
    if e.as_start_document() != version || e.is_start_document() != version.is_some() {
        return bad("as_start_document or is_start_document");
    }
    if e.is_end_document() != matches!(e, Event::EndDocument { .. }) {
        return bad("is_end_document");
    }
    match (&e, e.as_end_element()) {
        (Event::EndElement { name, .. }, Some(n)) if n == name => (),
        (Event::EndElement { .. }, _) | (_, Some(_)) => return bad("as_end_element"),
        _ => (),
    }
    match (&e, e.as_content()) {
        (Event::Content { ctype, data, .. }, Some((c, d))) if c == *ctype && d == data => (),
        (Event::Content { .. }, _) | (_, Some(_)) => return bad("as_content"),
        _ => (),
    }
    let want = match &e {
        Event::StartElement { tag, .. } => {
            Some((tag.name, tag.attributes.attributes().to_vec()))
        }
        _ => None,
    };
    match (e.as_start_element(), want) {
        (None, None) => Ok(()),
        (Some(tag), Some((n, at))) => {
            if tag.name != n
                || tag.attributes.attributes() != at.as_slice()
                || tag.attributes.is_empty() != at.is_empty()
            {
                return bad("as_start_element");
            }
            if tag.attributes.take() != at {
                return bad("take of the attributes");
            }
            Ok(())
        }
        _ => bad("as_start_element"),
    }
}

//a Lists and names
/// What a prefix and name should resolve to at this moment
fn resolved(m: &Frames, p: &str, n: &str) -> Result<QName, String> {
    if n.is_empty() {
        return Err("EmptyName".into());
    }
    match m.find(p) {
        None => Err(p.into()),
        Some(u) => Ok(QName {
            prefix: p.into(),
            uri: u.into(),
            name: n.into(),
        }),
    }
}

fn refused_as(e: &MarkupError, want: &str, n: &str, p: &str) -> bool {
    match e {
        MarkupError::EmptyName { .. } => n.is_empty(),
        MarkupError::UnmappedPrefix { prefix } => {
            // both may be wrong
            prefix == p && (want == p || n.is_empty())
        }
        _ => false,
    }
}

fn qname(ns: &NamespaceStack, n: &Name) -> QName {
    QName {
        prefix: ns.prefix_str(n.prefix).to_string(),
        uri: ns.uri_str(n.uri).to_string(),
        name: ns.name_str(n.name).to_string(),
    }
}

fn same_name(
    ns: &NamespaceStack,
    got: &Result<Name, &MarkupError>,
    want: &Result<QName, String>,
    p: &str,
    n: &str,
    m: &Frames,
) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            let q = qname(ns, g);
            if q != *w {
                return Err(format!("{:?} {:?} became {:?} and not {:?}", p, n, q, w));
            }
            if g.has_prefix() == p.is_empty() || g.has_uri() == w.uri.is_empty() {
                return Err(format!("has_prefix or has_uri of {:?} is wrong", q));
            }
            Ok(())
        }
        (Err(e), Err(w)) => {
            let unmapped = m.find(p).is_none();
            if refused_as(e, w, n, p) && (unmapped || matches!(e, MarkupError::EmptyName { .. })) {
                Ok(())
            } else {
                Err(format!("{:?} {:?} was refused as {:?}", p, n, e))
            }
        }
        (g, w) => Err(format!("{:?} {:?} gave {:?} and not {:?}", p, n, g, w)),
    }
}

/// The name an attribute gets, and the declaration it makes
fn attribute(m: &mut Frames, xmlns: bool, p: &str, n: &str, v: &str) -> Result<QName, String> {
    if xmlns && p.is_empty() && n == "xmlns" {
        m.add("", v);
        let mut q = resolved(m, "xmlns", n)?;
        q.prefix = String::new();
        return Ok(q);
    }
    if xmlns && p == "xmlns" && !n.is_empty() {
        m.add(n, v);
    }
    resolved(m, p, n)
}

fn list_is(
    ns: &NamespaceStack,
    l: &Attributes,
    want: &[(QName, String)],
    what: &str,
) -> Result<(), String> {
    let got: Vec<(QName, String)> = l
        .attributes()
        .iter()
        .map(|a| (qname(ns, &a.name), a.value.clone()))
        .collect();
    if got != want {
        return Err(format!("{}: the list is {:?} and not {:?}", what, got, want));
    }
    if l.is_empty() != want.is_empty() {
        return Err(format!("{}: is_empty of {:?} is {}", what, got, l.is_empty()));
    }
    Ok(())
}

fn some_span(r: &mut Rng) -> Span<usize> {
    let a = r.below(100);
    let b = a + r.below(100);
    Span::new_at(&a).end_at(&b)
}

//a Errors
type E = HmlError<usize>;

fn failed<T>(x: HmlResult<T, usize>) -> Result<E, String> {
    match x {
        Ok(_) => Err("an error constructor gave no error".into()),
        Err(e) => Ok(e),
    }
}

/// An error with the span it was made with, and what its message must contain
fn any_error(r: &mut Rng, d: &Dict) -> Result<(E, Option<Span<usize>>, String, &'static str), String> {
    let sp = some_span(r);
    let (s, e) = (*sp.start(), *sp.end());
    let ch = *r.pick(&['a', '#', '\n', '\u{e9}', '\u{1f601}', '"']);
    let word = gen::name(r, d);
    let depth = 1 + r.below(1000);
    Ok(match r.below(13) {
        0 => (failed(E::unexpected_eof::<()>(&s, &e))?, Some(sp), String::new(), "UnexpectedEOF"),
        1 => (
            failed(E::unexpected_character::<()>(&s, &e, ch))?,
            Some(sp),
            ch.to_string(),
            "UnexpectedCharacter",
        ),
        2 => (
            failed(E::unexpected_newline_in_string::<()>(&s, &e))?,
            Some(sp),
            String::new(),
            "UnexpectedNewlineInQuotedString",
        ),
        3 => (
            failed(E::expected_equals::<()>(&s, &e, ch))?,
            Some(sp),
            ch.to_string(),
            "ExpectedEquals",
        ),
        4 => (failed(E::no_more_events::<()>())?, None, String::new(), "BeyondEndOfTokens"),
        5 => (
            failed(E::unexpected_tag_indent::<()>(sp, depth))?,
            Some(sp),
            depth.to_string(),
            "UnexpectedTagIndent",
        ),
        6 => (
            failed(E::unexpected_close_tag::<()>(sp))?,
            Some(sp),
            String::new(),
            "UnexpectedCloseTag",
        ),
        7 => (
            failed(E::unexpected_content::<()>(&s))?,
            Some(Span::new_at(&s)),
            String::new(),
            "UnexpectedContent",
        ),
        8 => (
            failed(E::multiple_root_elements::<()>(sp))?,
            Some(sp),
            String::new(),
            "MultipleRootElements",
        ),
        9 => {
            let p = match r.below(4) {
                0 => String::new(),
                1 => "p".to_string(),
                _ => gen::name(r, d),
            };
            let attr = match p.as_str() {
                "" => word.clone(),
                _ => format!("{}:{}", p, word),
            };
            (
                failed(E::unexpected_attribute::<()>(sp, &p, &word))?,
                Some(sp),
                attr,
                "UnexpectedAttribute",
            )
        }
        10 => {
            let io = std::io::Error::new(std::io::ErrorKind::Other, word.clone());
            let e = if r.one_in(2) {
                E::io_error(sp, io)
            } else {
                failed(E::of_io_result::<()>(sp, Err(io)))?
            };
            (e, Some(sp), word, "IoError")
        }
        11 => (
            failed(E::map_markup_error::<()>(Err(MarkupError::unmapped_prefix(&word)), &sp))?,
            Some(sp),
            word,
            "MarkupError",
        ),
        _ => (
            failed(E::map_markup_error::<()>(Err(MarkupError::bad_name(&word)), &sp))?,
            Some(sp),
            word,
            "MarkupError",
        ),
    })
}

//a C22
pub fn c22(ctx: &mut Ctx) {
    let d = ctx.dict.clone();
    // events made by calls
    let n = ctx.n(600_000, 6_000_000);
    ctx.each("events", n, |c, _, r| {
        let xmlns = r.one_in(2);
        let mut ns = Namespace::new(xmlns);
        let mut st = NamespaceStack::new(&mut ns);
        st.add_ns("p", "u");
        st.add_ns("xml", "x");
        let sp = some_span(r);
        let data = gen::data_with(r, &d, 30, |_| true);
        let (e, want): (Event<usize>, String) = match r.below(9) {
            0 => {
                let v = *r.pick(&[0, 1, 99, 100, 101, 110, 1000, usize::MAX]);
                (Event::start_document(sp, v), format!("StartDoc({})", v))
            }
            1 => (Event::end_document(sp), "EndDoc".into()),
            2 | 3 => {
                let mut at = Attributes::default();
                let mut w = vec![];
                for _ in 0..r.skewed(9) {
                    let p = *r.pick(&["", "p", "xml"]);
                    let n = gen::name(r, &d);
                    let v = gen::data_with(r, &d, 20, |_| true);
                    if xmlns && p.is_empty() && n == "xmlns" {
                        continue;
                    }
                    at.add(&mut st, p, &n, v.clone())
                        .map_err(|e| format!("attribute {:?} {:?}: {:?}", p, n, e))?;
                    let uri = ["", "u", "x"][["", "p", "xml"].iter().position(|x| *x == p).unwrap()];
                    w.push((QName { prefix: p.into(), uri: uri.into(), name: n }, v));
                }
                let n = gen::name(r, &d);
                let tag = Tag::new(&mut st, "p", &n, at).map_err(|e| format!("tag {:?}: {:?}", n, e))?;
                let q = QName { prefix: "p".into(), uri: "u".into(), name: n };
                (Event::start_element(sp, tag), format!("{:?}", run::EvKind::Start(q, w)))
            }
            4 => {
                let n = gen::name(r, &d);
                let nm = Name::new(&mut st, "p", &n).map_err(|e| format!("name {:?}: {:?}", n, e))?;
                let q = QName { prefix: "p".into(), uri: "u".into(), name: n };
                (Event::end_element(sp, nm), format!("{:?}", run::EvKind::End(q)))
            }
            5 | 6 => {
                let ck = [run::CKind::Raw, run::CKind::Int, run::CKind::Ws];
                let i = r.below(3);
                let w = format!("{:?}", run::EvKind::Content(ck[i], data.clone()));
                let ct = [ContentType::Raw, ContentType::Interpretable, ContentType::Whitespace];
                let e = match (i, r.one_in(2)) {
                    (0, true) => Event::content_raw(sp, data),
                    (1, true) => Event::content_int(sp, data),
                    (2, true) => Event::content_ws(sp, data),
                    _ => Event::content(sp, ct[i], data),
                };
                (e, w)
            }
            7 => {
                let l: Vec<usize> = data.split('\n').map(|x| x.len()).collect();
                let w = format!("{:?}", run::EvKind::Comment(data.clone(), l.clone()));
                (Event::comment(sp, data, l), w)
            }
            _ => {
                let t = gen::name(r, &d);
                let id: NSNameId = st.add_name(&t);
                let data = if r.one_in(3) { None } else { Some(data) };
                let w = format!("{:?}", run::EvKind::Pi(t, data.clone()));
                (Event::ProcessingInstruction { span: sp, name: id, data }, w)
            }
        };
        c.input = format!("{} at {}..{}", want, sp.start(), sp.end());
        let got = format!("{:?}", run::ev_kind(&st, &e));
        if got != want {
            return Err(format!("made from {} but is {}", want, got));
        }
        let b = e.borrow_span();
        if b.start() != sp.start() || b.end() != sp.end() {
            return Err(format!("span is {}..{}", b.start(), b.end()));
        }
        c.sig(hash_bytes(got.as_bytes()));
        c.count("events_viewed");
        c.sample(&want, || "every accessor agrees".into());
        views(&st, e)
    });
    // events that were read
    let n = ctx.n(60_000, 600_000);
    ctx.each("read", n, |c, _, r| {
        let o = Opts {
            xmlns: r.one_in(2),
            ..Opts::default()
        };
        let t = gen::any_text(r, &d, o.xmlns);
        c.input = t.clone();
        let mut ns = Namespace::new(o.xmlns);
        let mut st = NamespaceStack::new(&mut ns);
        let lexer = LexerOfStr::<LC, _, HmlError<LC>>::new(&t);
        let fns = parse_fns();
        let mut it = lexer.iter(&fns);
        let mut parser: Parser<LC> = Parser::default();
        let mut k = 0;
        while k < 3 * t.len() + 64 {
            k += 1;
            match parser.next_event(&mut st, || it.next()) {
                Ok(e) => {
                    let done = matches!(e, Event::EndDocument { .. });
                    c.count("events_viewed");
                    views(&st, e)?;
                    if done {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
        c.sig(hash_bytes(t.as_bytes()));
        Ok(())
    });
    // attribute lists, tags and names made by calls
    let n = ctx.n(200_000, 2_000_000);
    ctx.each("lists", n, |c, _, r| {
        let xmlns = r.one_in(2);
        let mut ns = Namespace::new(xmlns);
        let mut st = NamespaceStack::new(&mut ns);
        let mut m = Frames::new(xmlns);
        let mut lists: Vec<(Attributes, Vec<(QName, String)>)> = vec![];
        for _ in 0..2 + r.below(3) {
            lists.push((Attributes::default(), vec![]));
        }
        let mut log = String::new();
        let prefixes = ["", "", "p", "q", "r", "xml"];
        let uris = ["", "u", "v", "http://w", "xmlns"];
        for _ in 0..1 + r.skewed(60) {
            let p = *r.pick(&prefixes);
            let nm = match r.below(12) {
                0 => String::new(),
                1 => "xmlns".to_string(),
                2 => "xml".to_string(),
                3 => "p".to_string(),
                _ => gen::name(r, &d),
            };
            let v = if r.one_in(2) {
                r.pick(&uris).to_string()
            } else {
                gen::data_with(r, &d, 12, |_| true)
            };
            let k = r.below(lists.len());
            match r.below(14) {
                0 => {
                    log.push_str("push; ");
                    st.push_frame();
                    m.push();
                }
                1 => {
                    if m.f.len() > 1 {
                        log.push_str("pop; ");
                        st.pop_frame();
                        m.pop();
                    }
                }
                2 => {
                    log.push_str(&format!("map {:?} {:?}; ", p, v));
                    st.add_ns(p, &v);
                    m.add(p, &v);
                }
                3 => {
                    // a declaration as an attribute
                    let (p, nm) = if r.one_in(3) { ("", "xmlns") } else { ("xmlns", *r.pick(&["p", "q", "r"])) };
                    log.push_str(&format!("add {:?} {:?}={:?} to {}; ", p, nm, v, k));
                    c.input = log.clone();
                    let w = attribute(&mut m, xmlns, p, nm, &v);
                    let g = lists[k].0.add(&mut st, p, nm, v.clone());
                    match (g, w) {
                        (Ok(()), Ok(q)) => lists[k].1.push((q, v)),
                        (Err(e), Err(w)) if refused_as(&e, &w, nm, p) => (),
                        (g, w) => return Err(format!("adding gave {:?} and not {:?}", g, w)),
                    }
                }
                4 | 5 => {
                    let j = r.below(lists.len());
                    if j != k {
                        log.push_str(&format!("move {} to {}; ", j, k));
                        c.input = log.clone();
                        let mut from = std::mem::take(&mut lists[j].0);
                        lists[k].0.steal(&mut from);
                        lists[j].0 = from;
                        let w = std::mem::take(&mut lists[j].1);
                        lists[k].1.extend(w);
                        list_is(&st, &lists[j].0, &lists[j].1, "moved from")?;
                        c.count("moves");
                    }
                }
                6 => {
                    log.push_str(&format!("take {}; ", k));
                    c.input = log.clone();
                    let l = std::mem::take(&mut lists[k].0);
                    let w = std::mem::take(&mut lists[k].1);
                    let got: Vec<(QName, String)> = l
                        .take()
                        .into_iter()
                        .map(|a: Attribute| (qname(&st, &a.name), a.value))
                        .collect();
                    if got != w {
                        return Err(format!("take gave {:?} and not {:?}", got, w));
                    }
                }
                7 => {
                    log.push_str(&format!("tag {:?} {:?} with {}; ", p, nm, k));
                    c.input = log.clone();
                    let l = std::mem::take(&mut lists[k].0);
                    let w = resolved(&m, p, &nm);
                    let g = Tag::new(&mut st, p, &nm, l);
                    same_name(&st, &g.as_ref().map(|t| t.name), &w, p, &nm, &m)?;
                    let want = std::mem::take(&mut lists[k].1);
                    if let Ok(t) = g {
                        list_is(&st, &t.attributes, &want, "in the tag")?;
                        c.count("tags_made");
                    }
                }
                8 => {
                    log.push_str(&format!("name {:?} {:?}; ", p, nm));
                    c.input = log.clone();
                    let w = resolved(&m, p, &nm);
                    let g = Name::new(&mut st, p, &nm);
                    same_name(&st, &g.as_ref().map(|n| *n), &w, p, &nm, &m)?;
                }
                9 => {
                    log.push_str(&format!("local name {:?}; ", nm));
                    c.input = log.clone();
                    match Name::new_local(&mut st, &nm) {
                        Ok(g) if !nm.is_empty() => {
                            let q = qname(&st, &g);
                            if q.name != nm || g.has_prefix() || g.has_uri() {
                                return Err(format!("local name {:?} became {:?}", nm, q));
                            }
                        }
                        Err(MarkupError::EmptyName { .. }) if nm.is_empty() => (),
                        g => return Err(format!("local name {:?} gave {:?}", nm, g)),
                    }
                }
                _ => {
                    log.push_str(&format!("add {:?} {:?}={:?} to {}; ", p, nm, v, k));
                    c.input = log.clone();
                    let before = lists[k].1.len();
                    let w = attribute(&mut m, xmlns, p, &nm, &v);
                    let g = lists[k].0.add(&mut st, p, &nm, v.clone());
                    match (g, w) {
                        (Ok(()), Ok(q)) => lists[k].1.push((q, v)),
                        (Err(e), Err(w)) if refused_as(&e, &w, &nm, p) => c.count("refused"),
                        (g, w) => return Err(format!("adding gave {:?} and not {:?}", g, w)),
                    }
                    if lists[k].1.len() == before {
                        list_is(&st, &lists[k].0, &lists[k].1, "after a refused addition")?;
                    }
                }
            }
        }
        c.input = log.clone();
        for (l, w) in &lists {
            list_is(&st, l, w, "at the end")?;
            c.add("attributes_listed", w.len() as u64);
        }
        c.sig(hash_bytes(log.as_bytes()));
        c.sample(&log, || "every list holds what was put into it".into());
        Ok(())
    });
    // long lists
    let max = ctx.max_size(70_000, 200_000);
    let sizes = gen::sizes(&ctx.dict, max);
    ctx.each("long_lists", sizes.len() as u64, |c, i, r| {
        let k = sizes[i as usize];
        c.input = format!("{} attributes moved in two parts", k);
        let mut ns = Namespace::new(true);
        let mut st = NamespaceStack::new(&mut ns);
        let (mut a, mut b) = (Attributes::default(), Attributes::default());
        let at = r.below(k + 1);
        for j in 0..k {
            let l = if j < at { &mut a } else { &mut b };
            l.add(&mut st, "", &format!("n{}", j % 50), format!("v{}", j))
                .map_err(|e| format!("{:?}", e))?;
        }
        a.steal(&mut b);
        if !b.is_empty() || !b.attributes().is_empty() || a.is_empty() != (k == 0) {
            return Err("is_empty is wrong after moving".into());
        }
        let v = a.take();
        if v.len() != k {
            return Err(format!("{} attributes came back", v.len()));
        }
        for (j, x) in v.iter().enumerate() {
            if x.value != format!("v{}", j) || st.name_str(x.name.name) != format!("n{}", j % 50) {
                return Err(format!("attribute {} is {:?}", j, x));
            }
        }
        c.sig(hash_bytes(c.input.clone().as_bytes()));
        c.max("list", k as u64);
        Ok(())
    });
    // errors made by calls
    let n = ctx.n(20_000, 200_000);
    ctx.each("errors", n, |c, _, r| {
        let (e, sp, detail, kind) = any_error(r, &d)?;
        c.input = format!("{:?}", e);
        let got = e.span();
        let same = match (got, &sp) {
            (None, None) => true,
            (Some(g), Some(w)) => g.start() == w.start() && g.end() == w.end(),
            _ => false,
        };
        if !same {
            return Err(format!("span() gives {:?} and not {:?}", got, sp));
        }
        let info = run::err_info(&e);
        if info.kind.split('/').next() != Some(kind) {
            return Err(format!("the kind is {} and not {}", info.kind, kind));
        }
        if info.display.is_empty()
            || !(info.display.contains(&detail)
                || info.display.contains(&detail.escape_debug().to_string())) {
            return Err(format!("the message {:?} does not contain {:?}", info.display, detail));
        }
        c.count("errors_made");
        c.sig(hash_bytes(c.input.clone().as_bytes()));
        Ok(())
    });
}
