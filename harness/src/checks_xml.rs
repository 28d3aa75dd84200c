//! Checks on the XML side: C15, and documents for C16.

use crate::gen::{self, TreeCfg, TreeGen};
use crate::model;
use crate::report::{quote, Ctx};
use crate::rng::{hash_bytes, Rng};
use crate::run::{End, self, EvKind, Opts, LC};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Attributes, NSNameId, Namespace, NamespaceStack, Tag};
use hml_rs::Span;
use lexer_rs::{Lexer, LexerOfStr, PosnInCharStream};
use xml::reader::XmlEvent as REv;
use xml::writer::XmlEvent as WEv;

//a Single events
fn any_event(
    r: &mut Rng,
    d: &gen::Dict,
    ns: &mut NamespaceStack,
) -> Result<(Event<usize>, EvKind), String> {
    let sp: Span<usize> = Span::new_at(&r.below(100));
    let data = gen::data_with(r, d, 30, |_| true);
    let e = match r.below(8) {
        0 => {
            let v = *r.pick(&[0, 1, 99, 100, 100, 100, 101, 110, 200, 1000, usize::MAX]);
            Event::start_document(sp, v)
        }
        1 => Event::end_document(sp),
        2 | 3 => {
            let mut at = Attributes::default();
            for _ in 0..r.skewed(12) {
                let p = *r.pick(&["", "", "p", "q", "xml"]);
                let n = gen::name(r, d);
                let v = gen::data_with(r, d, 20, |_| true);
                at.add(ns, p, &n, v).map_err(|e| format!("{:?}", e))?;
            }
            let p = *r.pick(&["", "", "p", "q"]);
            let n = gen::name(r, d);
            Event::start_element(sp, Tag::new(ns, p, &n, at).map_err(|e| format!("{:?}", e))?)
        }
        4 => {
            let p = *r.pick(&["", "", "p", "q"]);
            let n = gen::name(r, d);
            let nm = hml_rs::names::Name::new(ns, p, &n).map_err(|e| format!("{:?}", e))?;
            Event::end_element(sp, nm)
        }
        5 => match r.below(6) {
            0 => Event::content_raw(sp, data),
            1 => Event::content_int(sp, data),
            2 => Event::content_ws(sp, r.pick(&[" ", "\n", "\t \n", ""]).to_string()),
            3 => Event::content(sp, ContentType::Whitespace, "\n  ".into()),
            4 => Event::content(sp, ContentType::Interpretable, data),
            _ => Event::content(sp, ContentType::Raw, data),
        },
        6 => Event::comment(sp, data.clone(), vec![data.len()]),
        _ => {
            let n: NSNameId = ns.add_name(&gen::name(r, d));
            Event::ProcessingInstruction {
                span: sp,
                name: n,
                data: if r.one_in(2) { Some(data) } else { None },
            }
        }
    };
    let k = run::ev_kind(ns, &e);
    Ok((e, k))
}

fn conversions<P: PosnInCharStream>(
    e: &Event<P>,
    k: &EvKind,
    ns: &NamespaceStack,
) -> Result<(), String> {
    let w = e.as_xml_writer(ns);
    let xname = |q: &run::QName| -> (String, Option<String>) {
        (
            q.name.clone(),
            (!q.prefix.is_empty()).then(|| q.prefix.clone()),
        )
    };
    let bad = |side: &str, got: String| -> Result<(), String> {
        Err(format!("{:?} became {} event {}", k, side, got))
    };
    match (k, &w) {
        (EvKind::StartDoc(v), Some(WEv::StartDocument { version, .. })) => {
            let want = if *v == 100 {
                xml::common::XmlVersion::Version10
            } else {
                xml::common::XmlVersion::Version11
            };
            if *version != want {
                return bad("writer", format!("{:?}", w));
            }
        }
        (EvKind::EndDoc, None) => (),
        (
            EvKind::Start(q, at),
            Some(WEv::StartElement {
                name, attributes, ..
            }),
        ) => {
            let (l, p) = xname(q);
            let got: Vec<(String, Option<String>, String)> = attributes
                .iter()
                .map(|a| {
                    (
                        a.name.local_name.to_string(),
                        a.name.prefix.map(|s| s.to_string()),
                        a.value.to_string(),
                    )
                })
                .collect();
            let want: Vec<(String, Option<String>, String)> = at
                .iter()
                .map(|(q, v)| (xname(q).0, xname(q).1, v.clone()))
                .collect();
            if name.local_name != l || name.prefix != p.as_deref() || got != want {
                return bad("writer", format!("{:?}", w));
            }
        }
        (EvKind::End(q), Some(WEv::EndElement { name })) => {
            // the name is optional there
            if let Some(n) = name {
                let (l, p) = xname(q);
                if n.local_name != l || n.prefix != p.as_deref() {
                    return bad("writer", format!("{:?}", w));
                }
            }
        }
        (EvKind::Content(_, d), Some(WEv::Characters(s)))
        | (EvKind::Content(_, d), Some(WEv::CData(s))) => {
            if s != d {
                return bad("writer", format!("{:?}", w));
            }
        }
        (EvKind::Comment(d, _), Some(WEv::Comment(s))) => {
            if s != d {
                return bad("writer", format!("{:?}", w));
            }
        }
        (EvKind::Pi(n, d), Some(WEv::ProcessingInstruction { name, data })) => {
            if name != n || data.map(|s| s.to_string()) != *d {
                return bad("writer", format!("{:?}", w));
            }
        }
        _ => return bad("writer", format!("{:?}", w)),
    }
    for fill in [false, true] {
        let r = e.as_xml_reader(ns, fill);
        match (k, &r) {
            (EvKind::StartDoc(v), Some(REv::StartDocument { version, .. })) => {
                let want = if *v == 100 {
                    xml::common::XmlVersion::Version10
                } else {
                    xml::common::XmlVersion::Version11
                };
                if *version != want {
                    return bad("reader", format!("{:?}", r));
                }
            }
            (EvKind::EndDoc, Some(REv::EndDocument)) => (),
            (
                EvKind::Start(q, at),
                Some(REv::StartElement {
                    name, attributes, ..
                }),
            ) => {
                let (l, p) = xname(q);
                let got: Vec<(String, Option<String>, String)> = attributes
                    .iter()
                    .map(|a| {
                        (
                            a.name.local_name.clone(),
                            a.name.prefix.clone(),
                            a.value.clone(),
                        )
                    })
                    .collect();
                let want: Vec<(String, Option<String>, String)> = at
                    .iter()
                    .map(|(q, v)| (xname(q).0, xname(q).1, v.clone()))
                    .collect();
                if name.local_name != l || name.prefix != p || got != want {
                    return bad("reader", format!("{:?}", r));
                }
            }
            (EvKind::End(q), Some(REv::EndElement { name })) => {
                let (l, p) = xname(q);
                if name.local_name != l || name.prefix != p {
                    return bad("reader", format!("{:?}", r));
                }
            }
            (EvKind::Content(_, d), Some(REv::Characters(s)))
            | (EvKind::Content(_, d), Some(REv::CData(s)))
            | (EvKind::Content(run::CKind::Ws, d), Some(REv::Whitespace(s))) => {
                if s != d {
                    return bad("reader", format!("{:?}", r));
                }
            }
            (EvKind::Comment(d, _), Some(REv::Comment(s))) => {
                if s != d {
                    return bad("reader", format!("{:?}", r));
                }
            }
            (EvKind::Pi(n, d), Some(REv::ProcessingInstruction { name, data })) => {
                if name != n || data != d {
                    return bad("reader", format!("{:?}", r));
                }
            }
            _ => return bad("reader", format!("{:?}", r)),
        }
    }
    Ok(())
}

//a Whole documents
/// One part of a document as XML sees it
#[derive(Debug, Clone, PartialEq)]
pub enum X {
    Start(String, String, Vec<(String, String, String)>),
    End(String, String),
    Text(String),
    Comment(String),
}

/// What XML should say about these events: declarations are no attributes, an attribute
/// without a prefix is in no namespace, adjacent text is one text
pub fn expected(evs: &[EvKind], comments: bool) -> Vec<X> {
    let mut v: Vec<X> = vec![];
    for e in evs {
        match e {
            EvKind::Start(q, at) => v.push(X::Start(
                q.uri.clone(),
                q.name.clone(),
                at.iter()
                    .filter(|(q, _)| {
                        q.prefix != "xmlns" && !(q.prefix.is_empty() && q.name == "xmlns")
                    })
                    .map(|(q, v)| {
                        let u = if q.prefix.is_empty() { "" } else { &q.uri };
                        (u.to_string(), q.name.clone(), v.clone())
                    })
                    .collect(),
            )),
            EvKind::End(q) => v.push(X::End(q.uri.clone(), q.name.clone())),
            EvKind::Content(_, d) => {
                if let Some(X::Text(t)) = v.last_mut() {
                    t.push_str(d);
                } else if !d.is_empty() {
                    v.push(X::Text(d.clone()));
                }
            }
            EvKind::Comment(d, _) if comments => v.push(X::Comment(d.clone())),
            _ => (),
        }
    }
    v
}

/// Read XML with xml-rs
fn reread(xml: &[u8]) -> Result<Vec<X>, String> {
    let cfg = xml::ParserConfig::new()
        .trim_whitespace(false)
        .whitespace_to_characters(true)
        .cdata_to_characters(true)
        .ignore_comments(true)
        .coalesce_characters(true);
    let mut v: Vec<X> = vec![];
    for e in xml::EventReader::new_with_config(xml, cfg) {
        match e.map_err(|e| format!("{}", e))? {
            REv::StartElement {
                name, attributes, ..
            } => v.push(X::Start(
                name.namespace.unwrap_or_default(),
                name.local_name,
                attributes
                    .into_iter()
                    .map(|a| {
                        (
                            a.name.namespace.unwrap_or_default(),
                            a.name.local_name,
                            a.value,
                        )
                    })
                    .collect(),
            )),
            REv::EndElement { name } => v.push(X::End(
                name.namespace.unwrap_or_default(),
                name.local_name,
            )),
            REv::Characters(s) | REv::Whitespace(s) | REv::CData(s) => {
                let inside = v
                    .iter()
                    .map(|x| match x {
                        X::Start(..) => 1,
                        X::End(..) => -1,
                        _ => 0,
                    })
                    .sum::<i64>()
                    > 0;
                if !inside {
                    continue;
                }
                if let Some(X::Text(t)) = v.last_mut() {
                    t.push_str(&s);
                } else {
                    v.push(X::Text(s));
                }
            }
            _ => (),
        }
    }
    Ok(v)
}

/// Read HML and write its events as XML
pub fn to_xml(text: &str, o: &Opts, c: Option<&mut Ctx>) -> Result<(Vec<u8>, Vec<EvKind>), String> {
    let mut namespace = Namespace::new(o.xmlns);
    let mut ns = NamespaceStack::new(&mut namespace);
    run::setup_ns(&mut ns, o);
    let lexer = LexerOfStr::new(text);
    let fns = parse_fns();
    let mut it = lexer.iter(&fns);
    let mut parser: Parser<LC> = Parser::default();
    if let Some(v) = o.version {
        parser = parser.set_version(v);
    }
    let mut out = vec![];
    let mut evs = vec![];
    let mut n = 0;
    {
        let mut w = xml::EmitterConfig::new()
            .perform_indent(false)
            .create_writer(&mut out);
        loop {
            let e = parser
                .next_event(&mut ns, || it.next())
                .map_err(|e| format!("refused: {}", e))?;
            let k = run::ev_kind(&ns, &e);
            conversions(&e, &k, &ns)?;
            n += 1;
            evs.push(k);
            if let Some(x) = e.as_xml_writer(&ns) {
                w.write(x)
                    .map_err(|x| format!("the XML writer refused {:?}: {}", evs.last(), x))?;
            }
            if e.is_end_document() {
                break;
            }
            if evs.len() > 3 * text.len() + 64 {
                return Err("events without end".into());
            }
        }
    }
    if let Some(c) = c {
        c.add("events_converted", n);
    }
    Ok((out, evs))
}

fn xml_cfg(r: &mut Rng, xmlns: bool) -> TreeCfg {
    TreeCfg {
        elems: match r.below(6) {
            0..=3 => 1 + r.below(6),
            4 => 1 + r.skewed(30),
            _ => 1 + r.skewed(120),
        },
        deep: r.one_in(4),
        max_attrs: *r.pick(&[1, 3, 8]),
        data: if r.one_in(5) { 120 } else { 10 },
        xmlns,
        xml: true,
        one_in_boxed: r.range(1, 5),
        ..TreeCfg::default()
    }
}

pub fn c15(ctx: &mut Ctx) {
    let d = ctx.dict.clone();
    let n = ctx.n(300_000, 4_000_000);
    ctx.each("events", n, |c, _, r| {
        let mut namespace = Namespace::new(true);
        let mut ns = NamespaceStack::new(&mut namespace);
        ns.add_ns("p", "uri-p");
        ns.add_ns("q", "uri-q");
        let (e, k) = any_event(r, &d, &mut ns)?;
        c.input = format!("{:?}", k);
        c.count(&format!("kind_{}", k.tag()));
        c.sig(hash_bytes(c.input.clone().as_bytes()));
        conversions(&e, &k, &ns)
    });
    let n = ctx.n(40_000, 500_000);
    ctx.each("documents", n, |c, _, r| {
        let xmlns = !r.one_in(3);
        let cfg = xml_cfg(r, xmlns);
        let doc = TreeGen::new(r, &d, cfg).doc();
        let o = Opts {
            xmlns,
            version: if r.one_in(2) { None } else { Some(110) },
            ..Opts::default()
        };
        let (text, written) = gen::write_doc(r, &doc, o.version.unwrap_or(100));
        c.input = text.clone();
        let (xml, evs) = to_xml(&text, &o, Some(&mut *c))?;
        let kinds: Vec<EvKind> = written.into_iter().map(|e| e.k).collect();
        // names and text are those of the tree that was written
        let want = expected(&kinds, false);
        if expected(&evs, false) != want {
            return Err("the events are not those of the document".into());
        }
        let got = reread(&xml).map_err(|e| {
            format!(
                "the XML cannot be read: {}: {}",
                e,
                String::from_utf8_lossy(&xml)
            )
        })?;
        if got != want {
            let i = got
                .iter()
                .zip(&want)
                .take_while(|(a, b)| a == b)
                .count();
            return Err(format!(
                "part {} of the XML reads back as {:?} instead of {:?}",
                i,
                got.get(i),
                want.get(i)
            ));
        }
        let head = String::from_utf8_lossy(&xml[..xml.len().min(40)]).to_string();
        let v = if o.version.is_none() { "1.0" } else { "1.1" };
        if !head.starts_with(&format!("<?xml version=\"{}\"", v)) {
            return Err(format!("the XML starts with {:?}", head));
        }
        c.count("documents_read_back");
        c.sample(&text, || String::from_utf8_lossy(&xml).to_string());
        c.sig(hash_bytes(&xml));
        Ok(())
    });
    // large attribute lists, long text, deep trees
    let max = ctx.max_size(4000, 20_000);
    let dims = [
        "tag_name", "attr_name", "attr_count_distinct", "attr_value_q", "string", "strings",
        "siblings", "depth", "box_depth", "names_distinct", "ns_decls", "ns_nest", "comment_lines",
    ];
    let sizes = gen::sizes(&ctx.dict, max);
    let plan = crate::sized::plan(&sizes, &dims, ctx.thorough);
    ctx.each("sized", plan.len() as u64, |c, i, _| {
        let (dim, k) = plan[i as usize];
        let text = crate::sized::sized(dim, k);
        c.input = format!("{} of {}: {}", dim, k, text.chars().take(200).collect::<String>());
        let o = Opts {
            xmlns: dim.starts_with("ns_"),
            ..Opts::default()
        };
        let x = model::read(&text, &o);
        if !x.accepted() {
            return Ok(());
        }
        let (xml, evs) = to_xml(&text, &o, Some(&mut *c))?;
        let kinds: Vec<EvKind> = x.evs.into_iter().map(|e| e.k).collect();
        if expected(&evs, true) != expected(&kinds, true) {
            return Err("the events are not those of the document".into());
        }
        // the reader of xml-rs has limits of its own
        if k <= 1000 {
            match reread(&xml) {
                Ok(got) => {
                    if got != expected(&kinds, false) {
                        return Err("the XML reads back differently".into());
                    }
                    c.count("documents_read_back");
                }
                Err(e) => {
                    if k <= 100 {
                        return Err(format!("the XML cannot be read: {}", e));
                    }
                    c.count("reader_limits");
                }
            }
        }
        c.sig(hash_bytes(&xml));
        Ok(())
    });
}

//a Documents for other programs
fn json_x(v: &[X]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        match x {
            X::Start(u, n, at) => {
                s.push_str(&format!("[\"S\",{},{},[", quote(u), quote(n)));
                for (j, (u, n, v)) in at.iter().enumerate() {
                    if j > 0 {
                        s.push(',');
                    }
                    s.push_str(&format!("[{},{},{}]", quote(u), quote(n), quote(v)));
                }
                s.push_str("]]");
            }
            X::End(u, n) => s.push_str(&format!("[\"E\",{},{}]", quote(u), quote(n))),
            X::Text(t) => s.push_str(&format!("[\"T\",{}]", quote(t))),
            X::Comment(t) => s.push_str(&format!("[\"C\",{}]", quote(t))),
        }
    }
    s.push(']');
    s
}

/// Lines of JSON with documents, for the checks that are driven from outside
pub fn generate(what: &str, seed: u64, n: u64, dict: &gen::Dict) -> String {
    let mut s = String::new();
    for i in 0..n {
        let r = &mut Rng::new(crate::rng::mix(seed) ^ crate::rng::mix(i) ^ hash_bytes(what.as_bytes()));
        match what {
            "C15" => {
                let xmlns = !r.one_in(4);
                let cfg = xml_cfg(r, xmlns);
                let doc = TreeGen::new(r, dict, cfg).doc();
                let (text, evs) = gen::write_doc(r, &doc, 100);
                let kinds: Vec<EvKind> = evs.into_iter().map(|e| e.k).collect();
                let o = Opts {
                    xmlns,
                    ..Opts::default()
                };
                let res = std::panic::catch_unwind(|| to_xml(&text, &o, None));
                let (xml, err) = match res {
                    Ok(Ok((x, _))) => (String::from_utf8_lossy(&x).to_string(), String::new()),
                    Ok(Err(e)) => (String::new(), e),
                    Err(p) => (String::new(), crate::report::panic_text(&p)),
                };
                s.push_str(&format!(
                    "{{\"i\":{},\"text\":{},\"xml\":{},\"err\":{},\"want\":{}}}\n",
                    i,
                    quote(&text),
                    quote(&xml),
                    quote(&err),
                    json_x(&expected(&kinds, false))
                ));
            }
            "good" => {
                let mut cfg = xml_cfg(r, false);
                cfg.comments = r.one_in(2);
                let doc = TreeGen::new(r, dict, cfg).doc();
                let (text, evs) = gen::write_doc(r, &doc, 100);
                let kinds: Vec<EvKind> = evs.into_iter().map(|e| e.k).collect();
                s.push_str(&format!(
                    "{{\"i\":{},\"text\":{},\"want\":{}}}\n",
                    i,
                    quote(&text),
                    json_x(&expected(&kinds, true))
                ));
            }
            _ => {
                // refused texts, with where and why
                let (text, x) = loop {
                    let t = gen::any_text(r, dict, false);
                    if t.contains('\0') || t.contains('\r') {
                        continue;
                    }
                    let x = model::read(&t, &Opts::default());
                    if !x.accepted() && x.errs.len() == 1 {
                        break (t, x);
                    }
                };
                let e = &x.errs[0];
                let l = model::Lines::new(&text);
                let p = l.pos(&text, e.s);
                let q = l.pos(&text, e.e);
                let reason = match crate::run::read_lc(&text, &Opts::default()).end {
                    End::Err(e) => e.display,
                    _ => String::new(),
                };
                s.push_str(&format!(
                    "{{\"i\":{},\"text\":{},\"kind\":{},\"line\":{},\"col\":{},\"eline\":{},\"ecol\":{},\"detail\":{},\"reason\":{}}}\n",
                    i,
                    quote(&text),
                    quote(e.kind),
                    p.line,
                    p.col,
                    q.line,
                    q.col,
                    quote(&e.detail),
                    quote(&reason)
                ));
            }
        }
    }
    s
}
