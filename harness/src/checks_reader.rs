//! Checks on the reader: C01 to C12, C19 and C20.

use crate::gen::{self, TreeCfg, TreeGen};
use crate::model::{self, Aspects, Expect};
use crate::report::Ctx;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{self, End, Ev, EvKind, Opts, Outcome, Which, LC};
use crate::sized;
use hml_rs::names::{Namespace, NamespaceStack};
use lexer_rs::StreamCharPos;

//a Shared workloads
/// Characters for the exhaustive short texts
const CHARS: &[&str] = &[
    "#", "a", "r", "\"", "'", ";", "\n", " ", "{", "}", ":", "=", "\u{e9}",
];

/// Tokens for the exhaustive short documents
const TOKENS: &[&str] = &[
    "#a ", "##a ", "#a{ ", "#a} ", "##b{ ", "##b} ", "###c ", "\"s\" ", ";c\n", "x=1 ",
];

/// Structural tokens only, for longer exhaustive documents
const STRUCT: &[&str] = &["#a{ ", "#a} ", "##a{ ", "##a} ", "##b ", "###a "];

/// Pieces around strings
const STRPIECES: &[&str] = &["\"", "'", "#", "r", "x", "\n", "\\"];

/// Pieces around comments
const COMPIECES: &[&str] = &[";", "\n", " ", "\r", "c", "\u{e9}", "##b ", "\"s\""];

/// Pieces around attributes
const ATTPIECES: &[&str] = &["x", ":", "=", "'", "\"", " ", "1", "#", "\u{e9}", "\n"];

/// Pieces around namespaces; used with XML namespaces enabled
const NSPIECES: &[&str] = &[
    "#p:a{ ", "#p:a} ", "##b ", "##q:b ", "xmlns:p='u' ", "xmlns:p='v' ", "xmlns='d' ",
    "p:k=1 ", "k=2 ", "#a{ ", "#a} ",
];

/// Names that look like the reserved ones without being them; with XML namespaces enabled
const NSODD: &[&str] = &[
    "xmlns:xmlnsx='u' ", "xmlnsx:k='v' ", "xmlns:k='w' ", "xmlnsx='y' ", "Xmlns='z' ", "k:m=1 ",
    "xml:k=2 ", "##k:b ", "##Xmlns:b ", "##xmlnsx:c ", "xmlns:xml='t' ",
];

/// Documents to put characters into; every other one with XML namespaces enabled
const INTO: &[&str] = &[
    "#a{ x='1' \"s\" ##b y=2 r#'t'# ;c\n ;d\n#a}",
    "#p:a xmlns:p='u' p:k=\"v\"\n##p:b{ 's'\n##p:b}\n",
    ";c\n#a\n##b\n###c \"\u{e9}\" ##d{ #e #f ##\"x\"#\"## ##d}",
];

#[derive(Clone, Copy, PartialEq)]
pub enum W {
    /// All short texts over the characters
    Chars(u32, u32),
    /// All short texts over a piece list after a start: (name, pieces, before, after, quick len, thorough len)
    Pieces(&'static str, &'static [&'static str], &'static str, &'static str, u32, u32),
    /// Texts of all kinds: quick number, thorough number
    Any(u64, u64),
    /// Soups only
    Soup(u64, u64),
    /// Documents with one character put in, or in the place of another, everywhere
    Inserted,
    /// Texts with one part repeated many times
    Pumped(u64, u64),
    /// Tree documents with one token changed a little
    NearMiss(u64, u64),
    /// One dimension large, over these dimensions (empty: all)
    Sized(&'static [&'static str]),
}

fn opts(xmlns: bool) -> Opts {
    Opts {
        xmlns,
        ..Opts::default()
    }
}

/// Run a check of single texts over workloads
pub fn corpus(
    ctx: &mut Ctx,
    works: &[W],
    xmlns: Option<bool>,
    f: &dyn Fn(&mut Ctx, &str, &Opts) -> Result<(), String>,
) {
    for w in works {
        match *w {
            W::Chars(q, t) => {
                let len = if ctx.mode == "miri" {
                    1
                } else if ctx.thorough {
                    t
                } else {
                    q
                };
                let n = gen::count_strings(CHARS.len(), len);
                let o = opts(xmlns.unwrap_or(false));
                ctx.each("chars", n, |c, i, _| {
                    let text = gen::nth_string(CHARS, i);
                    c.input.push_str(&text);
                    f(c, &text, &o)
                });
                let len = len.saturating_sub(1);
                let n = gen::count_strings(CHARS.len(), len);
                ctx.each("chars_in", n, |c, i, _| {
                    let text = format!("#a {}", gen::nth_string(CHARS, i));
                    c.input.push_str(&text);
                    f(c, &text, &o)
                });
            }
            W::Pieces(name, pieces, before, after, q, t) => {
                let len = if ctx.mode == "miri" {
                    1
                } else if ctx.thorough {
                    t
                } else {
                    q
                };
                let n = gen::count_strings(pieces.len(), len);
                let o = opts(xmlns.unwrap_or(name.starts_with("ns")));
                ctx.each(&format!("all_{}", name), n, |c, i, _| {
                    let text = format!("{}{}{}", before, gen::nth_string(pieces, i), after);
                    c.input.push_str(&text);
                    f(c, &text, &o)
                });
            }
            W::Any(q, t) => {
                let n = ctx.n(q, t);
                let d = ctx.dict.clone();
                ctx.each("any", n, |c, _, r| {
                    let ns = xmlns.unwrap_or(r.one_in(3));
                    let text = gen::any_text(r, &d, ns);
                    c.input.push_str(&text);
                    f(c, &text, &opts(ns))
                });
            }
            W::Soup(q, t) => {
                let n = ctx.n(q, t);
                let d = ctx.dict.clone();
                ctx.each("soup", n, |c, _, r| {
                    let ns = xmlns.unwrap_or(r.one_in(3));
                    let text = gen::soup(r, &d, 40);
                    c.input.push_str(&text);
                    f(c, &text, &opts(ns))
                });
            }
            W::Inserted => {
                let mut chars: Vec<char> = (0..0x250).filter_map(char::from_u32).collect();
                chars.extend((0x2000..0x2070).filter_map(char::from_u32));
                chars.extend("\u{300}\u{36f}\u{37e}\u{1680}\u{180e}\u{3000}\u{d7ff}\u{e000}".chars());
                chars.extend("\u{fdd0}\u{feff}\u{ff03}\u{fffd}\u{ffff}\u{1f600}\u{10ffff}".chars());
                let mut places = vec![];
                for (k, d) in INTO.iter().enumerate() {
                    places.extend((0..=d.len()).filter(|i| d.is_char_boundary(*i)).map(|i| (k, i)));
                }
                let total = if ctx.mode == "miri" { 40 } else { (chars.len() * places.len()) as u64 };
                ctx.each("inserted", total, |c, i, _| {
                    let i = i as usize;
                    let (k, at) = places[i % places.len()];
                    let ch = chars[i / places.len()];
                    let (a, b) = INTO[k].split_at(at);
                    let rest = &b[b.chars().next().map_or(0, |c| c.len_utf8())..];
                    let o = opts(xmlns.unwrap_or(k % 2 == 1));
                    for text in [format!("{}{}{}", a, ch, b), format!("{}{}{}", a, ch, rest)] {
                        c.input.clear();
                        c.input.push_str(&text);
                        f(c, &text, &o)?;
                    }
                    Ok(())
                });
            }
            W::Pumped(q, t) => {
                let n = ctx.n(q, t);
                let d = ctx.dict.clone();
                ctx.each("pumped", n, |c, _, r| {
                    let ns = xmlns.unwrap_or(r.one_in(3));
                    let text = gen::pumped(r, &d, ns, 30_000);
                    c.input.push_str(&cut(&text, 3000));
                    f(c, &text, &opts(ns))
                });
            }
            W::NearMiss(q, t) => {
                let n = ctx.n(q, t);
                ctx.each("near_miss", n, |c, _, r| {
                    let ns = xmlns.unwrap_or(r.one_in(2));
                    let (_, text, _, _) = tree_case(c, r, &|r, cfg| {
                        cfg.elems = 1 + r.skewed(25);
                        cfg.one_in_boxed = r.range(1, 2);
                        cfg.max_attrs = 1;
                        cfg.deep = r.one_in(2);
                        cfg.data = 6;
                        cfg.xmlns = ns;
                    });
                    let text = near_miss(r, &text);
                    c.input.clear();
                    c.input.push_str(&text);
                    f(c, &text, &opts(ns))
                });
            }
            W::Sized(dims) => {
                let max = ctx.max_size(70_000, 200_000);
                let sizes = gen::sizes(&ctx.dict, max);
                let plan = sized::plan(&sizes, dims, ctx.thorough);
                ctx.each("sized", plan.len() as u64, |c, i, _| {
                    let (dim, n) = plan[i as usize];
                    let text = sized::sized(dim, n);
                    c.input
                        .push_str(&format!("{} of {}: {}", dim, n, cut(&text, 300)));
                    c.max(&format!("size_{}", dim), n as u64);
                    let ns = dim.starts_with("ns_") || dim.starts_with("prefix");
                    let started = std::time::Instant::now();
                    let res = f(c, &text, &opts(ns));
                    let ms = started.elapsed().as_millis() as u64;
                    if ms > 20 {
                        c.add(&format!("ms_sized_{}", dim), ms);
                    }
                    res
                });
            }
        }
    }
    evolved(ctx, xmlns, f);
}

/// Evolve texts towards code and comparisons not reached yet, where this is built in
fn evolved(
    ctx: &mut Ctx,
    xmlns: Option<bool>,
    f: &dyn Fn(&mut Ctx, &str, &Opts) -> Result<(), String>,
) {
    ctx.corpora += 1;
    let name = format!("evolved{}", ctx.corpora);
    let d = ctx.dict.clone();
    let mut first = |c: &mut Ctx, r: &mut Rng| {
        let ns = xmlns.unwrap_or(r.one_in(2));
        let text = match r.below(3) {
            0 => gen::any_text(r, &d, ns),
            k => {
                let (_, text, _, _) = tree_case(c, r, &|r, cfg| {
                    cfg.elems = 1 + r.skewed(20);
                    cfg.data = 6;
                    cfg.xmlns = ns;
                });
                if k == 1 {
                    text
                } else {
                    near_miss(r, &text)
                }
            }
        };
        c.input.clear();
        (ns, text)
    };
    ctx.evolve_texts(&name, &mut first, &|c, t, ns| f(c, t, &opts(ns)));
}

/// A document with one token changed a little, so that it is often just not right
pub fn near_miss(r: &mut Rng, text: &str) -> String {
    use model::Tok;
    let (toks, _) = model::tokens(text);
    let tags: Vec<usize> = (0..toks.len())
        .filter(|i| matches!(toks[*i].0, Tok::Open { .. } | Tok::Close { .. }))
        .collect();
    let closes: Vec<usize> = (0..toks.len())
        .filter(|i| matches!(toks[*i].0, Tok::Close { .. }))
        .collect();
    if tags.is_empty() {
        return text.to_string();
    }
    let i = match r.below(3) {
        0 if !closes.is_empty() => *r.pick(&closes),
        1 => *r.pick(&tags),
        _ => r.below(toks.len()),
    };
    let (tok, s, e) = &toks[i];
    let (s, e) = (*s, *e);
    let old = &text[s..e];
    let new = match tok {
        Tok::Open { prefix, name, depth, .. } | Tok::Close { prefix, name, depth } => {
            let (mut prefix, mut name, mut depth) = (prefix.clone(), name.clone(), *depth);
            let mut end = &old[old.trim_end_matches(['{', '}']).len()..];
            // a tag of the document to take parts from
            let (p2, n2, d2) = match &toks[*r.pick(&tags)].0 {
                Tok::Open { prefix, name, depth, .. } | Tok::Close { prefix, name, depth } => {
                    (prefix.clone(), name.clone(), *depth)
                }
                _ => unreachable!(),
            };
            match r.below(9) {
                0 | 1 => depth = 1 + r.below(depth + 2),
                2 => depth = d2,
                3 => prefix = if prefix.is_empty() { "p".into() } else { String::new() },
                4 => prefix = p2,
                5 => name = n2,
                6 => (prefix, name, depth) = (p2, n2, d2),
                7 => end = *r.pick(&["", "{", "}"]),
                _ => {
                    if r.one_in(2) {
                        name.push_str(&n2);
                    } else {
                        name.pop();
                    }
                }
            }
            if !prefix.is_empty() {
                prefix.push(':');
            }
            format!("{}{}{}{}", "#".repeat(depth), prefix, name, end)
        }
        _ => {
            let cuts: Vec<usize> = (0..old.len()).filter(|i| old.is_char_boundary(*i)).collect();
            let k = *r.pick(&cuts);
            match r.below(4) {
                // without the token, twice, without a part of it, in two
                0 => String::new(),
                1 => format!("{} {}", old, old),
                2 => old[..k].to_string(),
                _ => format!("{}{}{}", &old[..k], r.pick(&[" ", "\n", "#", "'", "\"", ";", "="]), &old[k..]),
            }
        }
    };
    format!("{}{}{}", &text[..s], new, &text[e..])
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

const ALL_WORK: &[W] = &[
    W::Chars(5, 6),
    W::Pieces("tokens", TOKENS, "", "", 5, 6),
    W::Pieces("struct", STRUCT, "#r{ ", "#r}", 6, 8),
    W::Any(160_000, 2_000_000),
    W::Soup(160_000, 2_000_000),
    W::Inserted,
    W::Pumped(4_000, 40_000),
    W::NearMiss(60_000, 800_000),
    W::Sized(&[]),
];

/// A random tree document for a case, with its text and events
fn tree_case(
    c: &mut Ctx,
    r: &mut Rng,
    tweak: &dyn Fn(&mut Rng, &mut TreeCfg),
) -> (gen::Doc, String, Vec<Ev>, Opts) {
    let mut cfg = TreeCfg {
        elems: match r.below(10) {
            0..=5 => 1 + r.below(6),
            6..=8 => 1 + r.skewed(40),
            _ => 1 + r.skewed(300),
        },
        deep: r.one_in(4),
        one_in_boxed: r.range(1, 5),
        data: if r.one_in(5) { 200 } else { 12 },
        ..TreeCfg::default()
    };
    tweak(r, &mut cfg);
    let o = Opts {
        xmlns: cfg.xmlns,
        premap: cfg.premap.clone(),
        version: if r.one_in(3) {
            Some(r.below(300))
        } else {
            None
        },
        ..Opts::default()
    };
    let d = c.dict.clone();
    let doc = TreeGen::new(r, &d, cfg).doc();
    let v = o.version.unwrap_or(100);
    let (text, evs) = if r.one_in(6) {
        gen::write_plain(&doc, v)
    } else {
        gen::write_doc(r, &doc, v)
    };
    c.input.push_str(&text);
    (doc, text, evs, o)
}

fn must_accept(out: &Outcome) -> Result<(), String> {
    match &out.end {
        End::Done => Ok(()),
        e => Err(format!("a well-formed document was not accepted: {:?}", e)),
    }
}

/// The outcome is a violation whatever the property: the reader died on a text
fn not_dead(out: &Outcome) -> Result<(), String> {
    match &out.end {
        End::Panic(p) => Err(format!("the reader panicked: {}", p)),
        End::EventBudget => Err("the reader delivers events without end".into()),
        _ => Ok(()),
    }
}

fn opt(x: Option<String>) -> Result<(), String> {
    match x {
        None => Ok(()),
        Some(s) => Err(s),
    }
}

/// Compare with the model, in some aspects
fn against_model(
    ctx: &mut Ctx,
    text: &str,
    o: &Opts,
    asp: &Aspects,
    error: bool,
) -> Result<(Expect, Outcome), String> {
    let x = model::read(text, o);
    let out = run::read_lc(text, o);
    ctx.note(text, &out);
    ctx.max("box_depth", x.max_box as u64);
    not_dead(&out)?;
    opt(model::diff_events(&x, &out, asp))?;
    opt(model::diff_acceptance(&x, &out))?;
    if error {
        opt(model::diff_error(&x, &out, text, asp.lc))?;
    }
    Ok((x, out))
}

/// Keep only what concerns a kind of event
fn only(evs: &[Ev], f: impl Fn(&EvKind) -> bool) -> Vec<Ev> {
    evs.iter().filter(|e| f(&e.k)).cloned().collect()
}

//a C01
fn valid_utf8(out: &Outcome) -> Result<(), String> {
    let ok = |s: &str| std::str::from_utf8(s.as_bytes()).is_ok();
    for e in &out.evs {
        let good = match &e.k {
            EvKind::Start(q, at) => {
                ok(&q.name)
                    && ok(&q.prefix)
                    && at.iter().all(|(n, v)| ok(&n.name) && ok(&n.prefix) && ok(v))
            }
            EvKind::End(q) => ok(&q.name) && ok(&q.prefix),
            EvKind::Content(_, d) => ok(d),
            EvKind::Comment(d, _) => ok(d),
            _ => true,
        };
        if !good {
            return Err("a delivered string is not valid UTF-8".into());
        }
    }
    Ok(())
}

fn c01_text(c: &mut Ctx, text: &str, o: &Opts) -> Result<(), String> {
    // In the monitored run a bad position is recorded, not used
    let m = run::read::<LC>(text, o, Which::Mon);
    if let Some(b) = &m.contract {
        return Err(format!("stream contract broken: {}", b));
    }
    c.max("steps", m.steps);
    c.add("stream_steps", m.steps);
    if text.len() < 2000 {
        let m2 = run::read::<usize>(text, o, Which::Mon);
        if let Some(b) = &m2.contract {
            return Err(format!("stream contract broken with byte positions: {}", b));
        }
    }
    // The plain run is what the sanitizers watch: text in an allocation of exactly its size
    let boxed: Box<str> = text.into();
    let p = run::read_lc(&boxed, o);
    c.note(text, &p);
    for e in &p.evs {
        for q in [&e.s, &e.e] {
            if q.ofs > text.len() || !text.is_char_boundary(q.ofs) {
                return Err(format!("position {} of {:?} is not in the text", q.ofs, e.k));
            }
        }
    }
    if let End::Err(e) = &p.end {
        if let Some((s, en)) = &e.span {
            for q in [s, en] {
                if q.ofs > text.len() || !text.is_char_boundary(q.ofs) {
                    return Err(format!("position {} of {:?} is not in the text", q.ofs, e));
                }
            }
        }
    }
    valid_utf8(&p)
}

pub fn c01(ctx: &mut Ctx) {
    corpus(
        ctx,
        &[
            W::Chars(4, 6),
            W::Pieces("strings", STRPIECES, "#a ", "", 5, 7),
            W::Pieces("comments", COMPIECES, "#a ", "", 5, 6),
            W::Pieces("attrs", ATTPIECES, "#a ", "", 4, 5),
            W::Any(60_000, 1_500_000),
            W::Soup(40_000, 1_000_000),
            W::Pumped(1_000, 20_000),
        ],
        None,
        &c01_text,
    );
    // every prefix and suffix of documents: the text can stop anywhere
    let n = ctx.n(4000, 60_000);
    ctx.each("truncated", n, |c, _, r| {
        let (_, text, _, o) = tree_case(c, r, &|_, cfg| {
            cfg.elems = cfg.elems.min(6);
            cfg.data = 8;
        });
        let mut cuts: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
        cuts.push(text.len());
        let most = if c.mode == "miri" { 5 } else { 300 };
        let first = if c.mode == "miri" && cuts.len() > most {
            r.below(cuts.len() - most)
        } else {
            0
        };
        for k in cuts.iter().skip(first).take(most) {
            c01_text(c, &text[..*k], &o)?;
            c01_text(c, &text[*k..], &o)?;
        }
        Ok(())
    });
    if ctx.mode == "normal" || (ctx.thorough && ctx.mode != "miri") {
        corpus(ctx, &[W::Sized(&[])], None, &c01_text);
    }
    crate::checks_text::c01_text_functions(ctx);
}

//a C02
fn c02_text(c: &mut Ctx, text: &str, o: &Opts) -> Result<(), String> {
    let mut o = o.clone();
    o.after = 6;
    let m = run::read::<LC>(text, &o, Which::Mon);
    match &m.end {
        End::StepBudget => {
            return Err(format!(
                "the reader does not end: over {} steps for {} bytes",
                m.steps,
                text.len()
            ))
        }
        End::EventBudget => {
            return Err(format!(
                "the reader does not end: {} events for {} bytes",
                m.evs.len(),
                text.len()
            ))
        }
        End::Panic(p) => return Err(format!("the reader panicked: {}", p)),
        End::Done => {
            for a in &m.after {
                match a {
                    Err(k) if k == "BeyondEndOfTokens" => (),
                    a => {
                        return Err(format!(
                            "a request after end-of-document was answered with {:?}",
                            a
                        ))
                    }
                }
            }
            c.add("requests_after_end", m.after.len() as u64);
        }
        End::Err(_) => c.add("requests_after_error", m.after.len() as u64),
    }
    if m.evs.len() > 2 * text.len() + 4 {
        return Err(format!("{} events for {} bytes", m.evs.len(), text.len()));
    }
    c.max("steps_per_byte", m.steps / (text.len() as u64 + 1));
    // about 20 are needed
    if m.steps > 1000 * text.len() as u64 + 20_000 {
        return Err(format!(
            "{} characters were looked at in a text of {} bytes",
            m.steps,
            text.len()
        ));
    }
    let p = run::read_lc(text, &o);
    if let End::Panic(p) = &p.end {
        return Err(format!("the reader panicked: {}", p));
    }
    c.note(text, &p);
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    corpus(
        ctx,
        &[
            W::Chars(5, 6),
            W::Pieces("tokens", TOKENS, "", "", 5, 6),
            W::Pieces("struct", STRUCT, "#r{ ", "", 6, 8),
            W::Pieces("ns", NSPIECES, "", "", 4, 5),
            W::Any(120_000, 1_600_000),
            W::Soup(120_000, 1_600_000),
            W::Pumped(12_000, 120_000),
            W::Sized(&[]),
        ],
        None,
        &c02_text,
    );
    // keep asking after errors: drain for many requests
    let n = ctx.n(60_000, 600_000);
    let d = ctx.dict.clone();
    ctx.each("drain", n, |c, _, r| {
        let ns = r.one_in(2);
        let text = gen::soup(r, &d, 30);
        c.input.push_str(&text);
        let mut o = opts(ns);
        o.after = 40;
        let m = run::read::<LC>(&text, &o, Which::Mon);
        if let End::Panic(p) = &m.end {
            return Err(format!("the reader panicked: {}", p));
        }
        c.add("requests_after_end", m.after.len() as u64);
        c.note(&text, &m);
        Ok(())
    });
    // token sources that end at an error, or go on after it
    let n = ctx.n(60_000, 600_000);
    ctx.each("recovery", n, |c, _, r| {
        let ns = r.one_in(2);
        let text = if r.one_in(3) {
            gen::any_text(r, &d, ns)
        } else {
            gen::soup(r, &d, 20)
        };
        c.input.push_str(&text);
        for rec in [run::Recovery::Ends, run::Recovery::Skips] {
            match run::keep_asking(&text, &opts(ns), rec) {
                Ok((events, errors)) => {
                    c.add("events_with_recovery", events as u64);
                    c.sig(mix((events * 1000 + errors) as u64));
                }
                Err(p) => return Err(format!("the reader panicked after an error: {}", p)),
            }
        }
        Ok(())
    });
}

//a C03
/// The event automaton
pub fn well_formed(evs: &[Ev], end: &End, version: usize) -> Option<String> {
    let mut open: Vec<&run::QName> = vec![];
    let mut roots = 0;
    let mut ended = false;
    for (i, e) in evs.iter().enumerate() {
        if ended {
            return Some(format!("event {} {:?} after end-of-document", i, e.k));
        }
        if (i == 0) != matches!(e.k, EvKind::StartDoc(_)) {
            return Some(format!("event {} is {:?}", i, e.k));
        }
        match &e.k {
            EvKind::StartDoc(v) => {
                if *v != version {
                    return Some(format!("version {} instead of {}", v, version));
                }
            }
            EvKind::Start(q, _) => {
                if open.is_empty() {
                    roots += 1;
                    if roots > 1 {
                        return Some(format!("event {}: second root element {:?}", i, q));
                    }
                }
                open.push(q);
            }
            EvKind::End(q) => match open.pop() {
                None => return Some(format!("event {}: end of {:?} with nothing open", i, q)),
                Some(s) if s != q => {
                    return Some(format!("event {}: {:?} ended by {:?}", i, s, q))
                }
                _ => (),
            },
            EvKind::Content(..) => {
                if open.is_empty() {
                    return Some(format!("event {}: content outside any element", i));
                }
            }
            EvKind::EndDoc => {
                ended = true;
                if !open.is_empty() {
                    return Some(format!("document ended with {} elements open", open.len()));
                }
                if roots != 1 {
                    return Some(format!("document ended with {} root elements", roots));
                }
            }
            EvKind::Comment(..) | EvKind::Pi(..) => (),
        }
    }
    if *end == End::Done && !ended {
        return Some("no end-of-document".into());
    }
    None
}

pub fn c03(ctx: &mut Ctx) {
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let mut o = o.clone();
        let v = [100, 110, 0, 1, 99, 101, 200, usize::MAX][text.len() % 8];
        o.version = if text.len() % 16 < 8 { Some(v) } else { None };
        let out = run::read_lc(text, &o);
        c.note(text, &out);
        not_dead(&out)?;
        if text.is_empty() && out.evs.is_empty() {
            return Err("no start-of-document".into());
        }
        opt(well_formed(&out.evs, &out.end, o.version.unwrap_or(100)))
    };
    corpus(
        ctx,
        &[
            W::Chars(4, 6),
            W::Pieces("tokens", TOKENS, "", "", 6, 7),
            W::Pieces("struct", STRUCT, "#r{ ", "", 7, 9),
            W::Pieces("ns", NSPIECES, "", "", 5, 6),
            W::Any(200_000, 3_000_000),
            W::Soup(200_000, 3_000_000),
            W::Pumped(4_000, 40_000),
            W::Inserted,
            W::NearMiss(30_000, 400_000),
            W::Sized(&[]),
        ],
        None,
        &f,
    );
    let n = ctx.n(60_000, 800_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, _, o) = tree_case(c, r, &|r, cfg| cfg.xmlns = r.one_in(2));
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        not_dead(&out)?;
        opt(well_formed(&out.evs, &out.end, o.version.unwrap_or(100)))
    });
}

//a C04
const TREE: Aspects = Aspects {
    uri: false,
    span: false,
    lc: false,
    attrs: false,
    content: true,
    comments: true,
};

pub fn c04(ctx: &mut Ctx) {
    let n = ctx.n(120_000, 2_000_000);
    ctx.each("trees", n, |c, _, r| {
        let (doc, text, evs, o) = tree_case(c, r, &|_, cfg| cfg.max_attrs = 1);
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        c.add("elements", doc.root.count() as u64);
        must_accept(&out)?;
        opt(model::diff_lists(&evs, &out.evs, &TREE, 0, true))
    });
    // the same tree with other boxes gives the same events
    let n = ctx.n(60_000, 800_000);
    ctx.each("rebox", n, |c, _, r| {
        let (mut doc, text, evs, o) = tree_case(c, r, &|r, cfg| {
            cfg.deep = r.one_in(2);
            cfg.max_attrs = 0;
        });
        let a = run::read_lc(&text, &o);
        must_accept(&a)?;
        opt(model::diff_lists(&evs, &a.evs, &TREE, 0, true))?;
        doc.after.clear();
        for _ in 0..2 {
            gen::rebox(r, &mut doc.root);
            let (t2, e2) = gen::write_doc(r, &doc, o.version.unwrap_or(100));
            c.input = t2.clone();
            let b = run::read_lc(&t2, &o);
            c.note(&t2, &b);
            must_accept(&b)?;
            opt(model::diff_lists(&e2, &b.evs, &TREE, 0, true))?;
            // apart from comments after the root, nothing may differ
            let strip = |v: &[Ev]| -> Vec<EvKind> {
                let mut v: Vec<EvKind> = v.iter().map(|e| e.k.clone()).collect();
                if doc.root.count() == 0 {
                    v.clear();
                }
                while matches!(v.last(), Some(EvKind::EndDoc) | Some(EvKind::Comment(..))) {
                    v.pop();
                }
                v
            };
            if strip(&a.evs) != strip(&b.evs) {
                return Err(format!(
                    "boxing changed the tree: {:?} against {:?}",
                    strip(&a.evs),
                    strip(&b.evs)
                ));
            }
        }
        Ok(())
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        let out = run::read_lc(text, o);
        c.max("box_depth", x.max_box as u64);
        if !x.accepted() {
            // what is refused is another property's business
            c.count("skipped_refused");
            return Ok(());
        }
        c.note(text, &out);
        must_accept(&out)?;
        opt(model::diff_events(&x, &out, &TREE))
    };
    corpus(
        ctx,
        &[
            W::Pieces("tokens", TOKENS, "", "", 6, 7),
            W::Pieces("struct", STRUCT, "#r{ ", "#r}", 7, 8),
            W::Pieces("struct_unboxed", STRUCT, "#r ", "", 7, 8),
            W::Any(40_000, 600_000),
            W::Inserted,
            W::NearMiss(30_000, 400_000),
            W::Sized(&[
                "tag_name", "siblings", "siblings_boxed", "depth", "depth_named", "box_depth",
                "box_depth_close_inner", "boxes_at_depth", "up_down", "strings", "comments",
                "after_box", "names_distinct", "spaces", "attr_count_same",
            ]),
        ],
        None,
        &f,
    );
    // long random walks over depths and boxes
    let n = ctx.n(20_000, 300_000);
    ctx.each("walks", n, |c, _, r| {
        let text = walk(r, 120);
        c.input.push_str(&text);
        f(c, &text, &Opts::default())
    });
}

/// A valid walk through depths and boxes, with names by choice
pub fn walk(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    // open box tags, and the current depth in each box
    let mut boxes: Vec<(String, usize)> = vec![];
    let mut depth = 0usize;
    let n = 2 + r.below(max);
    let up = r.range(1, 4);
    for i in 0..n {
        let root_closed = i > 0 && boxes.is_empty() && depth == 0;
        if root_closed {
            break;
        }
        match r.below(10) {
            0..=1 if !boxes.is_empty() => {
                let (tag, d) = boxes.pop().unwrap();
                s.push_str(&tag);
                s.push_str("} ");
                depth = d;
            }
            2 if i > 0 => s.push_str("\"s\" "),
            3 if i > 0 => s.push_str(";c\n"),
            k => {
                let lo = if boxes.is_empty() && i > 0 { 2 } else { 1 };
                let hi = depth + 1;
                let d = if i == 0 {
                    1
                } else if lo > hi {
                    continue;
                } else if r.below(4) < up {
                    hi
                } else {
                    r.range(lo, hi)
                };
                let tag = format!("{}{}", "#".repeat(d), r.pick(&["a", "b", "c"]));
                s.push_str(&tag);
                if k < 7 {
                    s.push_str("{ ");
                    boxes.push((tag, d - 1));
                    depth = 0;
                } else {
                    s.push(' ');
                    depth = d;
                }
            }
        }
    }
    while let Some((tag, _)) = boxes.pop() {
        s.push_str(&tag);
        s.push_str("} ");
    }
    s
}

//a C05
pub fn c05(ctx: &mut Ctx) {
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        let out = run::read_lc(text, o);
        c.note(text, &out);
        if !x.accepted() {
            c.count(&format!("model_{}", x.errs[0].kind));
        }
        not_dead(&out)?;
        if out.end == End::StepBudget {
            return Ok(());
        }
        opt(model::diff_acceptance(&x, &out))
    };
    corpus(ctx, ALL_WORK, None, &f);
    corpus(
        ctx,
        &[
            W::Pieces("strings", STRPIECES, "#a ", "", 6, 7),
            W::Pieces("comments", COMPIECES, "#a ", "", 5, 6),
            W::Pieces("attrs", ATTPIECES, "#a ", "", 5, 6),
            W::Pieces("ns", NSPIECES, "", "", 5, 6),
        ],
        None,
        &f,
    );
    let n = ctx.n(60_000, 800_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, _, o) = tree_case(c, r, &|r, cfg| cfg.xmlns = r.one_in(2));
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        must_accept(&out)
    });
    let n = ctx.n(40_000, 600_000);
    ctx.each("walk_damaged", n, |c, _, r| {
        let text = walk(r, 40);
        let toks: Vec<&str> = text.split_inclusive([' ', '\n']).collect();
        // drop, repeat, swap or change one token
        let mut v: Vec<String> = toks.iter().map(|s| s.to_string()).collect();
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => {
                let t = v[i].clone();
                v.insert(i, t);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => v[i].insert(0, '#'),
            _ => v.insert(i, "x=1 ".into()),
        }
        let text = v.concat();
        c.input.push_str(&text);
        f(c, &text, &Opts::default())
    });
}

//a C06
const ATTRS: Aspects = Aspects {
    uri: false,
    span: false,
    lc: false,
    attrs: true,
    content: false,
    comments: false,
};

pub fn c06(ctx: &mut Ctx) {
    let starts = |e: &[Ev]| only(e, |k| matches!(k, EvKind::Start(..)));
    let n = ctx.n(100_000, 1_500_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, evs, o) = tree_case(c, r, &|r, cfg| {
            cfg.elems = 1 + r.below(5);
            cfg.max_attrs = *r.pick(&[1, 2, 4, 20, 300]);
            cfg.xmlns = r.one_in(3);
        });
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        must_accept(&out)?;
        for e in &out.evs {
            if let EvKind::Start(_, a) = &e.k {
                c.max("attributes", a.len() as u64);
                c.add("attributes_seen", a.len() as u64);
            }
        }
        opt(model::diff_lists(&starts(&evs), &starts(&out.evs), &ATTRS, 0, true))
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        let out = run::read_lc(text, o);
        c.note(text, &out);
        not_dead(&out)?;
        let a = starts(&x.evs);
        let b = starts(&out.evs);
        // compare what both delivered: acceptance is another property's business
        let k = a.len().min(b.len());
        if x.accepted() {
            must_accept(&out)?;
            opt(model::diff_lists(&a, &b, &ATTRS, 0, true))?;
        } else if x.errs.iter().all(|e| e.kind != "MarkupError/UnmappedPrefix") {
            opt(model::diff_lists(&a[..k], &b[..k], &ATTRS, 0, true))?;
        }
        Ok(())
    };
    corpus(
        ctx,
        &[
            W::Pieces("attrs", ATTPIECES, "#a ", " ##b y='2' z=3", 6, 7),
            W::Pieces("attrs_end", ATTPIECES, "#a x=", "", 5, 6),
            W::Any(60_000, 1_000_000),
            W::Pumped(2_000, 20_000),
            W::Inserted,
            W::NearMiss(30_000, 400_000),
            W::Sized(&[
                "attr_name", "prefix_name", "attr_count_same", "attr_count_distinct",
                "attr_value_q", "attr_value_u", "attr_value_wide", "names_distinct",
                "siblings", "spaces", "newlines", "ns_decls",
            ]),
        ],
        None,
        &f,
    );
    // every character in a value: first, in the middle and last, quoted or not
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("every_char", n, |c, i, _| {
        let Some(ch) = char::from_u32(i as u32) else {
            return Ok(());
        };
        let text = match i % 3 {
            _ if ch == '\'' || ch == '"' || ch.is_whitespace() || i < 0x250 => format!(
                "#a k=v{ch} l='{ch}' m=\"x{ch}y\" n=v{ch}w o={ch} ##b p={ch}{ch}x q={ch}"
            ),
            0 => format!("#a k={ch} l='{ch}x' m=1"),
            1 => format!("#a k=x{ch}y l='x{ch}y' m=1"),
            _ => format!("#a k=x{ch} l=\"x{ch}\" m=1"),
        };
        c.input.push_str(&text);
        f(c, &text, &Opts::default())?;
        if ch.is_whitespace() || i < 0x250 {
            for text in [
                format!("#a k=v{ch}l=1 m=2"),
                format!("#a k={ch}v m=2"),
                format!("#a k=vw{ch}\nm=2"),
                format!("#a k='{ch}' m=2"),
                format!("#a k=v m{ch}=2"),
                format!("#a k={ch}"),
            ] {
                c.input.clear();
                c.input.push_str(&text);
                f(c, &text, &Opts::default())?;
            }
        }
        Ok(())
    });
    // long lists of attributes with all kinds of values
    let n = ctx.n(600, 8000);
    ctx.each("long_lists", n, |c, i, r| {
        let k = (i as usize * 7) % 1500;
        let d = c.dict.clone();
        let mut text = String::from("#a ");
        let mut want = vec![];
        for _ in 0..k {
            let nm = gen::name(r, &d);
            let (v, q) = match r.below(3) {
                0 => (gen::data_with(r, &d, 8, |c| c != '"' && c != '\n'), "\""),
                1 => (gen::data_with(r, &d, 8, |c| c != '\'' && c != '\n'), "'"),
                _ => (
                    format!("v{}", gen::data_with(r, &d, 8, |c| !c.is_whitespace())),
                    "",
                ),
            };
            text.push_str(&format!("{}={}{}{}", nm, q, v, q));
            if q.is_empty() || r.one_in(2) {
                text.push(' ');
            }
            want.push((nm, v));
        }
        c.input.push_str(&text);
        let out = run::read_lc(&text, &Opts::default());
        c.note(&text, &out);
        must_accept(&out)?;
        let EvKind::Start(_, got) = &out.evs[1].k else {
            return Err(format!("event 1 is {:?}", out.evs[1]));
        };
        c.max("attributes", got.len() as u64);
        let got: Vec<(String, String)> = got
            .iter()
            .map(|(q, v)| (q.name.clone(), v.clone()))
            .collect();
        for (j, (a, b)) in want.iter().zip(&got).enumerate() {
            if a != b {
                return Err(format!("attribute {}: expected {:?} but got {:?}", j, a, b));
            }
        }
        if want.len() != got.len() {
            return Err(format!("{} attributes instead of {}", got.len(), want.len()));
        }
        Ok(())
    });
}

//a C07
const NAMES: Aspects = Aspects {
    uri: true,
    span: false,
    lc: false,
    attrs: true,
    content: false,
    comments: false,
};

pub fn c07(ctx: &mut Ctx) {
    let elems = |e: &[Ev]| only(e, |k| matches!(k, EvKind::Start(..) | EvKind::End(_)));
    let premaps = |r: &mut Rng| -> Vec<(String, String)> {
        (0..r.below(3))
            .map(|_| {
                (
                    r.pick(&["p", "q", "zz", "", "xmlnsx", "P"]).to_string(),
                    r.pick(&["pre1", "pre2", "http://a", "", " pre1", "pre1 ", "\u{e9}\n'\""])
                        .to_string(),
                )
            })
            .collect()
    };
    let n = ctx.n(100_000, 1_500_000);
    ctx.each("trees", n, |c, _, r| {
        let pm = if r.one_in(3) { premaps(r) } else { vec![] };
        let (_, text, evs, o) = tree_case(c, r, &|r, cfg| {
            cfg.xmlns = !r.one_in(8);
            cfg.premap = pm.clone();
            cfg.strings = r.one_in(4);
            cfg.data = 5;
            cfg.max_attrs = 4;
        });
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        must_accept(&out)?;
        for e in &out.evs {
            if let EvKind::Start(q, a) = &e.k {
                c.add("names_with_uri", (!q.uri.is_empty()) as u64);
                c.add(
                    "attributes_with_uri",
                    a.iter().filter(|(q, _)| !q.uri.is_empty()).count() as u64,
                );
            }
        }
        opt(model::diff_lists(&elems(&evs), &elems(&out.evs), &NAMES, 0, true))
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        if dup_decl(text) {
            return Ok(());
        }
        let out = run::read_lc(text, o);
        c.note(text, &out);
        not_dead(&out)?;
        let unmapped = x
            .errs
            .iter()
            .any(|e| e.kind == "MarkupError/UnmappedPrefix");
        let got_unmapped = matches!(&out.end, End::Err(e) if e.kind == "MarkupError/UnmappedPrefix");
        if x.accepted() {
            must_accept(&out)?;
        }
        if unmapped && x.errs.len() == 1 && !got_unmapped {
            return Err(format!(
                "expected an unmapped prefix {:?} but got {:?}",
                x.errs, out.end
            ));
        }
        if got_unmapped && !unmapped {
            return Err(format!(
                "got {:?} though every prefix is mapped (expected {:?})",
                out.end, x.errs
            ));
        }
        if unmapped {
            c.count("unmapped_prefix_cases");
        }
        let a = elems(&x.evs);
        let b = elems(&out.evs);
        let k = a.len().min(b.len());
        if x.accepted() {
            opt(model::diff_lists(&a, &b, &NAMES, 0, true))
        } else {
            opt(model::diff_lists(&a[..k], &b[..k], &NAMES, 0, true))
        }
    };
    corpus(
        ctx,
        &[
            W::Pieces("ns", NSPIECES, "", "", 6, 7),
            W::Pieces("ns_odd", NSODD, "#a ", "", 5, 6),
            W::Pieces("ns_in", NSPIECES, "#a{ xmlns:p='o' xmlns='e' ", " #p:z #a}", 5, 6),
            W::Sized(&[
                "ns_decls", "ns_nest", "ns_box_nest", "ns_siblings", "prefix_name", "siblings",
                "box_depth",
            ]),
        ],
        None,
        &f,
    );
    corpus(
        ctx,
        &[
            W::Pieces("tokens_ns", NSPIECES, "", "", 4, 5),
            W::Pieces("tokens_odd", NSODD, "#a ", "", 4, 5),
            W::Any(40_000, 600_000),
        ],
        Some(false),
        &f,
    );
    corpus(
        ctx,
        &[W::Soup(60_000, 1_000_000), W::Pumped(3_000, 30_000)],
        Some(true),
        &f,
    );
    // documents of namespace pieces, longer
    let n = ctx.n(100_000, 1_500_000);
    ctx.each("ns_soup", n, |c, _, r| {
        let mut text = String::from("#a{ ");
        let odd = r.one_in(3);
        for _ in 0..r.below(25) {
            text.push_str(if odd && r.one_in(2) {
                *r.pick(NSODD)
            } else {
                *r.pick(NSPIECES)
            });
        }
        c.input.push_str(&text);
        let mut o = opts(r.below(8) > 0);
        if r.one_in(4) {
            o.premap = premaps(r);
        }
        f(c, &text, &o)
    });
    // a namespace kept over many documents must not leak declarations
    let n = ctx.n(6000, 80_000);
    ctx.each("leak", n, |c, _, r| {
        let mut namespace = Namespace::new(true);
        let mut ns = NamespaceStack::new(&mut namespace);
        for _ in 0..6 {
            let mut text = String::from("#a{ ");
            for _ in 0..r.below(12) {
                text.push_str(*r.pick(NSPIECES));
            }
            if r.one_in(2) {
                text.push_str(" #a}");
            }
            if dup_decl(&text) {
                continue;
            }
            c.input = text.clone();
            let o = opts(true);
            let x = model::read(&text, &o);
            let out = run::read_on::<LC>(&mut ns, &text, &o, Which::Plain);
            c.note(&text, &out);
            not_dead(&out)?;
            if !x.accepted() {
                // frames of a refused document stay: the stack is spent
                break;
            }
            must_accept(&out)?;
            opt(model::diff_lists(&elems(&x.evs), &elems(&out.evs), &NAMES, 0, true))?;
        }
        Ok(())
    });
}

/// Does some element declare a prefix twice, or redefine the xmlns prefix? XML forbids
/// both and the documentation says nothing, so these are left out.
pub fn dup_decl(text: &str) -> bool {
    let (toks, _) = model::tokens(text);
    let mut seen: Vec<String> = vec![];
    for (t, _, _) in &toks {
        match t {
            model::Tok::Attr { prefix, name, .. } => {
                let d = if prefix.is_empty() && name == "xmlns" {
                    String::new()
                } else if prefix == "xmlns" {
                    name.clone()
                } else {
                    continue;
                };
                if d == "xmlns" || seen.contains(&d) {
                    return true;
                }
                seen.push(d);
            }
            _ => seen.clear(),
        }
    }
    false
}

//a C08
pub fn c08(ctx: &mut Ctx) {
    const A: Aspects = Aspects {
        uri: false,
        span: false,
        lc: false,
        attrs: false,
        content: true,
        comments: false,
    };
    let strings = |e: &[Ev]| only(e, |k| matches!(k, EvKind::Content(..)));
    let n = ctx.n(120_000, 1_500_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, evs, o) = tree_case(c, r, &|r, cfg| {
            cfg.max_attrs = 1;
            cfg.comments = r.one_in(3);
            cfg.data = *r.pick(&[3, 12, 60, 300]);
        });
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        must_accept(&out)?;
        let s = strings(&out.evs);
        c.add("strings_seen", s.len() as u64);
        opt(model::diff_lists(&strings(&evs), &s, &A, 0, true))
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        let out = run::read_lc(text, o);
        c.note(text, &out);
        not_dead(&out)?;
        let a = strings(&x.evs);
        let b = strings(&out.evs);
        c.add("strings_seen", b.len() as u64);
        if x.accepted() {
            must_accept(&out)?;
            opt(model::diff_lists(&a, &b, &A, 0, true))
        } else {
            if out.end == End::Done {
                let lexical = matches!(
                    x.errs[0].kind,
                    "UnexpectedCharacter" | "ExpectedTagName" | "ExpectedEquals" | "UnexpectedEOF"
                );
                if lexical {
                    return Err(format!(
                        "accepted, but should be refused with {:?}",
                        x.errs[0]
                    ));
                }
            }
            let k = a.len().min(b.len());
            opt(model::diff_lists(&a[..k], &b[..k], &A, 0, true))
        }
    };
    corpus(
        ctx,
        &[
            W::Pieces("strings", STRPIECES, "#a ", "", 7, 8),
            W::Pieces("strings_in", STRPIECES, "#a ##\"", "\"## ##b", 6, 7),
            W::Pieces("strings_three", STRPIECES, "#a r###'", "'### 'z'", 5, 7),
            W::Any(40_000, 600_000),
            W::Inserted,
            W::NearMiss(30_000, 400_000),
            W::Sized(&[
                "string", "string_wide", "string_lines", "string_hashes", "string_near_miss",
                "string_many_quotes", "strings", "after_box",
            ]),
        ],
        None,
        &f,
    );
    // each number of hashes with each kind of near miss inside
    let n = ctx.n(40_000, 400_000);
    ctx.each("hashes", n, |c, i, r| {
        let h = (i % 150) as usize;
        let q = if r.one_in(2) { '"' } else { '\'' };
        let raw = r.one_in(2);
        let mut data = String::new();
        for _ in 0..r.below(6) {
            match r.below(5) {
                0 => {
                    data.push(q);
                    data.push_str(&"#".repeat(r.below(h + 1)));
                }
                1 => {
                    data.push(if q == '"' { '\'' } else { '"' });
                    data.push_str(&"#".repeat(h + r.below(3)));
                }
                2 => data.push_str(&"#".repeat(r.below(h + 3))),
                3 => data.push('\n'),
                _ => data.push(gen::any_char(r)),
            }
        }
        let hs = "#".repeat(h);
        let stop = format!("{}{}", q, hs);
        while let Some(i) = data.find(&stop) {
            data.remove(i);
        }
        if h == 0 {
            data = data.replace('\n', "");
        }
        let text = format!(
            "#a {}{}{}{}{}{} ##b",
            if raw { "r" } else { "" },
            hs,
            q,
            data,
            q,
            hs
        );
        c.input.push_str(&text);
        let out = run::read_lc(&text, &Opts::default());
        c.note(&text, &out);
        must_accept(&out)?;
        let want = EvKind::Content(if raw { run::CKind::Raw } else { run::CKind::Int }, data);
        if out.evs[2].k != want {
            return Err(format!("expected {:?} but got {:?}", want, out.evs[2].k));
        }
        Ok(())
    });
    // every character inside a string of each style
    let styles: &[(&str, &str, bool)] = &[
        ("\"", "\"", false),
        ("'", "'", false),
        ("r\"", "\"", false),
        ("#\"", "\"#", true),
        ("r##'", "'##", true),
    ];
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("every_char", n, |c, i, _| {
        let Some(ch) = char::from_u32(i as u32) else {
            return Ok(());
        };
        for (k, (a, b, nl)) in styles.iter().enumerate() {
            if !c.thorough && i > 0x3000 && k % 2 == (i % 2) as usize {
                continue;
            }
            let data = format!("x{}y", ch);
            if (ch == '\n' && !nl) || (ch == a.chars().last().unwrap() && !nl) {
                continue;
            }
            let text = format!("#a {}{}{} ##b", a, data, b);
            c.input = text.clone();
            let out = run::read_lc(&text, &Opts::default());
            must_accept(&out)?;
            let kind = if a.starts_with('r') {
                run::CKind::Raw
            } else {
                run::CKind::Int
            };
            let want = EvKind::Content(kind, data);
            if out.evs[2].k != want {
                return Err(format!("expected {:?} but got {:?}", want, out.evs[2].k));
            }
            c.count("characters_in_strings");
        }
        Ok(())
    });
}

//a C09
pub fn c09(ctx: &mut Ctx) {
    const A: Aspects = Aspects {
        uri: false,
        span: false,
        lc: false,
        attrs: false,
        content: false,
        comments: true,
    };
    // all events are compared: a comment must not swallow what follows it
    let n = ctx.n(120_000, 1_500_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, evs, o) = tree_case(c, r, &|r, cfg| {
            cfg.max_attrs = 1;
            cfg.strings = r.one_in(3);
            cfg.data = *r.pick(&[0, 3, 12, 60]);
        });
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        must_accept(&out)?;
        for e in &out.evs {
            if let EvKind::Comment(_, l) = &e.k {
                c.count("comments_seen");
                c.max("comment_lines", l.len() as u64);
            }
        }
        opt(model::diff_lists(&evs, &out.evs, &A, 0, true))
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        let out = run::read_lc(text, o);
        c.note(text, &out);
        not_dead(&out)?;
        if x.accepted() {
            must_accept(&out)?;
            opt(model::diff_events(&x, &out, &A))
        } else {
            let com = |e: &[Ev]| only(e, |k| matches!(k, EvKind::Comment(..)));
            let (a, b) = (com(&x.evs), com(&out.evs));
            let k = a.len().min(b.len());
            opt(model::diff_lists(&a[..k], &b[..k], &A, 0, true))
        }
    };
    corpus(
        ctx,
        &[
            W::Pieces("comments", COMPIECES, "#a ", "", 6, 7),
            W::Pieces("comments_first", COMPIECES, ";", "#a ", 5, 6),
            W::Pieces("comments_last", COMPIECES, "#a{ #a} ;x", "", 5, 6),
            W::Pieces("comments_lines", &[";", "\n", " ", "x"], "#a\n;", "\n##b", 8, 9),
            W::Any(40_000, 600_000),
            W::Inserted,
            W::NearMiss(30_000, 400_000),
            W::Sized(&[
                "comment_line", "comment_wide", "comment_lines", "comment_blank_lines",
                "comments", "comment_indent", "leading_lines",
            ]),
            W::Any(40_000, 600_000),
            W::Pumped(2_000, 20_000),
        ],
        None,
        &f,
    );
    // blocks of lines, at the start, in the middle and at the end
    let n = ctx.n(40_000, 400_000);
    let d = ctx.dict.clone();
    ctx.each("blocks", n, |c, _, r| {
        let mut text = String::new();
        let k = 1 + r.skewed(40);
        let lines: Vec<String> = (0..k)
            .map(|_| gen::data_with(r, &d, 20, |c| c != '\n'))
            .collect();
        let place = r.below(3);
        if place > 0 {
            text.push_str("#a\n");
        }
        let at = text.len();
        for (i, l) in lines.iter().enumerate() {
            if i > 0 {
                text.push('\n');
                text.push_str(*r.pick(&["", "", " ", "\t", "   ", "\u{a0}", "\r"]));
            }
            text.push(';');
            text.push_str(l);
        }
        let end = match place {
            0 => "\n#a",
            1 => *r.pick(&["\n##b", "\n\n;z\n", "\n \"s\"", "\n\"s\""]),
            _ => *r.pick(&["", "\n", "\n \n"]),
        };
        text.push_str(end);
        c.input.push_str(&text);
        let out = run::read_lc(&text, &Opts::default());
        c.note(&text, &out);
        must_accept(&out)?;
        let lengths: Vec<usize> = lines.iter().map(|l| l.len()).collect();
        let want = EvKind::Comment(lines.join("\n"), lengths);
        let got = &out.evs[if place == 0 { 1 } else { 2 }];
        if got.k != want {
            return Err(format!("expected {:?} but got {:?}", want, got.k));
        }
        if got.s.ofs != at {
            return Err(format!("comment at {} instead of {}", got.s.ofs, at));
        }
        let n = out.evs.len();
        let expect_n = match (place, end) {
            (0, _) => 5,
            (1, "\n##b") => 7,
            (1, _) => 6,
            _ => 5,
        };
        if n != expect_n {
            return Err(format!("{} events instead of {}", n, expect_n));
        }
        Ok(())
    });
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("every_char", n, |c, i, _| {
        let Some(ch) = char::from_u32(i as u32) else {
            return Ok(());
        };
        if ch == '\n' {
            return Ok(());
        }
        let forms = [
            (format!("#a ;{}\n##b", ch), format!("{}", ch), 7),
            (format!("#a ;x{}y", ch), format!("x{}y", ch), 5),
            (format!("#a ;{}", ch), format!("{}", ch), 5),
        ];
        for (k, (text, data, n)) in forms.iter().enumerate() {
            if !c.thorough && i > 0x3000 && k != (i % 3) as usize {
                continue;
            }
            c.input = text.clone();
            let out = run::read_lc(text, &Opts::default());
            must_accept(&out)?;
            let want = EvKind::Comment(data.clone(), vec![data.len()]);
            if out.evs[2].k != want || out.evs.len() != *n {
                return Err(format!("expected {:?} but got {:?}", want, out.evs));
            }
            c.count("characters_in_comments");
        }
        Ok(())
    });
}

//a C10, C11
const SPANS: Aspects = Aspects {
    uri: false,
    span: true,
    lc: false,
    attrs: false,
    content: false,
    comments: false,
};

fn ordered(text: &str, evs: &[Ev]) -> Result<(), String> {
    let mut last = 0;
    for e in evs {
        if e.s.ofs < last || e.e.ofs < e.s.ofs || e.e.ofs > text.len() {
            return Err(format!(
                "span {}..{} of {:?} runs backwards or overlaps (last ended at {})",
                e.s.ofs, e.e.ofs, e.k, last
            ));
        }
        last = e.e.ofs;
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    let n = ctx.n(100_000, 1_500_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, evs, o) = tree_case(c, r, &|r, cfg| {
            cfg.max_attrs = 3;
            cfg.xmlns = r.one_in(4);
        });
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        must_accept(&out)?;
        ordered(&text, &out.evs)?;
        c.add("spans_checked", out.evs.len() as u64);
        opt(model::diff_lists(&evs, &out.evs, &SPANS, 0, true))?;
        // other position types locate the same bytes
        let a = run::read::<usize>(&text, &o, Which::Plain);
        let b = run::read::<StreamCharPos<()>>(&text, &o, Which::Plain);
        opt(model::diff_lists(&evs, &a.evs, &SPANS, 0, true))?;
        opt(model::diff_lists(&evs, &b.evs, &SPANS, 0, true))
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let x = model::read(text, o);
        let out = run::read_lc(text, o);
        c.note(text, &out);
        not_dead(&out)?;
        ordered(text, &out.evs)?;
        c.add("spans_checked", out.evs.len() as u64);
        // the events both have, in order; what is delivered is another property's business
        let k = x.evs.len().min(out.evs.len());
        for i in 0..k {
            if std::mem::discriminant(&x.evs[i].k) != std::mem::discriminant(&out.evs[i].k) {
                return Ok(());
            }
        }
        opt(model::diff_lists(&x.evs[..k], &out.evs[..k], &SPANS, 0, true))
    };
    corpus(ctx, ALL_WORK, None, &f);
    corpus(
        ctx,
        &[
            W::Pieces("strings", STRPIECES, "#a ", "", 6, 7),
            W::Pieces("comments", COMPIECES, "#a ", "", 5, 6),
            W::Pieces("attrs", ATTPIECES, "#a ", "", 5, 6),
        ],
        None,
        &f,
    );
}

fn lc_right(text: &str, out: &Outcome) -> Result<(), String> {
    let lines = model::Lines::new(text);
    let mut bad = None;
    let mut look = |p: &run::Pos, what: &dyn Fn() -> String| {
        if bad.is_none() && p.ofs <= text.len() && text.is_char_boundary(p.ofs) {
            let w = lines.pos(text, p.ofs);
            if w != *p {
                bad = Some(format!(
                    "byte {} is line {} column {} but line {} column {} was given for {}",
                    p.ofs,
                    w.line,
                    w.col,
                    p.line,
                    p.col,
                    what()
                ));
            }
        }
    };
    for e in &out.evs {
        look(&e.s, &|| format!("the start of {:?}", e.k));
        look(&e.e, &|| format!("the end of {:?}", e.k));
    }
    if let End::Err(e) = &out.end {
        if let Some((s, en)) = &e.span {
            look(s, &|| format!("the start of {:?}", e));
            look(en, &|| format!("the end of {:?}", e));
        }
    }
    opt(bad)
}

pub fn c11(ctx: &mut Ctx) {
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let out = run::read_lc(text, o);
        c.note(text, &out);
        c.add("positions_checked", 2 * out.evs.len() as u64);
        let last = out.evs.last().map(|e| e.e.line).unwrap_or(0);
        c.max("line", last as u64);
        not_dead(&out)?;
        lc_right(text, &out)?;
        if text.len() < 400 {
            let alt = run::read::<LC>(text, o, Which::Alt);
            lc_right(text, &alt)?;
        }
        Ok(())
    };
    corpus(ctx, ALL_WORK, None, &f);
    corpus(
        ctx,
        &[
            W::Pieces("strings", STRPIECES, "#a\n ", " %", 6, 7),
            W::Pieces("comments", COMPIECES, "#a\n ", " %", 6, 7),
            W::Pieces("space", &["\n", "\r", " ", "\u{e9}=1 ", "##b ", "\u{2028}"], "#a ", "%", 6, 7),
        ],
        None,
        &f,
    );
    let n = ctx.n(80_000, 1_000_000);
    ctx.each("trees", n, |c, _, r| {
        let (_, text, evs, o) = tree_case(c, r, &|r, cfg| cfg.xmlns = r.one_in(4));
        let out = run::read_lc(&text, &o);
        c.note(&text, &out);
        c.add("positions_checked", 2 * out.evs.len() as u64);
        not_dead(&out)?;
        lc_right(&text, &out)?;
        // the writer counted lines and columns itself
        for (a, b) in evs.iter().zip(&out.evs) {
            for (p, q) in [(a.s, b.s), (a.e, b.e)] {
                if p.ofs == q.ofs && p != q {
                    return Err(format!("written at {:?} but read at {:?}", p, q));
                }
            }
        }
        Ok(())
    });
}

//a C12
pub fn c12(ctx: &mut Ctx) {
    const A: Aspects = Aspects {
        uri: false,
        span: false,
        lc: false,
        attrs: true,
        content: true,
        comments: true,
    };
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        if o.xmlns && dup_decl(text) {
            return Ok(());
        }
        let x = model::read(text, o);
        if x.accepted() {
            // only refused texts are in question here
            c.count("skipped_accepted");
            return Ok(());
        }
        let out = run::read_lc(text, o);
        c.note(text, &out);
        not_dead(&out)?;
        if out.end == End::Done {
            return Err(format!("accepted, but expected {:?}", x.errs[0]));
        }
        opt(model::diff_events(&x, &out, &A))?;
        opt(model::diff_error(&x, &out, text, false))?;
        if let End::Err(e) = &out.end {
            if e.display.is_empty() {
                return Err("the error has no text".into());
            }
        }
        Ok(())
    };
    corpus(ctx, ALL_WORK, None, &f);
    corpus(
        ctx,
        &[
            W::Pieces("strings", STRPIECES, "#a ", "", 6, 7),
            W::Pieces("comments", COMPIECES, "#a ", "", 5, 6),
            W::Pieces("attrs", ATTPIECES, "#a ", "", 6, 7),
            W::Pieces("ns", NSPIECES, "", "", 5, 6),
        ],
        None,
        &f,
    );
    // one mistake placed in a valid document
    let n = ctx.n(120_000, 1_500_000);
    ctx.each("one_mistake", n, |c, _, r| {
        let (_, text, _, o) = tree_case(c, r, &|r, cfg| {
            cfg.elems = 1 + r.below(12);
            cfg.xmlns = r.one_in(4);
            cfg.data = 6;
        });
        let (toks, _) = model::tokens(&text);
        if toks.is_empty() {
            return Ok(());
        }
        let (_, s, e) = toks[r.below(toks.len())];
        let at = if r.one_in(2) { s } else { e };
        let bad = match r.below(14) {
            0 => " % ".to_string(),
            1 => format!(" {} ", gen::any_char(r)),
            2 => " #####################z ".to_string(),
            3 => " #zz} ".to_string(),
            4 => " stray='1' ".to_string(),
            5 => " nope:a=1 ".to_string(),
            6 => " ##nope:b ".to_string(),
            7 => " \"open\n ".to_string(),
            8 => " # ".to_string(),
            9 => " k ".to_string(),
            10 => " k= ".to_string(),
            11 => " #a\"s\" ".to_string(),
            12 => " #zz ".to_string(),
            _ => format!(" {}q{{ ", "#".repeat(1 + r.below(4))),
        };
        let text = format!("{}{}{}", &text[..at], bad, &text[at..]);
        c.input = text.clone();
        f(c, &text, &o)
    });
    // every character where none may stand, and as what follows a tag or an attribute name
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("every_char", n, |c, i, _| {
        let Some(ch) = char::from_u32(i as u32) else {
            return Ok(());
        };
        let forms = [
            format!("#a {}", ch),
            format!("#a x{}", ch),
            format!("#a{{{}", ch),
        ];
        for (k, text) in forms.iter().enumerate() {
            if !c.thorough && i > 0x3000 && k != (i % 3) as usize {
                continue;
            }
            c.input = text.clone();
            f(c, text, &Opts::default())?;
        }
        Ok(())
    });
}

//a C19
fn same(a: &Outcome, b: &Outcome, what: &str) -> Result<(), String> {
    let pick = |o: &Outcome| -> Vec<(EvKind, usize, usize)> {
        o.evs
            .iter()
            .map(|e| (e.k.clone(), e.s.ofs, e.e.ofs))
            .collect()
    };
    if pick(a) != pick(b) {
        return Err(format!("{}: events differ: {} against {}", what, a.brief(), b.brief()));
    }
    let end = |o: &Outcome| match &o.end {
        End::Err(e) => format!(
            "{} {} {} {:?}",
            e.kind,
            e.detail,
            e.display,
            e.span.map(|(s, e)| (s.ofs, e.ofs))
        ),
        x => format!("{:?}", x),
    };
    if end(a) != end(b) {
        return Err(format!("{}: ends differ: {} against {}", what, end(a), end(b)));
    }
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let mut o = o.clone();
        o.maps = true;
        let a = run::read_lc(text, &o);
        c.note(text, &a);
        same(&a, &run::read_lc(text, &o), "read again")?;
        same(&a, &run::read::<usize>(text, &o, Which::Plain), "byte positions")?;
        same(
            &a,
            &run::read::<StreamCharPos<()>>(text, &o, Which::Plain),
            "empty positions",
        )?;
        same(
            &a,
            &run::read::<StreamCharPos<usize>>(text, &o, Which::Alt),
            "another lexer",
        )?;
        same(&a, &run::read::<LC>(text, &o, Which::Alt), "another lexer")?;
        c.add("paired_reads", 5);
        if a.end == End::Done && a.maps_before != a.maps_after {
            return Err(format!(
                "mappings changed from {:?} to {:?}",
                a.maps_before, a.maps_after
            ));
        }
        Ok(())
    };
    corpus(
        ctx,
        &[
            W::Chars(4, 5),
            W::Pieces("tokens", TOKENS, "", "", 5, 6),
            W::Pieces("ns", NSPIECES, "", "", 4, 5),
            W::Any(40_000, 600_000),
            W::Soup(40_000, 600_000),
            W::Pumped(2_000, 20_000),
            W::Sized(&[
                "tag_name", "attr_count_same", "attr_count_distinct", "string", "siblings",
                "depth", "box_depth", "newlines", "comment_lines", "ns_decls", "ns_nest",
                "names_distinct", "string_hashes",
            ]),
        ],
        None,
        &f,
    );
    // many documents with one namespace, one after another, against fresh reads
    let n = ctx.n(3000, 40_000);
    let d = ctx.dict.clone();
    ctx.each("history", n, |c, _, r| {
        let xmlns = r.one_in(2);
        let mut namespace = Namespace::new(xmlns);
        let mut o = opts(xmlns);
        o.maps = true;
        for k in 0..12 {
            let text = if r.one_in(2) {
                gen::any_text(r, &d, xmlns)
            } else {
                let cfg = TreeCfg {
                    elems: 1 + r.below(8),
                    xmlns,
                    data: 6,
                    ..TreeCfg::default()
                };
                let doc = TreeGen::new(r, &d, cfg).doc();
                gen::write_doc(r, &doc, 100).0
            };
            c.input = text.clone();
            let used = run::read_in::<LC>(&mut namespace, &text, &o, Which::Plain);
            let fresh = run::read_lc(&text, &o);
            c.note(&text, &used);
            c.add("paired_reads", 1);
            same(&fresh, &used, &format!("document {} with a used namespace", k))?;
            if used.end == End::Done && used.maps_before != used.maps_after {
                return Err(format!(
                    "mappings changed from {:?} to {:?}",
                    used.maps_before, used.maps_after
                ));
            }
        }
        Ok(())
    });
    // one stack for several documents that are accepted
    let n = ctx.n(3000, 40_000);
    ctx.each("one_stack", n, |c, _, r| {
        let mut namespace = Namespace::new(true);
        let mut ns = NamespaceStack::new(&mut namespace);
        let pm: Vec<(String, String)> = if r.one_in(2) {
            vec![("p".into(), "caller".into()), ("".into(), "def".into())]
        } else {
            vec![]
        };
        let mut o = opts(true);
        o.premap = pm.clone();
        run::setup_ns(&mut ns, &o);
        o.maps = true;
        let start = run::maps_of(&ns);
        for k in 0..8 {
            let cfg = TreeCfg {
                elems: 1 + r.below(8),
                xmlns: true,
                premap: pm.clone(),
                data: 6,
                ..TreeCfg::default()
            };
            let doc = TreeGen::new(r, &d, cfg).doc();
            let text = gen::write_doc(r, &doc, 100).0;
            c.input = text.clone();
            let fresh = run::read_lc(&text, &o);
            let used = run::read_on::<LC>(&mut ns, &text, &o, Which::Plain);
            same(&fresh, &used, &format!("document {} with a used stack", k))?;
            must_accept(&used)?;
            c.note(&text, &used);
            c.add("paired_reads", 1);
            let now = run::maps_of(&ns);
            if now != start {
                return Err(format!("mappings changed from {:?} to {:?}", start, now));
            }
        }
        Ok(())
    });
    // strings already interned, and unrelated mappings, make no difference
    let n = ctx.n(20_000, 300_000);
    ctx.each("interned", n, |c, _, r| {
        let xmlns = r.one_in(2);
        let text = gen::any_text(r, &d, xmlns);
        c.input.push_str(&text);
        let o = opts(xmlns);
        let mut o2 = o.clone();
        o2.prenames = (0..r.skewed(80)).map(|_| gen::name(r, &d)).collect();
        // prefixes no text of ours uses
        o2.premap = (0..r.skewed(20))
            .map(|i| (format!("unused-{}", i), format!("u{}", i % 3)))
            .collect();
        if text.contains("unused-") {
            return Ok(());
        }
        let a = run::read_lc(&text, &o);
        let b = run::read_lc(&text, &o2);
        c.note(&text, &a);
        c.add("paired_reads", 1);
        same(&a, &b, "with strings interned before")
    });
    // nor does how much was read before in the process
    ctx.each("long_run", 8, |c, i, _| {
        let unit = ["##b ", "##b{ ##b} ", "##b 's' ", "##b k=1 ", "##b ;c\n", "##b\n", "##p:b xmlns:p='u' ", "##b ###c "][i as usize];
        let text = format!("#a {}##z", unit.repeat(if c.mode == "miri" { 5 } else { 100_000 }));
        let o = opts(true);
        let want = run::digest(&text, &o);
        let times = if c.mode != "normal" { 2 } else if c.thorough { 600 } else { 175 };
        let start = std::time::Instant::now();
        for k in 0..times {
            if start.elapsed().as_secs() > if c.thorough { 150 } else { 45 } {
                c.count("long_run_cut_short");
                break;
            }
            let got = run::digest(&text, &o);
            if got != want {
                return Err(format!("read for the {}th time there are other events: {:?} and {:?}", k + 2, want, got));
            }
            c.count("long_reads");
        }
        Ok(())
    });
    // what many reads left unfinished makes no difference later
    ctx.each("unfinished", 8, |c, i, r| {
        let texts: Vec<String> = (0..40).map(|_| gen::any_text(r, &d, true)).collect();
        let o = opts(true);
        let before: Vec<Outcome> = texts.iter().map(|t| run::read_lc(t, &o)).collect();
        // about 1,200,000 of everything a read may not take back when it ends in an error
        let (k, times) = if c.mode == "miri" { (3, 3) } else { (400, 3000) };
        let text = match i {
            0 => format!("{}~", "#a{ ".repeat(k)),
            1 => "#a{ ".repeat(k),
            2 => format!("#a{{ {}#a", "#b{ #b} ".repeat(k)),
            3 => format!("#a {}~", "x=1 ".repeat(k)),
            4 => format!("#a {}p:q=1", "xmlns='u' ".repeat(k)),
            5 => format!("#a {}'", "'s' ".repeat(k)),
            6 => format!("{}", ";c\n\n".repeat(k)),
            _ => format!("#a{{ xmlns:p='u' {}#p:b{{ #q:c ", "#p:b xmlns='d' ".repeat(k)),
        };
        c.input = text.clone();
        let a = run::read_lc(&text, &o);
        for _ in 0..times {
            let b = run::read_lc(&text, &o);
            if a.end != b.end || a.evs.len() != b.evs.len() {
                return same(&a, &b, "read many times");
            }
        }
        for (t, b) in texts.iter().zip(&before) {
            c.input = t.clone();
            same(b, &run::read_lc(t, &o), "after many unfinished reads")?;
        }
        c.add("paired_reads", times as u64);
        Ok(())
    });
    // two readers taking turns
    let n = ctx.n(10_000, 120_000);
    ctx.each("interleaved", n, |c, _, r| {
        let k = 2 + r.below(3);
        let texts: Vec<String> = (0..k).map(|_| gen::any_text(r, &d, false)).collect();
        c.input = texts.join("\n----\n");
        let alone: Vec<Outcome> = texts
            .iter()
            .map(|t| run::read_lc(t, &Opts::default()))
            .collect();
        let together = interleave(&texts, r);
        for i in 0..k {
            c.note(&texts[i], &together[i]);
            same(&alone[i], &together[i], &format!("reader {} taking turns", i))?;
        }
        c.add("paired_reads", k as u64);
        Ok(())
    });
    // readers in threads
    let n = ctx.n(400, 5000);
    ctx.each("threads", n, |c, _, r| {
        let texts: Vec<String> = (0..24).map(|_| gen::any_text(r, &d, true)).collect();
        c.input = texts.join("\n----\n");
        let o = opts(true);
        let alone: Vec<Outcome> = texts.iter().map(|t| run::read_lc(t, &o)).collect();
        let (texts2, o2) = (&texts, &o);
        let all: Vec<Vec<Outcome>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    s.spawn(move || {
                        (0..texts2.len())
                            .map(|i| {
                                let j = (i + t * 5) % texts2.len();
                                run::read_lc(&texts2[j], o2)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (t, outs) in all.iter().enumerate() {
            for (i, out) in outs.iter().enumerate() {
                let j = (i + t * 5) % texts.len();
                same(&alone[j], out, &format!("thread {}", t))?;
            }
        }
        c.add("threaded_reads", 4 * texts.len() as u64);
        c.sig(hash_bytes(texts.concat().as_bytes()));
        Ok(())
    });
}

/// Read several texts, one event from each in turn
fn interleave(texts: &[String], r: &mut Rng) -> Vec<Outcome> {
    use hml_rs::hml_reader::{parse_fns, Parser};
    use lexer_rs::{Lexer, LexerOfStr};
    let mut out: Vec<Outcome> = texts
        .iter()
        .map(|_| Outcome {
            evs: vec![],
            end: End::EventBudget,
            contract: None,
            steps: 0,
            after: vec![],
            maps_before: vec![],
            maps_after: vec![],
        })
        .collect();
    let lexers: Vec<_> = texts.iter().map(|t| LexerOfStr::new(t)).collect();
    let fns: Vec<_> = texts.iter().map(|_| parse_fns()).collect();
    let mut its: Vec<_> = lexers.iter().zip(&fns).map(|(l, f)| l.iter(f)).collect();
    let mut spaces: Vec<Namespace> = texts.iter().map(|_| Namespace::new(false)).collect();
    let mut stacks: Vec<NamespaceStack> = spaces.iter_mut().map(NamespaceStack::new).collect();
    let mut parsers: Vec<Parser<LC>> = texts.iter().map(|_| Parser::default()).collect();
    let mut live: Vec<usize> = (0..texts.len()).collect();
    let mut guard = 0;
    while !live.is_empty() && guard < 100_000 {
        guard += 1;
        let k = r.below(live.len());
        let i = live[k];
        match parsers[i].next_event(&mut stacks[i], || its[i].next()) {
            Ok(e) => {
                let done = e.is_end_document();
                out[i].evs.push(run::record(&stacks[i], &e));
                if done {
                    out[i].end = End::Done;
                    live.remove(k);
                }
            }
            Err(e) => {
                out[i].end = End::Err(run::err_info(&e));
                live.remove(k);
            }
        }
    }
    out
}

//a C20
const CTX20: &[&str] = &[
    "#@", "#@ ", "#a@", "#a@ ", "#a@b ", "#a:@ ", "#@:a ", "#a@:b ", "#a {@", "#a @=1", "#a b@=1",
    "#a b@", "#a b@c=1", "#a b:@=1", "#a @:b=1", "#a b=@", "#a b=x@y", "#a b='@'", "#a b='1'@c=2",
    "#a b=1@c=2", "#a \"@\"", "#a \"x\"@", "#a r@\"x\"", "#a #@x@#", ";@", "@;a", ";a\n@;b", "@#a",
    "#a{@", "#a{ #a}@", "#a{ #a@}", "#a @", "@", "#a 'x'@'y'",
];

pub fn c20(ctx: &mut Ctx) {
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("sweep", n, |c, i, _| {
        let Some(ch) = char::from_u32(i as u32) else {
            return Ok(());
        };
        let s = ch.to_string();
        let o = Opts::default();
        for (k, t) in CTX20.iter().enumerate() {
            // all characters in all contexts; above the BMP's busy part every other context
            if !c.thorough && i > 0x12000 && (k as u64 + i) % 4 != 0 {
                continue;
            }
            let text = t.replace('@', &s);
            c.input = text.clone();
            let x = model::read(&text, &o);
            let out = run::read_lc(&text, &o);
            not_dead(&out)?;
            opt(model::diff_acceptance(&x, &out))?;
            opt(model::diff_events(&x, &out, &model::NO_POS))?;
            opt(model::diff_error(&x, &out, &text, false))?;
            c.count("contexts_checked");
            if i < 0x3000 || i % 101 == 0 {
                c.note(&text, &out);
            }
        }
        if !c.thorough && i > 0x12000 && i % 4 != 0 {
            return Ok(());
        }
        // as a prefix, with the namespace declared
        let text = format!("#p{}:a xmlns:p{}='u' p{}:b=1", ch, ch, ch);
        c.input = text.clone();
        let o = opts(true);
        let x = model::read(&text, &o);
        let out = run::read_lc(&text, &o);
        not_dead(&out)?;
        opt(model::diff_acceptance(&x, &out))?;
        opt(model::diff_events(&x, &out, &model::NO_POS))?;
        c.count("contexts_checked");
        Ok(())
    });
    // pairs of characters from the edges of the classes
    let mut edge: Vec<char> = vec![];
    let class = |c: char| -> u32 {
        model::name_start(c) as u32
            + 2 * model::name_char(c) as u32
            + 4 * c.is_whitespace() as u32
    };
    let mut prev = None;
    for k in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(k) {
            let cl = class(ch);
            if prev.map(|(_, p)| p) != Some(cl) {
                if let Some((pc, _)) = prev {
                    edge.push(pc);
                }
                edge.push(ch);
            }
            prev = Some((ch, cl));
        }
    }
    edge.extend("#\"';:={}r".chars());
    edge.sort();
    edge.dedup();
    ctx.max("edge_characters", edge.len() as u64);
    let m = edge.len() as u64;
    ctx.each("edge_pairs", m * m, |c, i, _| {
        let (a, b) = (edge[(i / m) as usize], edge[(i % m) as usize]);
        let o = Opts::default();
        for t in ["#@ ", "#a @=1", "#a b@=1", "#n@ ", "@#a", "#a b=@ c=1", "#a:@ ", "#a;\n@;c"] {
            let text = t.replace('@', &format!("{}{}", a, b));
            c.input = text.clone();
            let x = model::read(&text, &o);
            let out = run::read_lc(&text, &o);
            not_dead(&out)?;
            opt(model::diff_acceptance(&x, &out))?;
            opt(model::diff_events(&x, &out, &model::NO_POS))?;
            opt(model::diff_error(&x, &out, &text, false))?;
            c.count("contexts_checked");
        }
        c.sig(mix(i));
        Ok(())
    });
    let f = |c: &mut Ctx, text: &str, o: &Opts| -> Result<(), String> {
        let asp = Aspects {
            uri: false,
            ..model::NO_POS
        };
        against_model(c, text, o, &asp, false).map(|_| ())
    };
    corpus(
        ctx,
        &[
            W::Chars(5, 5),
            W::Sized(&["tag_name", "tag_name_wide", "attr_name", "prefix_name", "wide_spaces"]),
        ],
        None,
        &f,
    );
    // what may come first after a prefix, and directly before its colon, of any length
    let mut firsts: Vec<char> = (0..0x80u32).filter_map(char::from_u32).collect();
    firsts.extend(edge.iter().filter(|c| **c as u32 >= 0x80));
    let m = firsts.len() as u64;
    ctx.each("around_colon", m * 40, |c, i, _| {
        let ch = firsts[(i % m) as usize];
        let k = 1 + (i / m) as usize;
        let p = "pqrstuvwxyzabcde".repeat(3)[..k].to_string();
        for text in [
            format!("#{p}:{ch}x xmlns:{p}='u' {p}:a=1"),
            format!("#{p}:x xmlns:{p}='u' {p}:{ch}=1 {p}:{ch}{p}=2"),
            format!("#{p}:{p}{ch} xmlns:{p}='u' {p}:{p}{ch}=1"),
            format!("#{p}:x{{ xmlns:{p}='u' ##{p}{ch}:{p} #{p}:x}}"),
            format!("#{p}:{ch}{{ xmlns:{p}='u' #{p}:{ch}}}"),
            format!("#a xmlns:{p}{ch}='u' {p}{ch}:{p}=1"),
        ] {
            c.input = text.clone();
            f(c, &text, &opts(true))?;
            c.count("contexts_checked");
        }
        Ok(())
    });
    // names of random characters from around the edges
    let n = ctx.n(100_000, 1_200_000);
    ctx.each("names", n, |c, _, r| {
        let mut name = String::new();
        for _ in 0..1 + r.skewed(30) {
            let ch = if r.one_in(3) {
                *r.pick(&edge)
            } else {
                gen::any_char(r)
            };
            if r.one_in(8) || model::name_char(ch) {
                name.push(ch);
            }
        }
        let text = match r.below(6) {
            0 => format!("#{} ", name),
            1 => format!("#a {}=1 ", name),
            2 => format!("#a{{ #{}{{ #{}}} #a}}", name, name),
            3 => format!("#{}:{} ", name, name),
            4 => format!("#pre:{name}{{ xmlns:pre='u' pre:{name}=1 #pre:{name}}}"),
            _ => format!("#p{name}:{name} xmlns:p{name}='u' p{name}:{name}=1 "),
        };
        c.input.push_str(&text);
        f(c, &text, &opts(text.contains("xmlns:")))
    });
}
