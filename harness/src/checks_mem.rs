//! C24: memory held while reading, and given back after it.

use crate::checks_reader::{corpus, W};
use crate::gen::{self, TreeCfg, TreeGen};
use crate::report::Ctx;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{setup_ns, Opts, LC};
use hml_rs::escape::{escape, Entities};
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::names::{Name, Namespace, NamespaceStack};
use hml_rs::HmlError;
use lexer_rs::{Lexer, LexerOfStr};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

//a Counting what this thread holds
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// The most held at once during a call, beyond what was held before it
fn peak_of(f: impl FnOnce()) -> i64 {
    let before = live();
    PEAK.with(|p| p.set(before));
    f();
    PEAK.with(|p| p.get()) - before
}

/// Everything taken during a call has to be given back by its end. Something made once and kept
/// is not held against it: only what goes on growing, however often the call is made
fn gives_back(mut f: impl FnMut()) -> Result<(), String> {
    let before = live();
    f();
    if live() == before {
        return Ok(());
    }
    let mut seen = vec![];
    for n in 1..=160 {
        f();
        if matches!(n, 20 | 40 | 80 | 160) {
            seen.push(live() - before);
        }
    }
    if seen.windows(2).all(|w| w[0] < w[1]) {
        return Err(format!(
            "memory is not given back: {:?} bytes more are held after 20, 40, 80 and 160 times",
            seen
        ));
    }
    Ok(())
}

//a Reading with nothing kept
/// Read a text, dropping each event, up to some number of events; the closure is called
/// after each
fn bare(text: &str, o: &Opts, most: usize, mut each: impl FnMut(usize)) -> (usize, bool) {
    let mut namespace = Namespace::new(o.xmlns);
    let mut ns = NamespaceStack::new(&mut namespace);
    setup_ns(&mut ns, o);
    let lexer: LexerOfStr<LC, _, HmlError<LC>> = LexerOfStr::new(text);
    let fns = parse_fns();
    let mut it = lexer.iter(&fns);
    let mut parser: Parser<LC> = Parser::default();
    for n in 0..most.min(3 * text.len() + 64) {
        match parser.next_event(&mut ns, || it.next()) {
            Ok(e) => {
                let done = e.is_end_document();
                drop(e);
                each(n);
                if done {
                    return (n + 1, true);
                }
            }
            Err(_) => return (n, false),
        }
    }
    (most, false)
}

/// Held at once: so many bytes for each byte of the text
const PER_BYTE: i64 = 4000;
const CONSTANT: i64 = 400_000;

fn c24_text(c: &mut Ctx, text: &str, o: &Opts) -> Result<(), String> {
    let mut n = (0, false);
    let peak = peak_of(|| n = bare(text, o, usize::MAX, |_| ()));
    c.max("bytes_held", peak as u64);
    if text.len() > 2000 {
        c.max("bytes_held_for_each_byte", peak as u64 / text.len() as u64);
    }
    c.count(if n.1 { "accepted" } else { "refused" });
    if n.0 > 2 {
        c.sig(mix(peak as u64 ^ mix(n.0 as u64) ^ mix(mix(text.len() as u64))));
    }
    c.sample(text, || format!("{} events, {} bytes at most", n.0, peak));
    if peak > PER_BYTE * text.len() as i64 + CONSTANT {
        return Err(format!(
            "{} bytes are held at once while reading a text of {} bytes",
            peak,
            text.len()
        ));
    }
    gives_back(|| {
        bare(text, o, usize::MAX, |_| ());
    })?;
    // and if the reading stops anywhere
    if text.len() < 2000 {
        let k = hash_bytes(text.as_bytes()) as usize % (n.0 + 1);
        gives_back(|| {
            bare(text, o, k, |_| ());
        })
        .map_err(|e| format!("reading stopped after {} events: {}", k, e))?;
        c.count("stopped_halfway");
    }
    Ok(())
}

/// Parts of documents that change nothing but the number of things read
const UNITS: &[(&str, &str, &str)] = &[
    ("#r\n", "##a\n", ""),
    ("#r\n", "##a{ ##a}\n", ""),
    ("#r\n", "##a{ #b #b} ##a}\n", ""),
    ("#r\n", "##a{ #b{ #c{ 'x' #c} #b} ##a}\n", ""),
    ("#r\n", "##a\n###b\n####c\n", ""),
    ("#r\n", "##a k='v' l=w\n", ""),
    ("#r\n", "##a 'text'\n", ""),
    ("#r\n", "##a \"\"\"text\n\"\"\"\n", ""),
    ("#r\n", "##a r#'text'#\n", ""),
    ("#r\n", "##a r##\"text\"##\n", ""),
    ("#r\n", "##a ;comment\n", ""),
    ("#r\n", "##a\n;comment\n;more\n\n", ""),
    ("#r\n", "'text' ", ""),
    ("#r\n", ";comment\n'text'\n", ""),
    ("#r\n", ";comment\n##a\n", ""),
    ("#r\n", "##a xmlns='u'\n", ""),
    ("#r\n", "##a xmlns:p='u'\n", ""),
    ("#r\n", "##p:a xmlns:p='u' p:k='v'\n", ""),
    ("#r\n", "##p:a{ xmlns:p='u' #p:b xmlns:p='v' xmlns:q='w' ##p:a}\n", ""),
    ("#r\n", "##p:a xmlns:p='u'\n##p:a xmlns:p='v'\n", ""),
    ("#r{ ", "#a ", "#r}"),
    ("#r{ ", "#a{ #a} ", "#r}"),
    ("#r{ ", "#a{ 'x' #b{ #c #b} ;z\n #a} ", "#r}"),
    ("#r{ ", "#a xmlns:p='u' #a ", "#r}"),
    ("#r{ #s{ #t{ ", "#a #a{ #a} 'x' ", "#t} #s} #r}"),
    ("#r xmlns:p='u'\n", "##p:a p:k='v'\n", ""),
    ("#r xmlns:p='u'\n", "##p:a{ 'x' ##p:a}\n", ""),
];

/// More of the same needs no more memory
fn c24_repeated(c: &mut Ctx, before: &str, unit: &str, after: &str, n: usize, o: &Opts) -> Result<(), String> {
    let text = format!("{}{}{}", before, unit.repeat(n), after);
    let mut one = 0;
    let k = 50.min(n);
    bare(&format!("{}{}{}", before, unit.repeat(k), after), o, usize::MAX, |i| one = i + 1);
    if one < k {
        // nothing that repeats is delivered
        return Ok(());
    }
    let total = one * (n / k);
    let (mut half, mut end) = (None, None);
    let (got, done) = bare(&text, o, usize::MAX, |i| {
        if i == total / 2 {
            half = Some(live());
        }
        // the last event before the ends of the elements around it
        if i + 40 < total {
            end = Some(live());
        }
    });
    if !done {
        return Ok(());
    }
    if let (Some(h), Some(e)) = (half, end) {
        c.count("repeated_units");
        c.sig(mix(hash_bytes(unit.as_bytes())));
        c.sample(unit, || format!("{} events; {} bytes more at the end than in the middle", got, e - h));
        if e - h > n as i64 / 4 + 20_000 {
            return Err(format!(
                "after {} times {:?}, {} bytes more are held than after {} times",
                n,
                unit,
                e - h,
                n / 2
            ));
        }
    }
    Ok(())
}

/// Names in use by a history
const NAMES: &[&str] = &["", "a", "b", "abc", "xml", "xmlns", "\u{e9}\u{4e2d}", "a-very-long-name-indeed-it-is"];

fn c24_history(c: &mut Ctx, r: &mut Rng) -> Result<(), String> {
    let mut namespace = Namespace::new(r.one_in(2));
    let mut ns = NamespaceStack::new(&mut namespace);
    // a history that ends in the depth it began
    let mut ops: Vec<(usize, &str, &str)> = vec![];
    let mut depth = 0;
    for _ in 0..1 + r.below(40) {
        let k = r.below(8);
        if k == 0 {
            depth += 1;
        } else if k == 1 {
            if depth == 0 {
                continue;
            }
            depth -= 1;
        }
        ops.push((k, *r.pick(NAMES), *r.pick(NAMES)));
    }
    ops.extend((0..depth).map(|_| (1, "", "")));
    c.input.push_str(&format!("{:?}", ops));
    c.sig(hash_bytes(c.input.as_bytes()));
    c.count("histories");
    gives_back(|| {
        for (k, a, b) in &ops {
            match k {
                0 => ns.push_frame(),
                1 => ns.pop_frame(),
                2 => {
                    ns.add_ns(a, b);
                }
                3 => {
                    ns.add_ns_if_unset(a, b);
                }
                4 => {
                    ns.add_name(a);
                }
                5 => {
                    let _ = Name::new(&mut ns, a, b);
                }
                6 => {
                    if let Some(p) = ns.find_prefix_id(a) {
                        ns.find_mapping(p);
                    }
                }
                _ => {
                    let _ = ns.iter_top_mappings().count();
                }
            }
        }
    })
}

fn c24_function(what: &str, len: usize, mut f: impl FnMut()) -> Result<(), String> {
    let peak = peak_of(&mut f);
    if peak > 200 * len as i64 + CONSTANT {
        return Err(format!("{} of {} bytes holds {} bytes at once", what, len, peak));
    }
    gives_back(f).map_err(|e| format!("{}: {}", what, e))
}

fn c24_functions(c: &mut Ctx, s: &str, set: usize) -> Result<(), String> {
    let e = Entities::xml();
    c24_function("escape", s.len(), || {
        escape(s, set);
    })?;
    c24_function("replace_entities", s.len(), || {
        e.replace_entities(set & 1 != 0, s);
    })?;
    c24_function("Entities::xml", 0, || {
        Entities::xml();
    })?;
    c24_function("unescape", s.len(), || {
        let _ = crate::checks_text::unescape(s);
    })?;
    c.count("texts_escaped");
    c.sig(hash_bytes(s.as_bytes()));
    Ok(())
}

pub fn c24(ctx: &mut Ctx) {
    corpus(
        ctx,
        &[
            W::Chars(4, 5),
            W::Any(30_000, 600_000),
            W::Soup(20_000, 400_000),
            W::Pumped(2_000, 20_000),
            W::Sized(&[]),
        ],
        None,
        &c24_text,
    );
    let n = ctx.n(8_000, 200_000);
    ctx.each("trees", n, |c, _, r| {
        let cfg = TreeCfg {
            xmlns: r.one_in(2),
            elems: 1 + r.skewed(40),
            ..TreeCfg::default()
        };
        let o = Opts {
            xmlns: cfg.xmlns,
            premap: cfg.premap.clone(),
            ..Opts::default()
        };
        let d = c.dict.clone();
        let doc = TreeGen::new(r, &d, cfg).doc();
        let (text, _) = gen::write_doc(r, &doc, 100);
        c.input.push_str(&text);
        c24_text(c, &text, &o)?;
        c24_xml(&text, &o)
    });
    let times = ctx.max_size(20_000, 200_000);
    ctx.each("repeated", 2 * UNITS.len() as u64, |c, i, _| {
        let (before, unit, after) = UNITS[i as usize / 2];
        c.input.push_str(&format!("{}{}{}", before, unit, after));
        let o = Opts {
            xmlns: i % 2 == 1,
            ..Opts::default()
        };
        c24_repeated(c, before, unit, after, times, &o)
    });
    // several of them together
    let n = ctx.n(400, 8_000);
    ctx.each("repeated_mixed", n, |c, _, r| {
        let before = "#r xmlns:p='u'\n";
        let mut unit = String::new();
        for _ in 0..2 + r.below(3) {
            let (b, u, _) = r.pick(UNITS);
            if b.ends_with('\n') {
                unit.push_str(u);
                if !u.ends_with('\n') {
                    unit.push('\n');
                }
            }
        }
        c.input.push_str(&unit);
        let o = Opts {
            xmlns: r.one_in(2),
            ..Opts::default()
        };
        c24_repeated(c, before, &unit, "", 3_000, &o)
    });
    let n = ctx.n(8_000, 200_000);
    ctx.each("histories", n, |c, _, r| c24_history(c, r));
    let n = ctx.n(20_000, 400_000);
    ctx.each("functions", n, |c, _, r| {
        let d = c.dict.clone();
        let s = crate::checks_text::some_text(r, &d);
        c.input.push_str(&s);
        c24_functions(c, &s, r.below(32))
    });
}

/// Events as XML events
fn c24_xml(text: &str, o: &Opts) -> Result<(), String> {
    gives_back(|| {
        let mut namespace = Namespace::new(o.xmlns);
        let mut ns = NamespaceStack::new(&mut namespace);
        setup_ns(&mut ns, o);
        let lexer: LexerOfStr<LC, _, HmlError<LC>> = LexerOfStr::new(text);
        let fns = parse_fns();
        let mut it = lexer.iter(&fns);
        let mut parser: Parser<LC> = Parser::default();
        while let Ok(e) = parser.next_event(&mut ns, || it.next()) {
            #[cfg(feature = "xml")]
            {
                let _ = e.as_xml_reader(&ns, false);
                let _ = e.as_xml_reader(&ns, true);
                let _ = e.as_xml_writer(&ns);
            }
            if e.is_end_document() {
                break;
            }
        }
    })
    .map_err(|e| format!("events made XML events: {}", e))
}
