//! Checks on names and namespaces: C13 and C14.

use crate::gen::{self, Dict};
use crate::model::{XMLNS_URI, XML_URI};
use crate::report::Ctx;
use crate::rng::{hash_bytes, mix, Rng};
use hml_rs::names::{
    Attribute, NSMap, NSNameId, NSPrefixId, NSUriId, Name, Namespace, NamespaceStack,
};
use hml_rs::MarkupError;
use std::collections::HashMap;

//a C13
/// What has been interned, and under which identifier
#[derive(Default)]
struct Table<I> {
    of: HashMap<String, I>,
    order: Vec<(String, I)>,
    ids: HashMap<I, String>,
}

impl<I: Copy + Eq + std::hash::Hash + std::fmt::Debug> Table<I> {
    fn new() -> Self {
        Table {
            of: HashMap::new(),
            order: vec![],
            ids: HashMap::new(),
        }
    }
    /// An interning call returned an identifier
    fn interned(&mut self, s: &str, id: I, none: bool, what: &str) -> Result<(), String> {
        if s.is_empty() != none {
            return Err(format!("{} {:?} got identifier {:?}", what, s, id));
        }
        if s.is_empty() {
            return Ok(());
        }
        match self.of.get(s) {
            Some(i) => {
                if *i != id {
                    return Err(format!(
                        "{} {:?} had identifier {:?} and got {:?}",
                        what, s, i, id
                    ));
                }
            }
            None => {
                if let Some(t) = self.ids.get(&id) {
                    return Err(format!(
                        "{} {:?} got identifier {:?} of {:?}",
                        what, s, id, t
                    ));
                }
                self.of.insert(s.to_string(), id);
                self.ids.insert(id, s.to_string());
                self.order.push((s.to_string(), id));
            }
        }
        Ok(())
    }
    /// A lookup returned a result
    fn looked(&self, s: &str, id: Option<I>, none: bool, what: &str) -> Result<(), String> {
        if s.is_empty() {
            if !none {
                return Err(format!("{} \"\" looked up as {:?}", what, id));
            }
            return Ok(());
        }
        if self.of.get(s).copied() != id {
            return Err(format!(
                "{} {:?} looked up as {:?} but is {:?}",
                what,
                s,
                id,
                self.of.get(s)
            ));
        }
        Ok(())
    }
    fn text(&self, id: I, s: &str, what: &str) -> Result<(), String> {
        match self.ids.get(&id) {
            Some(t) if t == s => Ok(()),
            t => Err(format!("{} {:?} is {:?} but should be {:?}", what, id, s, t)),
        }
    }
}

struct Tables {
    n: Table<NSNameId>,
    p: Table<NSPrefixId>,
    u: Table<NSUriId>,
}

impl Tables {
    fn new() -> Self {
        Tables {
            n: Table::new(),
            p: Table::new(),
            u: Table::new(),
        }
    }
    fn map(&mut self, p: &str, u: &str, m: NSMap) -> Result<(), String> {
        self.p
            .interned(p, m.prefix_id(), m.prefix_id().is_none(), "prefix")?;
        self.u.interned(u, m.uri_id(), m.uri_id().is_none(), "URI")
    }
    /// Everything interned so far is still as it was
    fn recheck(&self, ns: &mut Namespace) -> Result<(), String> {
        for (s, i) in &self.n.order {
            self.n.text(*i, ns.name_str(*i, "?"), "name")?;
            self.n.looked(s, ns.find_name(s), false, "name")?;
        }
        for (s, i) in &self.p.order {
            self.p.text(*i, ns.prefix_str(*i, "?"), "prefix")?;
            self.p.looked(s, ns.find_prefix(s), false, "prefix")?;
        }
        for (s, i) in &self.u.order {
            self.u.text(*i, ns.uri_str(*i, "?"), "URI")?;
            self.u.looked(s, ns.find_uri(s), false, "URI")?;
        }
        for d in ["", "dflt"] {
            if ns.name_str(NSNameId::none(), d) != d
                || ns.prefix_str(NSPrefixId::none(), d) != d
                || ns.uri_str(NSUriId::none(), d) != d
            {
                return Err("the none identifier does not give the default".into());
            }
        }
        Ok(())
    }
    fn defaults(&mut self, ns: &mut NamespaceStack, xmlns: bool) -> Result<(), String> {
        if !xmlns {
            return Ok(());
        }
        for (p, u) in [("xmlns", XMLNS_URI), ("xml", XML_URI)] {
            let m = ns.add_ns_if_unset(p, u).0;
            self.map(p, u, m)?;
        }
        Ok(())
    }
}

/// Strings that are easily mistaken for each other
fn pool(r: &mut Rng, d: &Dict) -> Vec<String> {
    let mut v: Vec<String> = vec![
        "".into(), "a".into(), "A".into(), "aa".into(), "ab".into(), "ba".into(), "a ".into(),
        " a".into(), "\u{e9}".into(), "e\u{301}".into(), "\u{c9}".into(), "xml".into(),
        "xmlns".into(), "XML".into(), XMLNS_URI.into(), XML_URI.into(),
        "http://www.w3.org/2000/xmlns".into(), "None".into(), "0".into(), "1".into(),
        "\0".into(), "a\0".into(), "a\0b".into(), "-".into(), "http://a/".into(),
        "http://a".into(), "HTTP://a".into(), "http://a/#".into(), "k".into(), "K".into(),
        "\u{212a}".into(), "ss".into(), "\u{df}".into(), "\u{1e9e}".into(), "\u{17f}s".into(),
        "\u{ff41}".into(), "\u{ff21}".into(), "i".into(), "I".into(), "\u{130}".into(),
        "\u{131}".into(), "\u{3c3}".into(), "\u{3c2}".into(), "\u{3a3}".into(),
        "\u{fb01}".into(), "fi".into(), "\u{b5}".into(), "\u{3bc}".into(), "%61".into(),
        "a\u{200d}".into(), "a\u{ad}".into(), "a\u{feff}".into(),
    ];
    let base = gen::name(r, d);
    for i in 0..4 {
        v.push(format!("{}{}", base, i));
        v.push(format!("{}{}", i, base));
    }
    v.push(base.to_uppercase());
    v.push(base.to_lowercase());
    v.push(base.chars().rev().collect());
    // and strings that differ from it in one bit of one character
    for _ in 0..4 {
        let at = r.below(base.chars().count());
        let bit = r.below(12);
        v.push(
            base.chars()
                .enumerate()
                .map(|(i, c)| match char::from_u32(c as u32 ^ (1 << bit)) {
                    Some(x) if i == at => x,
                    _ => c,
                })
                .collect(),
        );
    }
    v.push(base);
    // long strings that differ at one end
    let long = "x".repeat(1 + r.skewed(300));
    v.push(format!("{}1", long));
    v.push(format!("{}2", long));
    v.push(format!("1{}", long));
    v.push(format!("2{}", long));
    v.push(long);
    for _ in 0..6 {
        v.push(gen::name(r, d));
        v.push(gen::data_with(r, d, 12, |_| true));
    }
    v
}

fn check_name(
    ns: &mut NamespaceStack,
    t: &mut Tables,
    frames: &Frames,
    s: &str,
) -> Result<Option<(Name, String)>, String> {
    let colons = s.matches(':').count();
    let got = Name::from_str(ns, s);
    if colons > 1 {
        return match got {
            Err(MarkupError::BadName { name }) if name == s => Ok(None),
            g => Err(format!("name {:?} gave {:?}", s, g)),
        };
    }
    let (p, l) = match s.split_once(':') {
        Some((p, l)) => (p, l),
        None => ("", s),
    };
    if colons == 1 && p.is_empty() {
        // ":a" would convert back to "a"
        return match got {
            Err(MarkupError::BadName { .. } | MarkupError::EmptyName { .. }) => Ok(None),
            g => Err(format!("name {:?} gave {:?}", s, g)),
        };
    }
    if l.is_empty() {
        let unmapped = colons == 1 && frames.find(p).is_none();
        return match got {
            Err(MarkupError::EmptyName { .. }) => Ok(None),
            Err(MarkupError::UnmappedPrefix { .. }) if unmapped => Ok(None),
            g => Err(format!("name {:?} gave {:?}", s, g)),
        };
    }
    let uri = frames.find(p);
    if colons == 1 && uri.is_none() {
        return match got {
            Err(MarkupError::UnmappedPrefix { prefix }) if prefix == p => Ok(None),
            g => Err(format!("name {:?} with an unmapped prefix gave {:?}", s, g)),
        };
    }
    let n = match got {
        Ok(n) => n,
        Err(e) => return Err(format!("name {:?} was refused: {:?}", s, e)),
    };
    t.n.interned(l, n.name, n.name.is_none(), "name")?;
    t.p.looked(p, Some(n.prefix), n.prefix.is_none(), "prefix")?;
    if colons == 1 {
        t.u.looked(uri.unwrap(), Some(n.uri), n.uri.is_none(), "URI")?;
    } else if !n.uri.is_none() {
        return Err(format!("local name {:?} has a URI", s));
    }
    if n.has_prefix() != !p.is_empty() || n.has_uri() != !n.uri.is_none() {
        return Err(format!("name {:?} reports prefix or URI wrongly", s));
    }
    if n.to_string(ns) != s {
        return Err(format!("name {:?} converts back to {:?}", s, n.to_string(ns)));
    }
    Ok(Some((n, s.to_string())))
}

pub fn c13(ctx: &mut Ctx) {
    let d = ctx.dict.clone();
    // two declarations of prefixes and URIs with a meaning of their own
    let px = ["", "xml", "xmlns", "XML", "a", "b"];
    let ux = ["", "u", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespace", "xml"];
    let pairs = (px.len() * ux.len()) as u64;
    ctx.each("special", 4 * pairs * pairs, |c, i, _| {
        let (xmlns, deeper) = (i % 2 == 0, i / 2 % 2 == 0);
        let at = |k: u64| (px[k as usize % px.len()], ux[k as usize / px.len()]);
        let (first, second) = (at(i / 4 % pairs), at(i / 4 / pairs));
        c.input = format!("{} {:?} {:?}", xmlns, first, second);
        let mut ns = Namespace::new(xmlns);
        let mut t = Tables::new();
        let mut st = NamespaceStack::new(&mut ns);
        let mut fr = Frames::new(xmlns);
        t.defaults(&mut st, xmlns)?;
        let mut made = vec![];
        for (p, u) in [first, second] {
            let m = st.add_ns(p, u);
            t.map(p, u, m)?;
            fr.add(p, u);
            for p in px {
                for n in ["a", "xml", "xmlns", "u"] {
                    let full = if p.is_empty() { n.to_string() } else { format!("{}:{}", p, n) };
                    if let Some(m) = check_name(&mut st, &mut t, &fr, &full)? {
                        made.push(m);
                    }
                }
            }
            if deeper {
                st.push_frame();
                fr.push();
            }
        }
        for (n, s) in &made {
            if n.to_string(&st) != *s {
                return Err(format!("the name {:?} is now shown as {:?}", s, n.to_string(&st)));
            }
        }
        c.add("names_made", made.len() as u64);
        Ok(())
    });
    let n = ctx.n(60_000, 600_000);
    ctx.each("histories", n, |c, _, r| {
        let xmlns = r.one_in(2);
        let pool = pool(r, &d);
        let mut ns = Namespace::new(xmlns);
        let mut t = Tables::new();
        let mut made: Vec<(Name, String)> = vec![];
        let mut log = String::new();
        for _ in 0..1 + r.below(5) {
            // straight on the namespace
            for _ in 0..r.below(12) {
                let s = r.pick(&pool).clone();
                let u = r.pick(&pool).clone();
                log.push_str(&format!("{:?} {:?};", s, u));
                match r.below(6) {
                    0 => {
                        let g = ns.find_name(&s);
                        t.n.looked(&s, g, g == Some(NSNameId::none()), "name")?
                    }
                    1 => {
                        let g = ns.find_prefix(&s);
                        t.p.looked(&s, g, g == Some(NSPrefixId::none()), "prefix")?
                    }
                    2 => {
                        let g = ns.find_uri(&s);
                        t.u.looked(&s, g, g == Some(NSUriId::none()), "URI")?
                    }
                    3 if !t.p.order.is_empty() && !t.u.order.is_empty() => {
                        let p = r.pick(&t.p.order).clone();
                        let u = r.pick(&t.u.order).clone();
                        let m = ns.add_mapping_by_id(p.1, u.1);
                        t.map(&p.0, &u.0, m)?;
                    }
                    _ => {
                        let m = ns.add_mapping(&s, &u);
                        t.map(&s, &u, m)?;
                    }
                }
            }
            t.recheck(&mut ns)?;
            // through a stack
            c.input = log.clone();
            {
                let mut st = NamespaceStack::new(&mut ns);
                let mut fr = Frames::new(xmlns);
                t.defaults(&mut st, xmlns)?;
                for _ in 0..r.below(40) {
                    let s = r.pick(&pool).clone();
                    let u = r.pick(&pool).clone();
                    match r.below(12) {
                        0..=2 => {
                            let i = st.add_name(&s);
                            t.n.interned(&s, i, i.is_none(), "name")?;
                            if st.name_str(i) != s {
                                return Err(format!("name {:?} is {:?}", s, st.name_str(i)));
                            }
                        }
                        3..=4 => {
                            let m = st.add_ns(&s, &u);
                            t.map(&s, &u, m)?;
                            fr.add(&s, &u);
                            if st.borrow_mapping(m) != (s.as_str(), u.as_str()) {
                                return Err(format!(
                                    "mapping {:?} is {:?}",
                                    (s, u),
                                    st.borrow_mapping(m)
                                ));
                            }
                        }
                        5 => {
                            let g = st.find_prefix_id(&s);
                            t.p.looked(&s, g, g == Some(NSPrefixId::none()), "prefix")?;
                        }
                        6 => {
                            if !s.is_empty() && !s.contains(':') {
                                let nm = Name::new_local(&mut st, &s)
                                    .map_err(|e| format!("local name {:?}: {:?}", s, e))?;
                                t.n.interned(&s, nm.name, nm.name.is_none(), "name")?;
                                made.push((nm, s.clone()));
                            }
                        }
                        7..=9 => {
                            let full = match r.below(8) {
                                0 => s.clone(),
                                1 => format!("{}:{}:{}", s, u, s),
                                2 => format!("{}:", s),
                                _ => format!("{}:{}", s, u),
                            };
                            if let Some(m) = check_name(&mut st, &mut t, &fr, &full)? {
                                made.push(m);
                                c.count("names_made");
                            } else {
                                c.count("names_refused");
                            }
                        }
                        10 => {
                            st.push_frame();
                            fr.push();
                        }
                        _ => {
                            if fr.f.len() > 1 {
                                st.pop_frame();
                                fr.pop();
                            }
                        }
                    }
                }
                for (n, s) in &made {
                    if n.to_string(&st) != *s {
                        return Err(format!(
                            "name {:?} later converts back to {:?}",
                            s,
                            n.to_string(&st)
                        ));
                    }
                }
            }
            t.recheck(&mut ns)?;
        }
        c.add("strings_interned", (t.n.order.len() + t.p.order.len() + t.u.order.len()) as u64);
        let mut h = 0;
        for (s, _) in t.n.order.iter() {
            h = mix(h ^ hash_bytes(s.as_bytes()));
        }
        for (s, _) in t.p.order.iter() {
            h = mix(h ^ hash_bytes(s.as_bytes()));
        }
        c.sig(h);
        c.sample(&log, || {
            format!(
                "{} names, {} prefixes, {} URIs interned and checked",
                t.n.order.len(),
                t.p.order.len(),
                t.u.order.len()
            )
        });
        Ok(())
    });
    // identifiers themselves
    ctx.each("ids", 40, |c, i, _| {
        let k = if i < 20 { i as usize } else { (1usize << (i + 10)) - 1 };
        let (a, b, d) = (NSNameId::new(k), NSPrefixId::new(k), NSUriId::new(k));
        c.input = format!("identifier {}", k);
        let ok = a.get() == Some(k)
            && b.get() == Some(k)
            && d.get() == Some(k)
            && a.is_some()
            && b.is_some()
            && d.is_some()
            && !a.is_none()
            && !b.is_none()
            && !d.is_none()
            && a != NSNameId::none()
            && b != NSPrefixId::none()
            && d != NSUriId::none()
            && NSNameId::none().get().is_none()
            && NSPrefixId::none().get().is_none()
            && NSUriId::none().get().is_none()
            && NSNameId::none().is_none()
            && NSPrefixId::none().is_none()
            && NSUriId::none().is_none()
            && !NSNameId::none().is_some()
            && !NSPrefixId::none().is_some()
            && !NSUriId::none().is_some()
            && NSMap::new(b, d).prefix_id() == b
            && NSMap::new(b, d).uri_id() == d;
        c.sig(mix(i));
        if ok {
            Ok(())
        } else {
            Err("identifiers do not keep their number".into())
        }
    });
    // and their texts
    ctx.each("shown", 8, |c, i, _| {
        let mut seen = HashMap::new();
        for k in 0..3000usize {
            let n = (k > 0).then(|| if k > 2000 { (k << (4 * i)) - 1 } else { k - 1 });
            let texts = match n {
                None => [NSNameId::none().to_string(), NSPrefixId::none().to_string(), NSUriId::none().to_string()],
                Some(n) => [NSNameId::new(n).to_string(), NSPrefixId::new(n).to_string(), NSUriId::new(n).to_string()],
            };
            for (kind, t) in texts.into_iter().enumerate() {
                if let Some(other) = seen.insert((kind, t.clone()), n).filter(|o| *o != n) {
                    c.input = format!("identifiers {:?} and {:?}", n, other);
                    return Err(format!("two identifiers are both shown as {:?}", t));
                }
            }
        }
        Ok(())
    });
    let n = ctx.n(20_000, 300_000);
    let d = ctx.dict.clone();
    ctx.each("shown_maps", n, |c, _, r| {
        let mut namespace = Namespace::new(r.one_in(2));
        let mut ns = NamespaceStack::new(&mut namespace);
        let mut maps = vec![];
        for _ in 0..1 + r.below(6) {
            let (p, u) = (gen::name(r, &d), gen::name(r, &d));
            c.input.push_str(&format!("{:?}={:?} ", p, u));
            maps.push((ns.add_ns(&p, &u), p, u));
        }
        for (m, p, u) in &maps {
            let mut s = String::new();
            if ns.fmt_map(&mut s, *m).is_err() {
                return Err("a mapping cannot be shown".into());
            }
            // the prefix, and the URI somewhere behind it
            let shown = s.find(p.as_str()).map_or(false, |i| s[i + p.len()..].contains(u.as_str()));
            if !shown {
                return Err(format!("the mapping of {:?} to {:?} is shown as {:?}", p, u, s));
            }
        }
        c.count("mappings_shown");
        Ok(())
    });
    // many strings
    let big = ctx.max_size(66_000, 140_000) as u64;
    ctx.each("many", 12, |c, i, r| {
        let total = match i {
            0..=2 => big,
            3..=5 => (big / 8).min(9000),
            _ => 300 + r.below(1000) as u64,
        };
        let what = i % 3;
        c.max("strings", total);
        c.input = format!("{} strings of kind {}", total, what);
        let mut ns = Namespace::new(false);
        let mut t = Tables::new();
        let form = r.below(3);
        let text = |k: u64| match form {
            0 => format!("n{}", k),
            1 => format!("{:06}", k),
            _ => format!("{}-", k.reverse_bits() >> 40),
        };
        {
            let mut st = NamespaceStack::new(&mut ns);
            for k in 0..total {
                let s = text(k);
                match what {
                    0 => {
                        let id = st.add_name(&s);
                        t.n.interned(&s, id, id.is_none(), "name")?;
                    }
                    1 => {
                        let m = st.add_ns(&s, "u");
                        t.map(&s, "u", m)?;
                    }
                    _ => {
                        let m = st.add_ns("p", &s);
                        t.map("p", &s, m)?;
                    }
                }
            }
            // again, some of them
            for k in (0..total).step_by((total / 500).max(1) as usize) {
                let s = text(k);
                match what {
                    0 => {
                        let id = st.add_name(&s);
                        t.n.interned(&s, id, id.is_none(), "name")?;
                    }
                    1 => {
                        let g = st.find_prefix_id(&s);
                        t.p.looked(&s, g, false, "prefix")?;
                    }
                    _ => {
                        let m = st.add_ns("p", &s);
                        t.map("p", &s, m)?;
                    }
                }
            }
        }
        for (s, id) in &t.n.order {
            t.n.text(*id, ns.name_str(*id, "?"), "name")?;
            let _ = s;
        }
        for (_, id) in &t.p.order {
            t.p.text(*id, ns.prefix_str(*id, "?"), "prefix")?;
        }
        for (_, id) in &t.u.order {
            t.u.text(*id, ns.uri_str(*id, "?"), "URI")?;
        }
        c.add("strings_interned", total);
        c.sig(mix(total ^ i));
        Ok(())
    });
    // all pairs of short strings are kept apart
    ctx.each("pairs", 1, |c, _, _| {
        let pieces = &["a", "b", "A", " ", "\0", "\u{e9}", "1", ":"];
        let mut ns = Namespace::new(true);
        let mut t = Tables::new();
        for k in 0..gen::count_strings(pieces.len(), 4) {
            let s = gen::nth_string(pieces, k);
            c.input = s.clone();
            let m = ns.add_mapping(&s, &s);
            t.map(&s, &s, m)?;
            c.count("strings_interned");
        }
        t.recheck(&mut ns)
    });
}

//a C14
/// The model: frames of mappings in order of first addition
pub struct Frames {
    pub f: Vec<Vec<(String, String)>>,
}

impl Frames {
    pub fn new(xmlns: bool) -> Self {
        let mut b = vec![(String::new(), String::new())];
        if xmlns {
            b.push(("xmlns".into(), XMLNS_URI.into()));
            b.push(("xml".into(), XML_URI.into()));
        }
        Frames { f: vec![b] }
    }
    pub fn push(&mut self) {
        self.f.push(vec![]);
    }
    pub fn pop(&mut self) {
        self.f.pop();
    }
    pub fn add(&mut self, p: &str, u: &str) {
        let top = self.f.last_mut().unwrap();
        if let Some(m) = top.iter_mut().find(|m| m.0 == p) {
            m.1 = u.to_string();
        } else {
            top.push((p.to_string(), u.to_string()));
        }
    }
    pub fn add_if_unset(&mut self, p: &str, u: &str) -> bool {
        if self.f.last().unwrap().iter().any(|m| m.0 == p) {
            false
        } else {
            self.add(p, u);
            true
        }
    }
    pub fn find(&self, p: &str) -> Option<&str> {
        for f in self.f.iter().rev() {
            if let Some(m) = f.iter().find(|m| m.0 == p) {
                return Some(&m.1);
            }
        }
        None
    }
    pub fn visible(&self) -> Vec<(String, String)> {
        let mut seen: HashMap<&str, &str> = HashMap::new();
        for f in &self.f {
            for (p, u) in f {
                seen.insert(p, u);
            }
        }
        let mut v: Vec<(String, String)> = seen
            .into_iter()
            .map(|(p, u)| (p.to_string(), u.to_string()))
            .collect();
        v.sort();
        v
    }
}

fn compare(st: &mut NamespaceStack, m: &Frames, prefixes: &[String]) -> Result<(), String> {
    for p in prefixes {
        let got = match st.find_prefix_id(p) {
            None => None,
            Some(id) => st.find_mapping(id).map(|u| st.uri_str(u).to_string()),
        };
        if got.as_deref() != m.find(p) {
            return Err(format!(
                "prefix {:?} is mapped to {:?} instead of {:?}",
                p,
                got,
                m.find(p)
            ));
        }
    }
    let got = crate::run::maps_of(st);
    let want = m.visible();
    if got != want {
        return Err(format!(
            "iteration over the stack gave {:?} instead of {:?}",
            cut(&got),
            cut(&want)
        ));
    }
    let top: Vec<(String, String)> = st
        .iter_top_mappings()
        .map(|x| {
            let (p, u) = st.borrow_mapping(x);
            (p.to_string(), u.to_string())
        })
        .collect();
    let want = m.f.last().unwrap();
    if top != *want {
        return Err(format!(
            "iteration over the top frame gave {:?} instead of {:?}",
            cut(&top),
            cut(want)
        ));
    }
    Ok(())
}

fn cut(v: &[(String, String)]) -> Vec<(String, String)> {
    v.iter().take(20).cloned().collect()
}

/// One operation on both sides
fn step(st: &mut NamespaceStack, m: &mut Frames, op: &Op) -> Result<(), String> {
    match op {
        Op::Push => {
            st.push_frame();
            m.push();
        }
        Op::Pop => {
            if m.f.len() > 1 {
                st.pop_frame();
                m.pop();
            }
        }
        Op::Add(p, u) => {
            let x = st.add_ns(p, u);
            m.add(p, u);
            if st.borrow_mapping(x) != (p.as_str(), u.as_str()) {
                return Err(format!("adding gave {:?}", st.borrow_mapping(x)));
            }
        }
        Op::AddUnset(p, u) => {
            let (x, b) = st.add_ns_if_unset(p, u);
            if b != m.add_if_unset(p, u) {
                return Err(format!("adding {:?} if unset reported {}", p, b));
            }
            if st.borrow_mapping(x) != (p.as_str(), u.as_str()) {
                return Err(format!("adding gave {:?}", st.borrow_mapping(x)));
            }
        }
        Op::AddId(p, u) => {
            // a mapping made in a frame of its own, then added by its identifier
            st.push_frame();
            let x = st.add_ns(p, u);
            st.pop_frame();
            st.add_mapping_by_id(x);
            m.add(p, u);
        }
        Op::AddIdUnset(p, u) => {
            st.push_frame();
            let x = st.add_ns(p, u);
            st.pop_frame();
            let b = st.add_mapping_by_id_if_unset(x);
            if b != m.add_if_unset(p, u) {
                return Err(format!("adding {:?} if unset reported {}", p, b));
            }
        }
        Op::Name(s) => {
            st.add_name(s);
            st.find_prefix_id(s);
        }
        Op::Null => {
            st.add_null_ns();
            m.add("", "");
        }
        Op::Defaults => {
            st.add_default_xmls();
            m.add("", "");
            m.add("xmlns", XMLNS_URI);
            m.add("xml", XML_URI);
        }
        Op::Attr(p, n, v) => {
            // a declaration made by way of an attribute
            let x = st.uses_xmlns();
            let a = Attribute::new(st, p, n, v.clone());
            if x && p.is_empty() && n == "xmlns" {
                m.add("", v);
            } else if x && p == "xmlns" {
                m.add(n, v);
            }
            if let Ok(a) = a {
                if a.value != *v {
                    return Err(format!("attribute value {:?} became {:?}", v, a.value));
                }
            }
        }
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum Op {
    Push,
    Pop,
    Add(String, String),
    AddUnset(String, String),
    AddId(String, String),
    AddIdUnset(String, String),
    Name(String),
    Null,
    Defaults,
    Attr(String, String, String),
}

pub fn c14(ctx: &mut Ctx) {
    let s = |x: &str| x.to_string();
    // all short histories
    let alphabet = vec![
        Op::Push,
        Op::Pop,
        Op::Add(s("p"), s("u")),
        Op::Add(s("p"), s("v")),
        Op::Add(s("q"), s("u")),
        Op::AddUnset(s("p"), s("w")),
        Op::AddUnset(s(""), s("w")),
        Op::Add(s(""), s("d")),
    ];
    let len = if ctx.mode != "normal" { 3 } else if ctx.thorough { 7 } else { 6 };
    let k = alphabet.len() as u64;
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    let prefixes: Vec<String> = vec![s("p"), s("q"), s(""), s("xml"), s("xmlns"), s("never")];
    ctx.each("all_histories", total, |c, i, _| {
        let mut i = i;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut ops = vec![];
        for _ in 0..l {
            ops.push(&alphabet[(i % k) as usize]);
            i /= k;
        }
        c.input = format!("{:?}", ops);
        let mut ns = Namespace::new(false);
        let mut st = NamespaceStack::new(&mut ns);
        let mut m = Frames::new(false);
        for op in &ops {
            step(&mut st, &mut m, op)?;
        }
        c.add("operations", ops.len() as u64);
        c.sig(hash_bytes(c.input.clone().as_bytes()));
        compare(&mut st, &m, &prefixes)
    });
    // random histories, compared after every operation
    let d = ctx.dict.clone();
    let n = ctx.n(30_000, 400_000);
    ctx.each("histories", n, |c, _, r| {
        let xmlns = r.one_in(2);
        let mut ns = Namespace::new(xmlns);
        let mut known: Vec<String> = ["", "p", "q", "xml", "xmlns", "P", "pp", "never"]
            .iter()
            .map(|x| s(x))
            .collect();
        for _ in 0..r.below(12) {
            known.push(gen::name(r, &d));
        }
        let mut uris: Vec<String> = ["", "u", "v", "http://a", "http://a/", XML_URI, XMLNS_URI]
            .iter()
            .map(|x| s(x))
            .collect();
        for _ in 0..r.below(4) {
            uris.push(gen::data_with(r, &d, 12, |_| true));
            uris.push(format!(" {}", r.pick(&uris)));
            uris.push(format!("{} ", r.pick(&uris)));
            known.push(gen::data_with(r, &d, 6, |_| true));
        }
        // a second stack on the same namespace starts afresh
        let rounds = 1 + r.below(3);
        let mut log = String::new();
        for _ in 0..rounds {
            let mut st = NamespaceStack::new(&mut ns);
            let mut m = Frames::new(xmlns);
            compare(&mut st, &m, &known)?;
            // what was visible at each push
            let mut saved: Vec<Vec<(String, String)>> = vec![];
            let pushy = r.range(1, 6);
            let count = 1 + r.skewed(120);
            for i in 0..count {
                let p = r.pick(&known).clone();
                let u = r.pick(&uris).clone();
                let op = match r.below(12) {
                    0..=2 if r.below(6) < pushy => Op::Push,
                    3..=4 => Op::Pop,
                    5..=6 => Op::Add(p, u),
                    7 => Op::AddUnset(p, u),
                    8 => Op::AddId(p, u),
                    9 => Op::AddIdUnset(p, u),
                    10 => match r.below(8) {
                        0 => Op::Null,
                        1 => Op::Defaults,
                        2 => Op::Attr(s(""), s("xmlns"), u),
                        3 | 4 if !p.is_empty() && p != "xmlns" => Op::Attr(s("xmlns"), p, u),
                        _ => Op::Name(p),
                    },
                    _ => Op::Add(p, u),
                };
                if log.len() < 3000 {
                    log.push_str(&format!("{:?} ", op));
                }
                c.input = log.clone();
                match op {
                    Op::Push => saved.push(m.visible()),
                    Op::Pop if !saved.is_empty() => {
                        step(&mut st, &mut m, &op)?;
                        let v = crate::run::maps_of(&st);
                        let w = saved.pop().unwrap();
                        if v != w {
                            return Err(format!(
                                "popping gave {:?} instead of {:?}",
                                cut(&v),
                                cut(&w)
                            ));
                        }
                        continue;
                    }
                    _ => (),
                }
                step(&mut st, &mut m, &op)?;
                if count < 40 || i % 8 == 0 {
                    compare(&mut st, &m, &known)?;
                    c.count("comparisons");
                }
            }
            compare(&mut st, &m, &known)?;
            c.add("operations", count as u64);
            c.max("frames", m.f.len() as u64);
        }
        c.sig(hash_bytes(log.as_bytes()));
        c.sample(&log, || "all lookups and iterations as in the model".into());
        Ok(())
    });
    // many frames, many prefixes
    let max = ctx.max_size(66_000, 300_000);
    let sizes: Vec<usize> = gen::sizes(&ctx.dict, max);
    ctx.each("deep", sizes.len() as u64 * 3, |c, i, _| {
        let k = sizes[(i / 3) as usize];
        let kind = i % 3;
        c.input = format!("{} frames or prefixes, kind {}", k, kind);
        c.max("frames", k as u64);
        let mut ns = Namespace::new(true);
        let mut st = NamespaceStack::new(&mut ns);
        let mut m = Frames::new(true);
        let mut known = vec![s("p"), s("q"), s(""), s("xml")];
        match kind {
            0 => {
                // empty frames on top of a few mappings
                step(&mut st, &mut m, &Op::Add(s("p"), s("u")))?;
                for _ in 0..k {
                    step(&mut st, &mut m, &Op::Push)?;
                }
                compare(&mut st, &m, &known)?;
                step(&mut st, &mut m, &Op::Add(s("p"), s("v")))?;
                compare(&mut st, &m, &known)?;
                for _ in 0..k {
                    step(&mut st, &mut m, &Op::Pop)?;
                }
            }
            1 => {
                // the same prefix in each frame
                for j in 0..k {
                    step(&mut st, &mut m, &Op::Push)?;
                    step(&mut st, &mut m, &Op::Add(s("p"), format!("u{}", j % 7)))?;
                    if j % 3 == 0 {
                        step(&mut st, &mut m, &Op::Add(s("q"), format!("u{}", j % 5)))?;
                    }
                }
                compare(&mut st, &m, &known)?;
                for _ in 0..k / 2 {
                    step(&mut st, &mut m, &Op::Pop)?;
                }
            }
            _ => {
                // many prefixes in one frame
                let k = k.min(3000);
                step(&mut st, &mut m, &Op::Push)?;
                for j in 0..k {
                    step(&mut st, &mut m, &Op::Add(format!("p{}", j), format!("u{}", j % 9)))?;
                    if j % 50 == 0 {
                        known.push(format!("p{}", j));
                    }
                }
                compare(&mut st, &m, &known)?;
                step(&mut st, &mut m, &Op::Push)?;
                step(&mut st, &mut m, &Op::Add(s("p0"), s("z")))?;
                compare(&mut st, &m, &known)?;
                step(&mut st, &mut m, &Op::Pop)?;
            }
        }
        c.sig(mix(i));
        compare(&mut st, &m, &known)
    });
}
