//! Lines that stand for everything the library gave for a case; compared between builds of
//! the library in other configurations (C25).

use crate::checks_reader::near_miss;
use crate::checks_text;
use crate::gen::{self, Dict, TreeCfg, TreeGen};
use crate::report::quote;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{self, Opts, Which, LC};
use crate::sized;
use hml_rs::escape::{escape, Entities};
use hml_rs::names::{Namespace, NamespaceStack};
use std::io::Write;

fn text(r: &mut Rng, d: &Dict, i: u64, xmlns: bool) -> String {
    match i % 8 {
        0 => gen::any_text(r, d, xmlns),
        1 => gen::soup(r, d, 40),
        2 => {
            let dim = r.pick(sized::DIMS).0;
            let n = *r.pick(&[1, 2, 3, 8, 17, 64, 127, 128, 255, 256, 257, 700, 2000]);
            sized::sized(dim, n)
        }
        3 => gen::pumped(r, d, xmlns, 3000),
        k => {
            let cfg = TreeCfg {
                elems: 1 + r.skewed(60),
                deep: r.one_in(3),
                one_in_boxed: r.range(1, 5),
                xmlns,
                ..TreeCfg::default()
            };
            let doc = TreeGen::new(r, d, cfg).doc();
            let (text, _) = gen::write_doc(r, &doc, 100);
            if k == 4 {
                near_miss(r, &text)
            } else {
                text
            }
        }
    }
}

/// A history of names, and every answer
fn names(r: &mut Rng, d: &Dict) -> (String, String) {
    let xmlns = r.one_in(2);
    let mut namespace = Namespace::new(xmlns);
    let mut ns = NamespaceStack::new(&mut namespace);
    let (mut did, mut got) = (format!("xmlns {}", xmlns), String::new());
    let mut depth = 0;
    for _ in 0..r.skewed(60) {
        let p = if r.one_in(3) { String::new() } else { gen::name(r, d) };
        let p = if r.one_in(2) { r.pick(&["p", "q", "xml", "xmlns", ""]).to_string() } else { p };
        match r.below(5) {
            0 => {
                ns.push_frame();
                depth += 1;
                did.push_str(", push");
            }
            1 if depth > 0 => {
                ns.pop_frame();
                depth -= 1;
                did.push_str(", pop");
            }
            2 | 3 => {
                let u = r.pick(&["", "u", "v", "http://a"]).to_string();
                did.push_str(&format!(", add {:?} {:?}", p, u));
                ns.add_ns(&p, &u);
            }
            _ => {
                did.push_str(&format!(", find {:?}", p));
                let id = ns.find_prefix_id(&p);
                let m = id.and_then(|i| ns.find_mapping(i));
                got.push_str(&format!("{:?}={:?} ", id.map(|i| ns.prefix_str(i).to_string()), m.map(|u| ns.uri_str(u).to_string())));
            }
        }
    }
    let mut all: Vec<(String, String)> = (&ns)
        .into_iter()
        .map(|m| (ns.prefix_str(m.prefix_id()).to_string(), ns.uri_str(m.uri_id()).to_string()))
        .collect();
    all.sort();
    got.push_str(&format!("{:?}", all));
    (did, got)
}

pub fn lines(seed: u64, from: u64, n: u64, step: u64, d: &Dict) {
    let mut so = std::io::BufWriter::new(std::io::stdout().lock());
    let e = Entities::xml();
    let mut i = from;
    while i < n {
        let mut r = Rng::new(seed ^ mix(i ^ 0xb111d));
        let (input, all) = match i % 16 {
            14 => {
                let s = checks_text::some_text(&mut r, d);
                let mut all = String::new();
                for set in 0..32 {
                    all.push_str(&format!("{:?} ", escape(&s, set)));
                }
                for map in [false, true] {
                    all.push_str(&format!("{:?} ", e.replace_entities(map, &s)));
                }
                #[cfg(hml_verif)]
                all.push_str(&format!("{:?}", checks_text::unescape(&s)));
                (s, all)
            }
            15 => names(&mut r, d),
            _ => {
                let o = Opts {
                    xmlns: r.one_in(2),
                    ..Opts::default()
                };
                let t = text(&mut r, d, i, o.xmlns);
                let out = if i % 3 == 0 {
                    run::read::<usize>(&t, &o, Which::Plain)
                } else {
                    run::read::<LC>(&t, &o, Which::Plain)
                };
                (t, format!("{:?} {:?}", out.evs, out.end))
            }
        };
        let shown: String = input.chars().take(2000).collect();
        let end: String = all.chars().skip(all.chars().count().saturating_sub(120)).collect();
        let _ = writeln!(so, "{} {:x} {} {}", i, hash_bytes(all.as_bytes()), quote(&shown), quote(&end));
        i += step;
    }
}
