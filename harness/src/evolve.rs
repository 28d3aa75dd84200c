//! Evolving cases towards code and comparisons that were not reached before.
//!
//! In the build for mode "cov" the compiler puts counters at every edge and calls before
//! every comparison (cov.c); a case that does something new is kept and changed further.

use crate::gen::Dict;
use crate::model;
use crate::rng::Rng;

#[cfg(hv_cov)]
extern "C" {
    fn hv_cov_start();
    fn hv_cov_stop(edges: *mut u32, values: *mut u32);
}

pub fn start() {
    #[cfg(hv_cov)]
    unsafe {
        hv_cov_start()
    }
}

/// Numbers of edges (with how often) and of near comparisons seen for the first time
pub fn stop() -> (u32, u32) {
    #[allow(unused_mut)]
    let (mut e, mut v) = (0, 0);
    #[cfg(hv_cov)]
    unsafe {
        hv_cov_stop(&mut e, &mut v)
    }
    (e, v)
}

/// How an evolved case is made
#[derive(Clone)]
pub enum Tape {
    /// From random numbers: these first, then ones from a seed
    Draws(u64, Vec<u64>),
    /// It is a text, with XML namespaces or without
    Text(bool, String),
}

impl Tape {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            Tape::Draws(seed, draws) => {
                b.push(b'D');
                b.extend_from_slice(&seed.to_le_bytes());
                for d in draws {
                    b.extend_from_slice(&d.to_le_bytes());
                }
            }
            Tape::Text(ns, text) => {
                b.push(if *ns { b'N' } else { b'T' });
                b.extend_from_slice(text.as_bytes());
            }
        }
        b
    }
    pub fn from(b: &[u8]) -> Option<Tape> {
        let (k, b) = b.split_first()?;
        match k {
            b'D' => {
                let n: Vec<u64> = b
                    .chunks_exact(8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                    .collect();
                let (seed, draws) = n.split_first()?;
                Some(Tape::Draws(*seed, draws.to_vec()))
            }
            _ => Some(Tape::Text(*k == b'N', String::from_utf8(b.to_vec()).ok()?)),
        }
    }
    pub fn hex(&self) -> String {
        self.bytes().iter().map(|b| format!("{:02x}", b)).collect()
    }
}

/// One of n kept cases; more often a late one
pub fn choose(r: &mut Rng, n: usize) -> usize {
    if r.one_in(2) {
        n - 1 - r.below(n.min(1 + n / 8))
    } else {
        r.below(n)
    }
}

/// Other random numbers, made of these
pub fn mutated(r: &mut Rng, d: &[u64], other: &[u64]) -> Vec<u64> {
    let mut d = d.to_vec();
    for _ in 0..1 + r.below(4) {
        let n = d.len();
        let at = r.below(n + 1);
        let some = 1 + r.below(8);
        match r.below(10) {
            0..=2 if at < n => d[at] = r.next(),
            3 | 4 if at < n => {
                let by = 1u64 << r.range(44, 63);
                d[at] = if r.one_in(2) { d[at].wrapping_add(by) } else { d[at].wrapping_sub(by) };
            }
            5 if at < n => d[at] = *r.pick(&[0, u64::MAX, 1 << 63]),
            6 => {
                d.drain(at..(at + some).min(n));
            }
            7 => {
                let part = d[at..(at + some).min(n)].to_vec();
                d.splice(at..at, part);
            }
            8 => {
                let v = r.next();
                d.insert(at, v);
            }
            _ => {
                let from = r.below(other.len() + 1);
                let to = if r.one_in(2) { other.len() } else { (from + some).min(other.len()) };
                if to == other.len() {
                    d.truncate(at);
                }
                d.splice(at..at, other[from..to].iter().copied());
            }
        }
    }
    d.truncate(4000);
    d
}

const SMALL: &[&str] = &[
    "#", "##", "{", "}", "\"", "'", ";", "\n", " ", "\t", "\r", ":", "=", "a", "b", "r", "x", "p", "0", "-", ".",
    "_", "\\", "\u{e9}", "&", "<", "xmlns", "xmlns:p='u' ", "xml:", "p:", "k=1 ", "'v' ", ";c\n", "#a{ ", "#a} ",
    "##\"", "\"##", "\u{b7}", "\u{3000}", "\u{1f600}",
];

const LONGEST: usize = 6000;

/// Another text, made of this one
pub fn mutated_text(r: &mut Rng, t: &str, other: &str, dict: &Dict) -> String {
    let mut t = t.to_string();
    for _ in 0..1 + r.below(3) {
        t = changed(r, &t, other, dict);
    }
    if t.len() > LONGEST {
        let mut n = LONGEST;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
    t
}

fn place(r: &mut Rng, t: &str) -> usize {
    let mut n = r.below(t.len() + 1);
    while !t.is_char_boundary(n) {
        n -= 1;
    }
    n
}

fn changed(r: &mut Rng, t: &str, other: &str, dict: &Dict) -> String {
    let (toks, _) = model::tokens(t);
    let a = place(r, t);
    let mut b = (a + r.skewed(30)).min(t.len());
    while !t.is_char_boundary(b) {
        b -= 1;
    }
    let put = |s: usize, e: usize, by: &str| format!("{}{}{}", &t[..s], by, &t[e.max(s)..]);
    let token = |r: &mut Rng| {
        let (_, s, e) = &toks[r.below(toks.len())];
        (*s, *e)
    };
    match r.below(18) {
        0 => put(a, a, *r.pick(SMALL)),
        1 => put(a, b, *r.pick(SMALL)),
        2 => put(a, b, ""),
        3 if !dict.words.is_empty() => put(a, a, r.pick(&dict.words)),
        // without a token, with one twice, with it many times
        4 if !toks.is_empty() => {
            let (s, e) = token(r);
            put(s, e, "")
        }
        5 | 6 if !toks.is_empty() => {
            let (s, e) = token(r);
            let k = if r.one_in(2) { 1 } else { r.skewed(60) };
            put(e, e, &format!(" {}", &t[s..e]).repeat(k))
        }
        // one token in the place of another, or before it
        7 | 8 if !toks.is_empty() => {
            let (s, e) = token(r);
            let (s2, e2) = token(r);
            put(s2, if r.one_in(2) { e2 } else { s2 }, &format!(" {} ", &t[s..e]))
        }
        // a token of the other text
        9 | 10 => {
            let (ot, _) = model::tokens(other);
            if ot.is_empty() || toks.is_empty() {
                return put(a, a, other);
            }
            let k = r.below(ot.len());
            let m = (k + r.skewed(12)).min(ot.len() - 1);
            let (s, e) = token(r);
            put(s, if r.one_in(3) { e } else { s }, &format!(" {} ", &other[ot[k].1..ot[m].2]))
        }
        11 => format!("{}{}", &t[..a], &other[place(r, other)..]),
        // one hash more or less
        12 => match t[a..].find('#') {
            Some(k) if r.one_in(2) => put(a + k, a + k + 1, ""),
            Some(k) => put(a + k, a + k, "#"),
            None => t.to_string(),
        },
        // deeper by one: everything in one more box
        13 => {
            let n = *r.pick(&["a", "b", "p:a"]);
            format!("#{}{{ {} #{}}}", n, t, n)
        }
        14 => {
            let last = *r.pick(&[0x300, 0x3100, 0x20000]);
            let c = char::from_u32(r.below(last) as u32).unwrap_or('a');
            put(a, a, &c.to_string())
        }
        // only the part before a place, or before the end of a token
        15 => t[..a].to_string(),
        16 if !toks.is_empty() => t[..token(r).1].to_string(),
        _ => {
            let k = 1 + r.skewed(40);
            put(b, b, &t[a..b].repeat(k))
        }
    }
}
