//! Checks on escaping: C17 and C18, and their share of C01.

use crate::gen::{self, Dict};
use crate::report::Ctx;
use crate::rng::{hash_bytes, mix, Rng};
use hml_rs::escape::{escape, escape_required, Entities};

//a References
fn ref_escape(s: &str, set: usize) -> Option<String> {
    let mut any = false;
    let mut o = String::new();
    for c in s.chars() {
        let e = match c {
            '&' => Some("&amp;"),
            '<' => Some("&lt;"),
            '"' if set & 1 != 0 => Some("&quot;"),
            '\'' if set & 2 != 0 => Some("&apos;"),
            '>' if set & 4 != 0 => Some("&gt;"),
            '\n' if set & 8 != 0 => Some("&#xA;"),
            '\r' if set & 16 != 0 => Some("&#xD;"),
            _ => None,
        };
        match e {
            Some(e) => {
                any = true;
                o.push_str(e)
            }
            None => o.push(c),
        }
    }
    any.then_some(o)
}

/// One reference at the start of s: its length and replacement
fn ref_entity(s: &str, map: bool) -> Option<(usize, char)> {
    let body = s.strip_prefix('&')?;
    let end = body.find(';')?;
    let name = &body[..end];
    let len = end + 2;
    if let Some(num) = name.strip_prefix('#') {
        let (digits, radix) = match num.strip_prefix('x') {
            Some(h) => (h, 16),
            None => (num, 10),
        };
        if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
            return None;
        }
        let t = digits.trim_start_matches('0');
        if t.len() > 9 {
            return None;
        }
        let v = if t.is_empty() {
            0
        } else {
            u64::from_str_radix(t, radix).ok()?
        };
        let c = char::from_u32(u32::try_from(v).ok()?)?;
        return Some((len, c));
    }
    if !map {
        return None;
    }
    let c = match name {
        "amp" | "AMP" => '&',
        "lt" | "LT" => '<',
        "gt" | "GT" => '>',
        "apos" | "APOS" => '\'',
        "quot" | "QUOT" => '"',
        _ => return None,
    };
    Some((len, c))
}

fn ref_entities(s: &str, map: bool) -> Option<String> {
    let mut any = false;
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        if let Some((n, c)) = ref_entity(&s[i..], map) {
            any = true;
            o.push(c);
            i += n;
        } else {
            let c = s[i..].chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    any.then_some(o)
}

/// Does the text hold a reference to character zero? XML has no such character, so
/// either treatment is fine.
fn has_nul_ref(s: &str) -> bool {
    let mut rest = s;
    while let Some(i) = rest.find("&#") {
        rest = &rest[i + 2..];
        let d = rest.strip_prefix('x').unwrap_or(rest);
        let t = d.trim_start_matches('0');
        if t.len() < d.len() && t.starts_with(';') {
            return true;
        }
    }
    false
}

fn ref_unescape(s: &str) -> Result<Option<String>, ()> {
    if !s.contains('\\') {
        return Ok(None);
    }
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' {
            o.push(c[i]);
            i += 1;
            continue;
        }
        i += 1;
        let e = *c.get(i).ok_or(())?;
        i += 1;
        match e {
            '0' => o.push('\0'),
            't' => o.push('\t'),
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            '"' => o.push('"'),
            '\'' => o.push('\''),
            '\\' => o.push('\\'),
            'x' => {
                let h = c.get(i).and_then(|c| c.to_digit(16)).ok_or(())?;
                let l = c.get(i + 1).and_then(|c| c.to_digit(16)).ok_or(())?;
                if h > 7 {
                    return Err(());
                }
                o.push((h as u8 * 16 + l as u8) as char);
                i += 2;
            }
            'u' => {
                if c.get(i) != Some(&'{') {
                    return Err(());
                }
                i += 1;
                let mut v = 0u32;
                let mut n = 0;
                while let Some(d) = c.get(i).and_then(|c| c.to_digit(16)) {
                    v = v * 16 + d;
                    n += 1;
                    i += 1;
                    if n > 6 {
                        return Err(());
                    }
                }
                if n == 0 || c.get(i) != Some(&'}') {
                    return Err(());
                }
                i += 1;
                o.push(char::from_u32(v).ok_or(())?);
            }
            _ => return Err(()),
        }
    }
    Ok(Some(o))
}

//a Text
fn text(r: &mut Rng, d: &Dict, pieces: &[&str], max: usize) -> String {
    let mut s = String::new();
    let n = r.skewed(max);
    for _ in 0..n {
        match r.below(6) {
            0 => s.push(gen::any_char(r)),
            1 if !d.words.is_empty() && r.one_in(4) => s.push_str(r.pick(&d.words)),
            _ => s.push_str(*r.pick(pieces)),
        }
    }
    s
}

/// A text with something to escape, replace or expand; long ones too
pub fn some_text(r: &mut Rng, d: &Dict) -> String {
    let pieces = if r.one_in(2) { ENT } else { ESC };
    let mut s = text(r, d, pieces, 30);
    if r.one_in(20) {
        s = s.repeat(1 + r.below(400));
    }
    s
}

const ENT: &[&str] = &[
    "&", "<", ">", "'", "\"", "\n", "\r", ";", "#", "x", "a", "&amp;", "&lt;", "&gt;", "&apos;",
    "&quot;", "&AMP;", "&LT;", "&GT;", "&QUOT;", "&APOS;", "&Amp;", "&amp", "amp;", "&#", "&#x",
    "&#65;", "&#x41;", "&#X41;", "&#xA;", "&#xD;", "&#10;", "&#x10ffff;", "&#x110000;",
    "&#1114111;", "&#1114112;", "&#xd800;", "&#xdfff;", "&#55296;", "&;", "&#;", "&#x;", "&#1a;",
    "&#xg;", "&blob;", "&#x000041;", "&#000065;", "41;", "f", "0", "9", "&#4294967361;",
    "&#x100000041;", "&#-1;", "&# 65;", "&#x4x1;", "\u{e9}", "\u{1f600}", "&\u{e9};", "&#\u{e9};",
];

const ESC: &[&str] = &[
    "\\", "\\\\", "\\n", "\\t", "\\r", "\\0", "\\'", "\\\"", "\\x41", "\\x7f", "\\x80", "\\xff",
    "\\x", "\\x4", "\\xg1", "\\x1g", "\\u{41}", "\\u{1F600}", "\\u{10ffff}", "\\u{110000}",
    "\\u{d800}", "\\u{dfff}", "\\u{0}", "\\u{}", "\\u{1234567}", "\\u{000041}", "\\u{0000041}",
    "\\u", "\\u{", "\\u{41", "\\u41}", "\\u{4g}", "\\u{ 41}", "\\z", "\\ ", "\\\u{e9}", "}", "{",
    "x", "u", "a", "0", "\u{e9}", "\u{1f600}", "\"", "'", "\n", "\\X41", "\\U{41}", "\\N",
    "\\u{fffff}", "\\u{D7FF}", "\\u{e000}",
];

//a C17
fn c17_one(c: &mut Ctx, e: &Entities, s: &str, set: usize) -> Result<(), String> {
    let got = escape(s, set);
    let want = ref_escape(s, set);
    if got != want {
        return Err(format!(
            "escape with set {} gave {:?} instead of {:?}",
            set, got, want
        ));
    }
    let esc = got.as_deref().unwrap_or(s);
    let back = e.replace_entities(true, esc);
    if back.as_deref().unwrap_or(esc) != s {
        return Err(format!(
            "escaped with set {} to {:?} and back to {:?}",
            set, esc, back
        ));
    }
    c.count("escapes");
    if want.is_some() {
        c.sig(mix(hash_bytes(esc.as_bytes())));
    }
    Ok(())
}

fn c17_ent(c: &mut Ctx, e: &Entities, s: &str, map: bool) -> Result<(), String> {
    if has_nul_ref(s) {
        return Ok(());
    }
    let got = e.replace_entities(map, s);
    let want = ref_entities(s, map);
    if got != want {
        return Err(format!(
            "replacing entities (map {}) gave {:?} instead of {:?}",
            map, got, want
        ));
    }
    if map && c.cur_idx % 4 == 0 {
        // a set without names knows none
        let got = Entities::default().replace_entities(true, s);
        let want = ref_entities(s, false);
        if got != want {
            return Err(format!(
                "replacing entities of an empty set gave {:?} instead of {:?}",
                got, want
            ));
        }
    }
    c.count("replacements");
    if let Some(w) = &want {
        c.count("with_replacement");
        c.sig(hash_bytes(w.as_bytes()));
    }
    Ok(())
}

/// Texts with a character put in, or in the place of another, at every place, or only at one
fn put_everywhere(ch: char, texts: &[&str], all: bool) -> Vec<String> {
    let mut v = vec![];
    for t in texts {
        for k in 0..=t.len() {
            if all || k as u32 == ch as u32 % (t.len() as u32 + 1) {
                v.push(format!("{}{}{}", &t[..k], ch, &t[k..]));
                if k < t.len() {
                    v.push(format!("{}{}{}", &t[..k], ch, &t[k + 1..]));
                }
            }
        }
    }
    v
}

pub fn c17(ctx: &mut Ctx) {
    let e = Entities::xml();
    let d = ctx.dict.clone();
    let n = ctx.n(400_000, 6_000_000);
    ctx.each("texts", n, |c, i, r| {
        let s = text(r, &d, ENT, 40);
        c.input.push_str(&s);
        c.sample(&s, || format!("{:?}", ref_entities(&s, true)));
        c17_one(c, &e, &s, (i % 32) as usize)?;
        c17_ent(c, &e, &s, true)?;
        c17_ent(c, &e, &s, false)
    });
    // all short texts of special pieces, with all sets
    let pieces = &["&", "<", ">", "'", "\"", "\n", "\r", "a", "\u{e9}"];
    let len = if ctx.mode != "normal" { 2 } else if ctx.thorough { 5 } else { 4 };
    ctx.each("all_sets", gen::count_strings(pieces.len(), len), |c, i, _| {
        let s = gen::nth_string(pieces, i);
        c.input.push_str(&s);
        for set in 0..32 {
            c17_one(c, &e, &s, set)?;
        }
        Ok(())
    });
    // all short texts around references
    let pieces = &["&", "#", "x", ";", "4", "1", "a", "F", "amp", "lt", "0"];
    let len = if ctx.mode != "normal" { 2 } else if ctx.thorough { 7 } else { 6 };
    ctx.each("all_refs", gen::count_strings(pieces.len(), len), |c, i, _| {
        let s = gen::nth_string(pieces, i);
        c.input.push_str(&s);
        c17_ent(c, &e, &s, true)?;
        c17_ent(c, &e, &s, false)
    });
    // every character, by number in each form, and as itself
    let n = if ctx.mode == "normal" { 0x120000 } else { 300 };
    ctx.each("every_char", n, |c, i, _| {
        if i == 0 {
            return Ok(());
        }
        for s in [
            format!("&#{};", i),
            format!("&#x{:x};", i),
            format!("x&#x{:X};y&#{};", i, i),
            format!("&#x00{:x};", i),
            format!("&#0{};", i),
        ] {
            c.input = s.clone();
            c17_ent(c, &e, &s, i % 2 == 0)?;
        }
        if let Some(ch) = char::from_u32(i as u32) {
            for s in [format!("{}", ch), format!("{}&{}", ch, ch)] {
                c.input = s.clone();
                c17_one(c, &e, &s, (i % 32) as usize)?;
                c17_one(c, &e, &s, 31)?;
            }
        }
        Ok(())
    });
    // every character at every place of a reference
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("in_refs", n, |c, i, _| {
        if let Some(ch) = char::from_u32(i as u32) {
            let all = i < 0x3000 || (0xa600..0xac00).contains(&i) || (0xf900..0x10000).contains(&i);
            for s in put_everywhere(ch, &["&#65;", "&#x4a;", "&amp;", "&LT;"], all) {
                c.input.clear();
                c.input.push_str(&s);
                c17_ent(c, &e, &s, true)?;
            }
        }
        Ok(())
    });
    // numbers beyond Unicode
    let n = ctx.n(60_000, 600_000);
    ctx.each("numbers", n, |c, _, r| {
        let v = r.next() >> r.below(64);
        let w = (r.next() as u128) << r.below(64);
        // a number that is a character's if its high bits are lost
        let lost = ((1 + r.below(1 << 16) as u64) << *r.pick(&[21, 24, 28, 31, 32, 33, 36, 40])) | r.below(0x110000) as u64;
        for s in [
            format!("&#{};", lost),
            format!("&#x{:x};", lost),
            format!("&#x{:X};", lost),
            format!("&#{};", v),
            format!("&#x{:x};", v),
            format!("&#{};", w),
            format!("&#x{:x};", w),
            format!("&#{:0w$};", v, w = r.below(30)),
            format!("&#x{:0w$x};", v, w = r.below(30)),
        ] {
            c.input = s.clone();
            c17_ent(c, &e, &s, true)?;
        }
        Ok(())
    });
    let max = ctx.max_size(70_000, 200_000);
    let sizes = gen::sizes(&ctx.dict, max);
    ctx.each("sized", sizes.len() as u64, |c, i, _| {
        let k = sizes[i as usize];
        c.max("size", k as u64);
        for s in [
            format!("{}&", "a".repeat(k)),
            format!("&{}", "a".repeat(k)),
            "<&".repeat(k),
            format!("{}<{}", "\u{e9}".repeat(k), "\u{1f600}".repeat(k)),
            "&amp;".repeat(k),
            format!("{}&#65;", "a".repeat(k)),
            format!("&{};&lt;", "a".repeat(k)),
            format!("&#{}65;", "0".repeat(k)),
            format!("&#x{}41;&amp;", "0".repeat(k)),
        ] {
            c.input = format!("size {}: {}", k, s.chars().take(60).collect::<String>());
            c17_one(c, &e, &s, (i % 32) as usize)?;
            c17_ent(c, &e, &s, true)?;
        }
        Ok(())
    });
}

//a C18
#[cfg(hml_verif)]
pub fn unescape(s: &str) -> Result<Option<String>, ()> {
    // through both constructors, which must agree
    let a = hml_rs::hml::escape::Escapable::new(s);
    let b: Result<hml_rs::hml::escape::Escapable, _> = s.try_into();
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let t: &str = a.as_ref();
            let u: &str = b.as_ref();
            if t != u {
                return Ok(Some(format!("two results: {:?} and {:?}", t, u)));
            }
            Ok(Some(t.to_string()))
        }
        (Err(a), Err(_)) => {
            let _ = format!("{:?}", a);
            Err(())
        }
        _ => Ok(Some("two results: one refused".into())),
    }
}

#[cfg(hml_verif)]
fn c18_one(c: &mut Ctx, s: &str) -> Result<(), String> {
    let got = unescape(s);
    let want = ref_unescape(s);
    match (&got, &want) {
        (Ok(Some(g)), Ok(w)) => {
            let w = w.as_deref().unwrap_or(s);
            if g != w {
                return Err(format!("unescaped to {:?} instead of {:?}", g, w));
            }
            c.count("expanded");
            c.sig(hash_bytes(g.as_bytes()));
        }
        (Err(()), Err(())) => {
            c.count("refused");
            c.sig(mix(s.len() as u64));
        }
        _ => return Err(format!("gave {:?} instead of {:?}", got, want)),
    }
    Ok(())
}

#[cfg(not(hml_verif))]
fn c18_one(_: &mut Ctx, _: &str) -> Result<(), String> {
    panic!("built without the hook")
}

pub fn c18(ctx: &mut Ctx) {
    let d = ctx.dict.clone();
    let n = ctx.n(400_000, 6_000_000);
    ctx.each("texts", n, |c, _, r| {
        let s = text(r, &d, ESC, 30);
        c.input.push_str(&s);
        c.sample(&s, || format!("{:?}", ref_unescape(&s)));
        c18_one(c, &s)
    });
    // texts that are all well-formed
    let n = ctx.n(200_000, 2_000_000);
    ctx.each("well_formed", n, |c, _, r| {
        let mut s = String::new();
        for _ in 0..r.skewed(30) {
            match r.below(5) {
                0 => s.push_str(*r.pick(&["\\n", "\\t", "\\r", "\\0", "\\'", "\\\"", "\\\\"])),
                1 => s.push_str(&format!("\\x{:02x}", r.below(0x80))),
                2 => {
                    let ch = loop {
                        if let Some(c) = char::from_u32((r.next() >> (43 + r.below(20))) as u32) {
                            break c;
                        }
                    };
                    let w = 1 + r.below(6);
                    if r.one_in(2) {
                        s.push_str(&format!("\\u{{{:0w$x}}}", ch as u32, w = w));
                    } else {
                        s.push_str(&format!("\\u{{{:0w$X}}}", ch as u32, w = w));
                    }
                }
                _ => {
                    let ch = gen::any_char(r);
                    if ch != '\\' {
                        s.push(ch)
                    }
                }
            }
        }
        c.input.push_str(&s);
        if ref_unescape(&s).is_err() {
            panic!("the text should be well-formed");
        }
        c18_one(c, &s)
    });
    let pieces = &["\\", "u", "{", "}", "x", "4", "1", "f", "n", "g", "\u{e9}", "0"];
    let len = if ctx.mode != "normal" { 2 } else if ctx.thorough { 7 } else { 6 };
    ctx.each("all", gen::count_strings(pieces.len(), len), |c, i, _| {
        let s = gen::nth_string(pieces, i);
        c.input.push_str(&s);
        c18_one(c, &s)
    });
    let pieces = &["0", "1", "9", "a", "F", "d", "8", "}"];
    ctx.each("all_unicode", gen::count_strings(pieces.len(), len), |c, i, _| {
        let s = format!("k\\u{{{}}}", gen::nth_string(pieces, i));
        c.input.push_str(&s);
        c18_one(c, &s)
    });
    // every number up to seven digits' worth around Unicode, every two-digit pair
    let n = if ctx.mode == "normal" { 0x112000 } else { 300 };
    ctx.each("every_char", n, |c, i, _| {
        for s in [
            format!("\\u{{{:x}}}", i),
            format!("a\\u{{{:06X}}}b", i),
        ] {
            c.input = s.clone();
            c18_one(c, &s)?;
        }
        if let Some(ch) = char::from_u32(i as u32) {
            for s in [
                format!("\\{}", ch),
                format!("{}\\n{}", ch, ch),
                format!("\\x{}1", ch),
                format!("\\x1{}", ch),
                format!("\\u{}1}}", ch),
                format!("\\u{{{}1}}", ch),
                format!("\\u{{1{}", ch),
            ] {
                c.input = s.clone();
                c18_one(c, &s)?;
            }
        }
        Ok(())
    });
    // every character at every place of an escape
    let n = if ctx.mode == "normal" { 0x110000 } else { 300 };
    ctx.each("in_escapes", n, |c, i, _| {
        if let Some(ch) = char::from_u32(i as u32) {
            let all = i < 0x3000 || (0xa600..0xac00).contains(&i) || (0xf900..0x10000).contains(&i);
            for s in put_everywhere(ch, &["\\u{e9}", "\\x4A", "\\n", "\\u{10fffd}"], all) {
                c.input.clear();
                c.input.push_str(&s);
                c18_one(c, &s)?;
            }
        }
        Ok(())
    });
    ctx.each("hex_pairs", 0x10000, |c, i, _| {
        let (a, b) = ((i >> 8) as u8, (i & 255) as u8);
        if a < 0x80 && b < 0x80 {
            let s = format!("\\x{}{}", a as char, b as char);
            c.input = s.clone();
            c18_one(c, &s)?;
        }
        Ok(())
    });
    let max = ctx.max_size(70_000, 200_000);
    let sizes = gen::sizes(&ctx.dict, max);
    ctx.each("sized", sizes.len() as u64, |c, i, _| {
        let k = sizes[i as usize];
        c.max("size", k as u64);
        for s in [
            format!("{}\\n", "a".repeat(k)),
            format!("\\n{}", "\u{e9}".repeat(k)),
            "\\n".repeat(k),
            "\\u{e9}x".repeat(k),
            format!("{}\\", "\\\\".repeat(k)),
            format!("\\u{{{}41}}", "0".repeat(k)),
            "a".repeat(k),
        ] {
            c.input = format!("size {}: {}", k, s.chars().take(60).collect::<String>());
            c18_one(c, &s)?;
        }
        Ok(())
    });
}

//a C01 share
fn ok(s: &Option<String>) -> Result<(), String> {
    if let Some(s) = s {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            return Err(format!(
                "the result is not valid UTF-8: {:?}",
                s.as_bytes()
            ));
        }
    }
    Ok(())
}

pub fn c01_text_functions(ctx: &mut Ctx) {
    let e = Entities::xml();
    let d = ctx.dict.clone();
    let n = ctx.n(200_000, 3_000_000);
    ctx.each("escaping", n, |c, i, r| {
        let s = text(r, &d, ENT, 20);
        let t = text(r, &d, ESC, 20);
        c.input = format!("{:?} {:?}", s, t);
        ok(&escape(&s, (i % 32) as usize))?;
        ok(&e.replace_entities(i % 2 == 0, &s))?;
        #[cfg(hml_verif)]
        if let Ok(x) = unescape(&t) {
            ok(&x)?;
        }
        c.count("strings_checked");
        c.sig(hash_bytes(s.as_bytes()));
        Ok(())
    });
    // any bytes, any start and length: a panic is fine, an ill-formed string is not
    let n = ctx.n(200_000, 3_000_000);
    ctx.each("bytes", n, |c, i, r| {
        let len = r.below(12);
        let b: Vec<u8> = (0..len)
            .map(|_| match r.below(4) {
                0 => *r.pick(b"&<>'\"\n\r;#x"),
                1 => r.below(128) as u8,
                2 => 0x80 + r.below(128) as u8,
                _ => *r.pick(&[0xc3, 0xa9, 0xe4, 0xb8, 0xad, 0xf0, 0x9f, 0x98, 0x80, 0xff, 0xc0]),
            })
            .collect();
        let start = r.below(len + 2);
        let n = r.below(len + 3);
        c.input = format!("escape_required({:?}, {}, {}, {})", b, i % 32, start, n);
        let res = std::panic::catch_unwind(|| escape_required(&b, (i % 32) as usize, start, n));
        if let Ok(x) = res {
            ok(&x)?;
            c.count("byte_strings_checked");
            if x.is_some() {
                c.sig(hash_bytes(&b));
            }
        }
        Ok(())
    });
}
