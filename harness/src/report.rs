//! Counting, sampling and reporting; running numbered cases.

use crate::evolve::{self, Tape};
use crate::gen::Dict;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::{End, EvKind, Outcome};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = RefCell::new((String::new(), String::new()));
}

static PROGRESS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
static TAPES: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if let Some(f) = PROGRESS.get() {
            let mut b = format!("{} at {}", msg, loc).into_bytes();
            b.resize(400, b' ');
            let _ = f.write_at(&b, 100);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = (msg, loc));
    }));
}

/// Text of a caught panic with its place
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    let loc = LAST_PANIC.with(|p| p.borrow().1.clone());
    format!("{} at {}", m, loc)
}

/// Was the last panic of this thread in the harness itself?
fn panic_is_ours() -> bool {
    LAST_PANIC.with(|p| p.borrow().1.starts_with("src/"))
}

pub struct Violation {
    pub stream: String,
    pub idx: u64,
    pub what: String,
    pub input: String,
    /// How the case was made, if it is not made from its number
    pub tape: Option<Tape>,
}

pub struct Ctx {
    pub check: String,
    pub seed: u64,
    pub thorough: bool,
    pub mode: String,
    pub shard: u64,
    pub nshards: u64,
    pub filter: Option<(String, u64)>,
    /// With the filter: how the case is made
    pub tape: Option<Tape>,
    pub corpora: u64,
    pub dict: Dict,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub input: String,
    pub cur_stream: String,
    pub cur_idx: u64,
    sampled_streams: BTreeMap<String, u32>,
}

impl Ctx {
    pub fn new(check: &str) -> Self {
        Ctx {
            check: check.to_string(),
            seed: 0,
            thorough: false,
            mode: "normal".into(),
            shard: 0,
            nshards: 1,
            filter: None,
            tape: None,
            corpora: 0,
            dict: Dict::default(),
            evals: 0,
            counters: BTreeMap::new(),
            sigs: HashSet::new(),
            samples: vec![],
            violations: vec![],
            errors: vec![],
            input: String::new(),
            cur_stream: String::new(),
            cur_idx: 0,
            sampled_streams: BTreeMap::new(),
        }
    }
    pub fn set_progress(path: &str) {
        if let Ok(f) = std::fs::File::create(path) {
            let _ = PROGRESS.set(f);
        }
        if cfg!(hv_cov) {
            if let Ok(f) = std::fs::File::create(format!("{}.tape", path)) {
                let _ = TAPES.set(f);
            }
        }
    }
    /// A number of cases: one for quick, another for thorough
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.mode == "miri" {
            let n = (quick / 2000).clamp(8, 60);
            return if self.thorough { n * 10 } else { n };
        }
        if self.mode == "asan" {
            return (if self.thorough { quick } else { quick / 4 }).max(100);
        }
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn max_size(&self, quick: usize, thorough: usize) -> usize {
        if self.mode == "miri" {
            return 40;
        }
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// Counters named max_... keep the largest value
    pub fn max(&mut self, name: &str, n: u64) {
        let v = self.counters.entry(format!("max_{}", name)).or_insert(0);
        if n > *v {
            *v = n;
        }
    }
    pub fn sig(&mut self, s: u64) {
        if self.sigs.len() < 400_000 {
            self.sigs.insert(s);
        }
    }
    /// Note an outcome: counters, signature, sample
    pub fn note(&mut self, text: &str, out: &Outcome) {
        let mut h: u64 = 7;
        let mut depth: u64 = 0;
        let mut deepest = 0;
        for e in &out.evs {
            let t = match &e.k {
                EvKind::StartDoc(_) => 1,
                EvKind::EndDoc => 2,
                EvKind::Start(q, a) => {
                    depth += 1;
                    deepest = deepest.max(depth);
                    3 + 16 * (a.len() as u64) + if q.prefix.is_empty() { 0 } else { 8 }
                }
                EvKind::End(_) => {
                    depth = depth.saturating_sub(1);
                    if e.s.ofs == e.e.ofs {
                        4
                    } else {
                        5
                    }
                }
                EvKind::Content(k, d) => 6 + 16 * (*k as u64) + 256 * (d.len() as u64).min(64),
                EvKind::Comment(_, l) => 7 + 16 * l.len() as u64,
                EvKind::Pi(..) => 9,
            };
            h = mix(h ^ t);
        }
        self.max("depth", deepest);
        self.add("events", out.evs.len() as u64);
        match &out.end {
            End::Done => {
                self.count("accepted");
                if out.evs.len() > 2 {
                    self.sig(h);
                }
            }
            End::Err(e) => {
                let k = e.kind.clone();
                self.count(&format!("refused_{}", k));
                self.sig(mix(h ^ hash_bytes(k.as_bytes())));
            }
            End::Panic(_) => self.count("panics"),
            End::StepBudget | End::EventBudget => self.count("budget"),
        }
        self.sample(text, || out.brief());
    }
    pub fn sample(&mut self, text: &str, f: impl FnOnce() -> String) {
        if self.samples.len() < 24 && self.cur_idx >= self.shard + 3 * self.nshards {
            let c = self
                .sampled_streams
                .entry(self.cur_stream.clone())
                .or_insert(0);
            if *c < 2 {
                *c += 1;
                let cut = |s: &str| -> String { s.chars().take(400).collect() };
                let b = f();
                self.samples.push((
                    format!("{}[{}] {}", self.cur_stream, self.cur_idx, cut(text)),
                    cut(&b),
                ));
            }
        }
    }
    /// Number of bytes written to file descriptors 1 and 2, if those are files
    fn written(&self) -> u64 {
        use std::io::Write;
        use std::os::fd::AsFd;
        if self.check != "C19" {
            return 0;
        }
        let _ = std::io::stdout().flush();
        let len = |fd: std::io::Result<std::os::fd::OwnedFd>| -> u64 {
            fd.map(std::fs::File::from)
                .and_then(|f| f.metadata())
                .map(|m| if m.is_file() { m.len() } else { 0 })
                .unwrap_or(0)
        };
        len(std::io::stdout().as_fd().try_clone_to_owned())
            + len(std::io::stderr().as_fd().try_clone_to_owned())
    }
    pub fn stopped(&self) -> bool {
        self.violations.len() >= 2 || !self.errors.is_empty()
    }
    /// Run cases 0..n of a stream; a case returns Err(what) for a violation
    pub fn each(
        &mut self,
        stream: &str,
        n: u64,
        mut f: impl FnMut(&mut Ctx, u64, &mut Rng) -> Result<(), String>,
    ) {
        if self.stopped() {
            return;
        }
        let base = mix(self.seed ^ hash_bytes(self.check.as_bytes()))
            ^ hash_bytes(stream.as_bytes());
        let (mut i, step) = match &self.filter {
            Some((s, k)) => {
                if s != stream || *k >= n {
                    return;
                }
                (*k, n)
            }
            None => (self.shard, self.nshards),
        };
        self.cur_stream = stream.to_string();
        let started = std::time::Instant::now();
        if let (Some(_), Some(Tape::Draws(seed, draws))) = (&self.filter, self.tape.clone()) {
            self.one(stream, i, &mut Rng::with(seed, draws), &mut f);
            return;
        }
        if cfg!(hv_cov) {
            // few cases means large ones
            if self.filter.is_none() && n >= 1000 && !stream.starts_with("sized") {
                self.evolve(stream, n, base, &mut f);
            }
            return;
        }
        while i < n {
            if !self.one(stream, i, &mut Rng::new(base ^ mix(i)), &mut f) {
                return;
            }
            i += step;
        }
        let ms = started.elapsed().as_millis() as u64;
        self.add(&format!("ms_{}", stream), ms);
        self.count("streams_completed");
    }
    /// Run one case; false if there is a violation, or an error of the harness
    fn one(
        &mut self,
        stream: &str,
        i: u64,
        r: &mut Rng,
        f: &mut impl FnMut(&mut Ctx, u64, &mut Rng) -> Result<(), String>,
    ) -> bool {
        self.cur_idx = i;
        self.input.clear();
        if let Some(p) = PROGRESS.get() {
            let mut b = format!("{} {} ", stream, i).into_bytes();
            b.resize(100, b' ');
            let _ = p.write_at(&b, 0);
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self, i, r)));
        self.evals += 1;
        let written = self.written();
        let what = match res {
            Ok(Ok(())) if written > 0 && self.check == "C19" => Some(format!(
                "{} bytes were written to standard output or standard error",
                written
            )),
            Ok(Ok(())) => None,
            Ok(Err(w)) => Some(w),
            Err(p) => {
                let t = panic_text(&p);
                if panic_is_ours() {
                    self.errors
                        .push(format!("harness panic in {}[{}]: {}", stream, i, t));
                    return false;
                }
                Some(format!("panicked: {}", t))
            }
        };
        if let Some(what) = what {
            let input = std::mem::take(&mut self.input);
            self.violations.push(Violation {
                stream: stream.to_string(),
                idx: i,
                what,
                input,
                tape: None,
            });
            return false;
        }
        true
    }
    /// Run one evolved case, and note how it is made; None if there was a violation or an
    /// error, else how much of what it did was new
    fn one_evolved(
        &mut self,
        stream: &str,
        i: u64,
        tape: &Tape,
        r: &mut Rng,
        f: &mut impl FnMut(&mut Ctx, u64, &mut Rng) -> Result<(), String>,
    ) -> Option<(u32, u32)> {
        if let Some(p) = TAPES.get() {
            let b = tape.bytes();
            let _ = p.write_at(&b, 8);
            let _ = p.write_at(&(b.len() as u64).to_le_bytes(), 0);
        }
        evolve::start();
        let ok = self.one(stream, i, r, f);
        let new = evolve::stop();
        if !ok {
            if let Some(v) = self.violations.last_mut() {
                v.tape = Some(tape.clone());
            }
            return None;
        }
        Some(new)
    }
    /// Evolve cases of a stream by changing the random numbers they are made from
    fn evolve(
        &mut self,
        stream: &str,
        n: u64,
        base: u64,
        f: &mut impl FnMut(&mut Ctx, u64, &mut Rng) -> Result<(), String>,
    ) {
        let mut r = Rng::new(base ^ mix(0xe701 + self.shard));
        let mut pool: Vec<(u64, u64, Vec<u64>)> = vec![];
        // less where texts are evolved too
        let ms = if matches!(self.check.as_str(), "C13" | "C14" | "C15" | "C17" | "C18" | "C22") { 4_000 } else { 1_200 };
        let end = std::time::Instant::now()
            + std::time::Duration::from_millis(if self.thorough { 15 * ms } else { ms });
        let mut done = 0;
        while !self.stopped() && std::time::Instant::now() < end {
            let (i, seed, draws) = if pool.is_empty() || done < 50 || r.one_in(10) {
                (r.below(n as usize) as u64, r.next(), vec![])
            } else {
                let (i, seed, d) = &pool[evolve::choose(&mut r, pool.len())];
                let other = &pool[r.below(pool.len())].2;
                (*i, if r.one_in(4) { r.next() } else { *seed }, evolve::mutated(&mut r, d, other))
            };
            let mut rr = Rng::with(seed, draws.clone());
            let tape = Tape::Draws(seed, draws);
            let Some((edges, values)) = self.one_evolved(stream, i, &tape, &mut rr, f) else {
                return;
            };
            let draws = rr.drawn();
            if done == 0 && draws.is_empty() {
                return; // its cases are numbered
            }
            done += 1;
            self.count("evolved_cases");
            if edges + values > 0 {
                self.add("evolved_edges", edges as u64);
                self.add("evolved_comparisons", values as u64);
                pool.push((i, seed, draws));
            }
        }
        self.count("streams_evolved");
    }
    /// Evolve texts; the flag is for XML namespaces
    pub fn evolve_texts(
        &mut self,
        stream: &str,
        first: &mut dyn FnMut(&mut Ctx, &mut Rng) -> (bool, String),
        f: &dyn Fn(&mut Ctx, &str, bool) -> Result<(), String>,
    ) {
        if self.stopped() {
            return;
        }
        if let Some((s, _)) = &self.filter {
            if let (true, Some(Tape::Text(ns, text))) = (s == stream, self.tape.clone()) {
                self.one(stream, 0, &mut Rng::new(0), &mut |c: &mut Ctx, _, _: &mut Rng| {
                    c.input.push_str(&text);
                    f(c, &text, ns)
                });
            }
            return;
        }
        if !cfg!(hv_cov) {
            return;
        }
        self.cur_stream = stream.to_string();
        let mut r = Rng::new(mix(self.seed ^ hash_bytes(stream.as_bytes())) ^ mix(self.shard));
        let mut pool: Vec<(bool, String)> = vec![];
        let dict = self.dict.clone();
        let end = std::time::Instant::now()
            + std::time::Duration::from_secs(match (self.thorough, self.corpora) {
                (true, 1) => 240,
                (true, _) => 60,
                (false, 1) => 10,
                (false, _) => 3,
            });
        let mut done = 0;
        while !self.stopped() && std::time::Instant::now() < end {
            let (ns, text) = if pool.is_empty() || done < 300 || r.one_in(40) {
                first(self, &mut r)
            } else {
                let (ns, t) = &pool[evolve::choose(&mut r, pool.len())];
                let other = &pool[r.below(pool.len())].1;
                (*ns, evolve::mutated_text(&mut r, t, other, &dict))
            };
            let tape = Tape::Text(ns, text.clone());
            let new = self.one_evolved(
                stream,
                0,
                &tape,
                &mut Rng::new(0),
                &mut |c: &mut Ctx, _, _: &mut Rng| {
                    c.input.push_str(&text);
                    f(c, &text, ns)
                },
            );
            let Some((edges, values)) = new else {
                return;
            };
            done += 1;
            self.count("evolved_texts");
            if edges + values > 0 {
                self.add("evolved_edges", edges as u64);
                self.add("evolved_comparisons", values as u64);
                pool.push((ns, text));
            }
        }
        self.count("streams_evolved");
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        s.push_str(&format!("\"evals\":{},\"counters\":{{", self.evals));
        for (i, (k, v)) in self.counters.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!("{}:{}", quote(k), v));
        }
        s.push_str("},\"samples\":[");
        for (i, (a, b)) in self.samples.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "{{\"input\":{},\"observed\":{}}}",
                quote(a),
                quote(b)
            ));
        }
        s.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "{{\"stream\":{},\"tape\":{},\"idx\":{},\"what\":{},\"input\":{}}}",
                quote(&v.stream),
                quote(&v.tape.as_ref().map_or(String::new(), |t| t.hex())),
                v.idx,
                quote(&cut(&v.what, 3000)),
                quote(&cut(&v.input, 20000))
            ));
        }
        s.push_str("],\"errors\":[");
        for (i, e) in self.errors.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&quote(e));
        }
        s.push_str("]}");
        s
    }
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
