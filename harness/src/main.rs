//! The part of the checks that runs inside the process of the library.

mod builds;
mod checks_api;
mod checks_mem;
mod checks_names;
mod checks_reader;
mod checks_text;
#[cfg(feature = "xml")]
mod checks_xml;
mod evolve;
mod gen;
mod model;
mod report;
mod rng;
mod run;
mod sized;

use report::Ctx;
use std::io::Write;

#[global_allocator]
static ALLOCATOR: checks_mem::Counting = checks_mem::Counting;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

fn dictionary(path: Option<String>) -> gen::Dict {
    let mut d = gen::Dict::default();
    let Some(p) = path else {
        return d;
    };
    let Ok(text) = std::fs::read_to_string(p) else {
        return d;
    };
    // one entry per line: a number, or a word in hexadecimal bytes
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("n ") {
            if let Ok(n) = n.parse() {
                d.sizes.push(n);
            }
        } else if let Some(w) = l.strip_prefix("w ") {
            let b: Vec<u8> = (0..w.len() / 2)
                .filter_map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).ok())
                .collect();
            if let Ok(s) = String::from_utf8(b) {
                d.words.push(s);
            }
        }
    }
    d
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    report::install_hook();
    let dict = dictionary(arg(&args, "--dict"));
    let num = |n: &str, d: u64| -> u64 {
        arg(&args, n).and_then(|s| s.parse().ok()).unwrap_or(d)
    };
    let what = args.get(1).cloned().unwrap_or_default();
    match what.as_str() {
        "lines" => builds::lines(num("--seed", 0), num("--from", 0), num("--n", 10), num("--step", 1), &dict),
        #[cfg(feature = "xml")]
        "gen" => {
            let s = checks_xml::generate(&args[2], num("--seed", 0), num("--n", 10), &dict);
            std::fs::write(arg(&args, "--out").unwrap(), s).unwrap();
        }
        "read" => {
            // read a text from standard input and show the outcome
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
            let o = run::Opts {
                xmlns: args.iter().any(|a| a == "--xmlns"),
                ..run::Opts::default()
            };
            let out = run::read_lc(&t, &o);
            let x = model::read(&t, &o);
            let mut so = std::io::stdout();
            if args.iter().any(|a| a == "--brief") {
                let _ = writeln!(so, "{} events, {:?}, expected {:?}", out.evs.len(), out.end, x.errs);
                return;
            }
            for e in &out.evs {
                let _ = writeln!(so, "{:?}", e);
            }
            let _ = writeln!(so, "{:?}", out.end);
            let _ = writeln!(so, "expected {:?}", x.errs);
            for e in &x.evs {
                let _ = writeln!(so, "   {:?}", e);
            }
        }
        "digest" => {
            // a line for each of some texts that stands for all that was delivered
            let mut so = std::io::stdout().lock();
            for i in 0..num("--n", 10) {
                let mut r = rng::Rng::new(num("--seed", 0) ^ rng::mix(i));
                let o = run::Opts {
                    xmlns: r.one_in(2),
                    ..run::Opts::default()
                };
                let text = gen::any_text(&mut r, &dict, o.xmlns);
                let out = run::read_lc(&text, &o);
                let all = format!("{:?} {:?}", out.evs, out.end);
                let _ = writeln!(so, "{:x} {}", rng::hash_bytes(all.as_bytes()), report::quote(&text));
            }
        }
        "sized" => {
            // show a document of some size
            let n = args[3].parse().unwrap();
            let _ = std::io::stdout().write_all(sized::sized(&args[2], n).as_bytes());
        }
        "run" => {
            let check = args[2].clone();
            let mut ctx = Ctx::new(&check);
            ctx.seed = num("--seed", 0);
            ctx.shard = num("--shard", 0);
            ctx.nshards = num("--n", 1);
            ctx.thorough = arg(&args, "--tier").as_deref() == Some("thorough");
            ctx.mode = arg(&args, "--mode").unwrap_or("normal".into());
            ctx.dict = dict;
            if let Some(s) = arg(&args, "--stream") {
                ctx.filter = Some((s, num("--idx", 0)));
            }
            ctx.tape = arg(&args, "--tape")
                .and_then(|p| std::fs::read(p).ok())
                .and_then(|b| evolve::Tape::from(&b));
            if let Some(p) = arg(&args, "--progress") {
                Ctx::set_progress(&p);
            }
            match check.as_str() {
                "C01" => checks_reader::c01(&mut ctx),
                // with the stack that threads are given unless they ask for more
                "C02" => std::thread::scope(|s| {
                    let t = std::thread::Builder::new().stack_size(2 << 20);
                    let t = t.spawn_scoped(s, || checks_reader::c02(&mut ctx)).unwrap();
                    if t.join().is_err() {
                        std::process::exit(3);
                    }
                }),
                "C03" => checks_reader::c03(&mut ctx),
                "C04" => checks_reader::c04(&mut ctx),
                "C05" => checks_reader::c05(&mut ctx),
                "C06" => checks_reader::c06(&mut ctx),
                "C07" => checks_reader::c07(&mut ctx),
                "C08" => checks_reader::c08(&mut ctx),
                "C09" => checks_reader::c09(&mut ctx),
                "C10" => checks_reader::c10(&mut ctx),
                "C11" => checks_reader::c11(&mut ctx),
                "C12" => checks_reader::c12(&mut ctx),
                "C13" => checks_names::c13(&mut ctx),
                "C14" => checks_names::c14(&mut ctx),
                #[cfg(feature = "xml")]
                "C15" => checks_xml::c15(&mut ctx),
                "C17" => checks_text::c17(&mut ctx),
                "C18" => checks_text::c18(&mut ctx),
                "C19" => checks_reader::c19(&mut ctx),
                "C20" => checks_reader::c20(&mut ctx),
                "C22" => checks_api::c22(&mut ctx),
                "C24" => checks_mem::c24(&mut ctx),
                _ => {
                    ctx.errors.push(format!("no check {}", check));
                }
            }
            let json = ctx.json();
            match arg(&args, "--out") {
                Some(p) => {
                    let mut b = Vec::with_capacity(8 * ctx.sigs.len());
                    for s in &ctx.sigs {
                        b.extend_from_slice(&s.to_le_bytes());
                    }
                    std::fs::write(format!("{}.sigs", p), b).unwrap();
                    std::fs::write(p, json).unwrap();
                }
                None => println!("{}", json),
            }
            if !ctx.errors.is_empty() {
                std::process::exit(3);
            }
        }
        _ => {
            eprintln!("usage: hv run|gen|read");
            std::process::exit(3);
        }
    }
}
