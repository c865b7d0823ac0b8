use inproc::gen::{self, Src};
use inproc::monitor::{self, Outcome};
use inproc::text;
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

/// One definition per text in the file, or all definitions inside larger texts.
fn streams(path: &str) -> Vec<TokenStream> {
    let mut out = Vec::new();
    for t in corpus(path) {
        if let Some(ts) = text::parse(&t) {
            text::definitions(ts, &mut out);
        }
    }
    out
}

fn corpus(path: &str) -> Vec<String> {
    std::fs::read_to_string(path).unwrap().split("\n@@@@\n").map(str::trim).filter(|s| !s.is_empty()).map(str::to_owned).collect()
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn main() {
    // The size of the stack rustc gives its own threads.
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap();
    t.join().unwrap();
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[1].as_str() {
        "fuzz" => fuzz(&args),
        "dump" => dump(&args),
        "defs" => streams(&args[2]).iter().for_each(|ts| println!("@@D {}", monitor::esc(&text::print(ts)))),
        "mutants" => mutants(&args),
        "check" => check(&args),
        _ => panic!("unknown mode"),
    }
}

/// fuzz CORPUS SEED COUNT PROGRESS: mutates and monitors.
fn fuzz(args: &[String]) {
    let seed: u64 = args[3].parse().unwrap();
    let count: usize = args[4].parse().unwrap();
    monitor::watchdog(Duration::from_secs(20));
    let base = streams(&args[2]);
    println!("@@BASE {}", base.len());
    let mut r = gen::Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let (mut inputs, mut errors, mut clean, mut bad) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct = BTreeSet::new();
    let mut messages: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut pool: Vec<TokenStream> = Vec::new();
    let mut slowest = Duration::ZERO;
    let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&args[5]).unwrap();
    for i in 0..count {
        // Now and then build on an earlier mutant.
        let n = r.below(base.len());
        let from = if !pool.is_empty() && r.one_in(3) { r.pick(&pool).clone() } else { base[n].clone() };
        let k = r.below(base.len());
        let ts = if i < base.len() { base[i].clone() } else { gen::mutate(&mut r, &from, &base[k]) };
        let t = text::print(&ts);
        if t.len() > 60_000 {
            continue;
        }
        // What was being expanded if the process dies.
        use std::os::unix::fs::FileExt;
        let mut line = t.clone().into_bytes();
        line.push(0);
        let _ = progress.write_all_at(&line, 0);
        monitor::begin(t.clone());
        let start = std::time::Instant::now();
        match monitor::check(&ts) {
            Outcome::NotInput => continue,
            Outcome::Bad(why) => {
                bad += 1;
                inputs += 1;
                if bad <= 5 {
                    println!("@@BAD {}\u{1}{}", monitor::esc(&why), monitor::esc(&t));
                }
            }
            Outcome::Good { error, impls, output } => {
                inputs += 1;
                slowest = slowest.max(start.elapsed());
                let o = text::print(&output);
                if error {
                    errors += 1;
                    if let Some(m) = o.split("compile_error ! ").nth(1) {
                        let m: String = m.trim_start_matches(['{', '(', ' ']).chars().take(60).collect();
                        *messages.entry(m).or_insert(0) += 1;
                    }
                } else {
                    clean += 1;
                }
                let new = distinct.insert(hash(&o));
                if new && pool.len() < 3000 && (i >= base.len()) {
                    pool.push(ts.clone());
                } else if new && r.one_in(4) && !pool.is_empty() {
                    let k = r.below(pool.len());
                    pool[k] = ts.clone();
                }
                if samples.len() < 3 && i > base.len() + 500 && t.len() < 400 && new {
                    samples.push(format!("{} => {} impls{}", t, impls, if error { " and an error" } else { "" }));
                }
            }
        }
    }
    println!("@@STAT inputs={inputs} errors={errors} clean={clean} bad={bad} distinct={} messages={}", distinct.len(), messages.len());
    for h in distinct {
        println!("@@T {h:x}");
    }
    for s in samples {
        println!("@@SAMPLE {}", monitor::esc(&s));
    }
    eprintln!("slowest {slowest:?}");
    let mut v: Vec<_> = messages.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (m, n) in v.iter().take(60) {
        eprintln!("{n} {m}");
    }
}

/// check CORPUS: monitors each definition as it is.
fn check(args: &[String]) {
    monitor::watchdog(Duration::from_secs(20));
    for (i, t) in corpus(&args[2]).iter().enumerate() {
        monitor::begin(t.clone());
        println!("@@I {i}");
        let Some(ts) = text::parse(t) else {
            println!("@@R {i} unparsable");
            continue;
        };
        let start = std::time::Instant::now();
        let r = monitor::check(&ts);
        println!("@@M {i} {}", start.elapsed().as_millis());
        match r {
            Outcome::NotInput => println!("@@R {i} notinput"),
            Outcome::Bad(why) => println!("@@R {i} bad {}", monitor::esc(&why)),
            Outcome::Good { error, impls, output } => println!("@@R {i} {} {impls} {:x}", if error { "error" } else { "ok" }, hash(&text::print(&output))),
        }
    }
}

/// dump CORPUS ORDER: prints each expansion; ORDER is forward, reverse, twice or shuffle:SEED.
fn dump(args: &[String]) {
    let texts = corpus(&args[2]);
    let mut order: Vec<usize> = (0..texts.len()).collect();
    let how = args[3].as_str();
    if how == "reverse" {
        order.reverse();
    } else if how == "twice" {
        order = order.iter().flat_map(|&i| [i, i]).collect();
    } else if let Some(seed) = how.strip_prefix("shuffle:") {
        let mut r = gen::Rng(seed.parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
    }
    let full = args.get(4).map_or(false, |s| s == "text");
    for i in order {
        let out = match text::parse(&texts[i]) {
            None => "unparsable".to_owned(),
            Some(ts) => match monitor::expand(&ts) {
                Ok((_, out, _)) => text::print(&out),
                Err(None) => "notinput".to_owned(),
                Err(Some(p)) => format!("panic {p}"),
            },
        };
        if full {
            println!("{i} {}", monitor::esc(&out));
        } else {
            println!("{i} {:x} {}", hash(&out), out.contains("compile_error"));
        }
    }
}

/// mutants CORPUS SEED COUNT: prints definitions whose attributes were mutated, as
/// source text a compiler can read.
fn mutants(args: &[String]) {
    let mut r = gen::Rng(args[3].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let count: usize = args[4].parse().unwrap();
    let base = streams(&args[2]);
    let mut n = 0;
    let mut tries = 0;
    while n < count && tries < count * 20 {
        tries += 1;
        let (a, b) = (r.below(base.len()), r.below(base.len()));
        let Some(ts) = gen::mutate_attrs(&mut r, &base[a], &base[b]) else { continue };
        let t = text::print(&ts);
        // No invisible groups, and nothing the compiler's lexer may refuse.
        if t.contains("__none") || t.len() > 4000 || t.contains(['\'', '$']) || t.contains("suffix") || t.contains("foo") || t.contains("\u{2028}") || t.contains("\u{200b}") {
            continue;
        }
        if text::parse(&t).is_none() {
            continue;
        }
        n += 1;
        println!("@@D {}", monitor::esc(&t));
    }
}
