//! A stand-in for rustc and for its wrappers. It reads what to do from the
//! file `<own path>.conf`, appends what it was asked to `log` beside it, and
//! behaves like the compiler described there.
use std::env;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};

fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        if c.is_ascii_graphic() && c != b'"' && c != b'\\' { s.push(c as char) } else { s += &format!("%{:02x}", c) }
    }
    s
}

fn main() {
    let mut args: Vec<OsString> = env::args_os().collect();
    let me = PathBuf::from(args.remove(0));
    let conf = fs::read_to_string(format!("{}.conf", me.display())).expect("conf");
    let get = |k: &str| conf.lines().filter_map(|l| l.split_once('=')).filter(|(a, _)| *a == k).map(|(_, v)| v.to_owned()).collect::<Vec<_>>();
    let one = |k: &str| get(k).into_iter().next().unwrap_or_default();
    let bootstrap = env::var_os("RUSTC_BOOTSTRAP");
    let mut log = fs::OpenOptions::new().create(true).append(true).open(me.with_file_name("log")).unwrap();
    let name = me.file_name().unwrap().to_str().unwrap().to_owned();
    let line = format!("{{\"who\":\"{}\",\"args\":[{}],\"bootstrap\":{},\"cwd\":\"{}\"}}\n", name,
        args.iter().map(|a| format!("\"{}\"", esc(a.as_bytes()))).collect::<Vec<_>>().join(","),
        bootstrap.as_ref().map_or("null".to_owned(), |b| format!("\"{}\"", esc(b.as_bytes()))),
        esc(env::current_dir().unwrap().as_os_str().as_bytes()));
    log.write_all(line.as_bytes()).unwrap();

    match &*one("role") {
        "wrapper" => {
            // Runs the compiler it was given, or another one.
            let mut it = args.into_iter();
            let inner = it.next().unwrap_or_default();
            if !one("fail").is_empty() { exit(1); }
            let run = if one("instead").is_empty() { inner } else { one("instead").into() };
            let mut c = Command::new(run);
            c.args(it).args(get("add"));
            let e = c.exec();
            eprintln!("wrapper: {}", e);
            exit(101)
        }
        _ => {}
    }
    let strs: Vec<String> = args.iter().map(|a| a.to_string_lossy().into_owned()).collect();
    if strs.iter().any(|a| a == "--version" || a == "-V" || a == "-vV") {
        let v = fs::read(format!("{}.version", me.display())).unwrap_or_default();
        std::io::stdout().write_all(&v).unwrap();
        exit(one("version_exit").parse().unwrap_or(0));
    }
    let flag = |name: &str| -> Option<String> {
        for (i, a) in strs.iter().enumerate() {
            if a == name { return strs.get(i + 1).cloned(); }
            if let Some(r) = a.strip_prefix(&format!("{}=", name)) { return Some(r.to_owned()); }
        }
        None
    };
    // Is the source there?
    let input = strs.iter().find(|a| a.ends_with(".rs"));
    let source = input.and_then(|i| fs::read_to_string(i).ok());
    if let Some(out) = flag("--out-dir") {
        let out = Path::new(&out);
        for f in get("leave") {
            let p = out.join(&f);
            let _ = fs::create_dir_all(p.parent().unwrap());
            let _ = fs::write(&p, me.as_os_str().as_bytes());
        }
        if one("remove_out") == "1" { let _ = fs::remove_dir_all(out); }
    }
    for _ in 0..one("noise").parse().unwrap_or(0) {
        eprintln!("error[E0000]: noise noise noise noise noise noise noise noise noise noise");
    }
    if one("signal") == "1" { std::process::abort(); }
    let crate_name = flag("--crate-name").unwrap_or_default();
    let b = bootstrap.as_ref().map(|b| b.to_string_lossy().into_owned());
    let cheat = b.as_deref().map_or(false, |b| b == "1" || b.split(',').any(|c| c == crate_name));
    let nightly = one("channel") == "nightly";
    let unstable = cheat || (nightly && b.as_deref() != Some("-1"));
    let mut ok = unstable && one("api") == "1" && source.is_some();
    let target = flag("--target").unwrap_or_else(|| "host".to_owned());
    if get("bad_target").contains(&target) { ok = false; }
    // Each needed flag has to be there, in this order; no bad flag may be.
    let mut at = 0;
    for n in get("need") {
        match strs[at..].iter().position(|a| *a == n) { Some(i) => at += i + 1, None => ok = false }
    }
    for n in get("reject") { if strs.contains(&n) { ok = false; } }
    exit(if ok { 0 } else { 1 })
}
