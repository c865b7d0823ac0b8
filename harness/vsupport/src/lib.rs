//! Runtime monitors used by the generated workloads. This crate does not
//! depend on thiserror: it observes derived errors from outside, through the
//! standard traits, and compares what it sees with a handwritten twin.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display, Formatter, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub mod probe;
pub mod stress;
pub use probe::*;

// ---------------------------------------------------------------- event log

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static LOGGING: Cell<bool> = const { Cell::new(true) };
}

/// Appends an event to this thread's log.
pub fn event(text: String) {
    let _ = LOG.try_with(|log| {
        if let Ok(mut log) = log.try_borrow_mut() {
            log.push(text);
        }
    });
}

pub fn take_log() -> Vec<String> {
    LOG.with(|log| std::mem::take(&mut *log.borrow_mut()))
}

pub fn put_log(log: Vec<String>) {
    LOG.with(|l| *l.borrow_mut() = log);
}

/// An expression with an observable evaluation.
pub fn eval<T>(id: u32, value: T) -> T {
    event(format!("eval#{id}"));
    value
}

// ------------------------------------------------------------------ writers

/// A destination which accepts `left` bytes and then fails.
pub struct Budget {
    pub left: usize,
    pub out: String,
    pub calls_after_error: usize,
    failed: bool,
}

impl Budget {
    pub fn new(left: usize) -> Self {
        Budget {
            left,
            out: String::new(),
            calls_after_error: 0,
            failed: false,
        }
    }
}

impl fmt::Write for Budget {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.calls_after_error += 1;
            event("write-after-error".to_owned());
            return Err(fmt::Error);
        }
        if s.len() <= self.left {
            self.left -= s.len();
            self.out.push_str(s);
            return Ok(());
        }
        let mut end = self.left;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        self.out.push_str(&s[..end]);
        self.left = 0;
        self.failed = true;
        event("write-failed".to_owned());
        Err(fmt::Error)
    }
}

thread_local! {
    static KEEP: Cell<bool> = const { Cell::new(false) };
}

/// `observe` without resetting the armed fault.
pub fn keep_faults<R>(f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            KEEP.with(|k| k.set(false));
        }
    }
    KEEP.with(|k| k.set(true));
    let _reset = Reset;
    f()
}

/// Everything that can be observed of one formatting call.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Observed {
    pub out: String,
    pub result: Result<bool, String>,
    pub log: Vec<String>,
}

impl Debug for Observed {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(
            f,
            "[text {:?} result {} events {:?}]",
            self.out,
            match &self.result {
                Ok(true) => "Ok".to_owned(),
                Ok(false) => "Err".to_owned(),
                Err(p) => format!("panic({p})"),
            },
            self.log
        )
    }
}

pub fn panic_text(payload: &(dyn Any + Send)) -> String {
    if let Some(s) = payload.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else if let Some(p) = payload.downcast_ref::<ProbePanic>() {
        format!("ProbePanic({})", p.0)
    } else {
        "non-string panic".to_owned()
    }
}

/// Runs `write` on a writer with the given budget and records what happens.
pub fn observe(budget: usize, write: impl FnOnce(&mut Budget) -> fmt::Result) -> Observed {
    take_log();
    if !KEEP.with(|k| k.get()) {
        reset_faults();
    }
    let mut w = Budget::new(budget);
    let r = catch_unwind(AssertUnwindSafe(|| write(&mut w)));
    let log = take_log();
    Observed {
        out: w.out,
        result: match r {
            Ok(r) => Ok(r.is_ok()),
            Err(p) => Err(panic_text(&*p)),
        },
        log,
    }
}

/// The outer format options under which a value is displayed.
pub const OUTERS: usize = 12;

pub fn show(i: usize, w: &mut Budget, d: &dyn Display) -> fmt::Result {
    match i {
        0 => write!(w, "{}", d),
        1 => write!(w, "{:>40}", d),
        2 => write!(w, "{:*^7.3}", d),
        3 => write!(w, "{:#}", d),
        4 => write!(w, "{:+}", d),
        5 => write!(w, "{:012}", d),
        6 => write!(w, "{:.2}", d),
        7 => write!(w, "{:<1$}", d, 30),
        8 => write!(w, "{:é>#09.1$}", d, 5),
        9 => write!(w, "{:-}", d),
        10 => write!(w, "{:^+#020.4}", d),
        _ => w.write_str(&d.to_string()),
    }
}

pub fn show_debug(i: usize, w: &mut Budget, d: &dyn Debug) -> fmt::Result {
    match i {
        0 => write!(w, "{:?}", d),
        1 => write!(w, "{:#?}", d),
        2 => write!(w, "{:x?}", d),
        _ => write!(w, "{:>#010X?}", d),
    }
}

// ------------------------------------------------------------------ monitor

#[derive(Default)]
pub struct Mon {
    case: &'static str,
    failed: bool,
    pub failures: usize,
    pub counts: BTreeMap<&'static str, u64>,
    pub traces: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub fault_every: usize,
    interleavings: BTreeSet<u64>,
    /// Print what is observed, for comparison with other executions.
    pub emit: bool,
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

pub fn hash(t: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Mon {
    pub fn new() -> Self {
        std::panic::set_hook(Box::new(|_| {}));
        Mon {
            fault_every: 1,
            emit: std::env::var_os("VS_EMIT").is_some(),
            ..Mon::default()
        }
    }

    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }

    pub fn trace(&mut self, t: &impl Hash) {
        let h = hash(t);
        self.traces.insert(h);
    }

    /// Runs one case; a panic that escapes it is a failure of the case.
    pub fn case(&mut self, id: &'static str, f: fn(&mut Mon)) {
        println!("@@C {id}");
        stress::progress();
        self.case = id;
        self.failed = false;
        reset_all();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        reset_all();
        if let Err(p) = r {
            self.fail("case", format!("panicked: {}", panic_text(&*p)));
        }
        self.count("cases", 1);
        println!("@@E {id}");
    }

    pub fn fail(&mut self, label: &str, msg: String) {
        self.failed = true;
        self.failures += 1;
        println!("@@F {}|{}|{}", self.case, escape(label), escape(&msg));
    }

    pub fn fail_for(&mut self, case: &'static str, label: &str, msg: String) {
        self.case = case;
        self.fail(label, msg);
    }

    pub fn id(&self) -> &'static str {
        self.case
    }

    pub fn interleaving(&mut self, order: &[usize]) {
        let h = hash(&order);
        if self.interleavings.insert(h) {
            self.count("distinct_interleavings", 1);
        }
    }

    pub fn check(&mut self, label: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.count("checks", 1);
        if !ok {
            self.fail(label, msg());
        }
    }

    pub fn eq<T: PartialEq + Debug>(&mut self, label: &str, got: T, want: T) {
        self.count("checks", 1);
        if got != want {
            self.fail(label, format!("got {got:?}, want {want:?}"));
        }
    }

    fn compare(&mut self, label: String, got: Observed, want: Observed) -> Observed {
        self.count("displays", 1);
        self.count("events", got.log.len() as u64);
        self.trace(&want);
        if self.emit {
            println!("@@L {label} {}", escape(&format!("{got:?}")));
        }
        if got != want {
            self.fail(&label, format!("derived {got:?}, handwritten {want:?}"));
        } else if self.samples.len() < 3 {
            let s = format!("{} {}: {:?}", self.case, label, got);
            if s.len() < 600 {
                self.samples.push(s);
            }
        }
        want
    }

    /// The derived Display must behave like the handwritten one under every
    /// outer format option.
    pub fn display(&mut self, label: &str, got: &dyn Display, want: &dyn Display) {
        for i in 0..OUTERS {
            let g = observe(usize::MAX, |w| show(i, w, got));
            let r = observe(usize::MAX, |w| show(i, w, want));
            self.compare(format!("{label} outer {i}"), g, r);
        }
    }

    /// Display once, without options.
    pub fn display1(&mut self, label: &str, got: &dyn Display, want: &dyn Display) {
        let g = observe(usize::MAX, |w| show(0, w, got));
        let r = observe(usize::MAX, |w| show(0, w, want));
        self.compare(label.to_owned(), g, r);
    }

    /// source() must be one of the wanted objects, or None; asking must call
    /// nothing else and give the same answer again.
    pub fn source(&mut self, label: &str, e: &(dyn std::error::Error + 'static), want: Option<Vec<Want>>) {
        self.count("sources_asked", 1);
        take_log();
        let got = e.source();
        let log = take_log();
        let again = e.source();
        take_log();
        let wanted: Vec<_> = want.iter().flatten().map(|w| (w.ty, w.addr)).collect();
        match (got, &want) {
            (None, None) => self.count("sources_none", 1),
            (Some(g), Some(ws)) => {
                if !ws.iter().any(|w| w.addr == addr(g) && (w.is)(g)) {
                    self.fail(label, format!("source() returned {g:?} at {:x}, wanted one of {wanted:x?}", addr(g)));
                }
                self.count("sources_some", 1);
            }
            (Some(g), None) => self.fail(label, format!("source() returned {g:?}, wanted None")),
            (None, Some(_)) => self.fail(label, format!("source() returned None, wanted one of {wanted:x?}")),
        }
        if got.map(addr) != again.map(addr) {
            self.fail(label, "source() answered differently the second time".to_owned());
        }
        if !log.is_empty() {
            self.fail(label, format!("source() caused {log:?}"));
        }
        if self.emit {
            println!("@@L {label} source {:?} {}", got.map(|g| g.to_string()), self.failures);
        }
        let t = (label, wanted.iter().map(|w| w.0).collect::<Vec<_>>());
        let h = hash(&(self.case, &t));
        self.traces.insert(h);
        if self.samples.len() < 3 {
            self.samples.push(format!("{} {}: source is {:?}", self.case, label, got.map(|_| &t.1)));
        }
    }

    /// For transparent errors: source() is the inner error's own source.
    pub fn same_source(&mut self, label: &str, e: &(dyn std::error::Error + 'static), inner: &(dyn std::error::Error + 'static)) {
        self.count("sources_asked", 1);
        let want = inner.source();
        take_log();
        let got = e.source();
        take_log();
        let id = |e: &(dyn std::error::Error + 'static)| (addr(e), format!("{e:?}"));
        match (got, want) {
            (None, None) => self.count("sources_none", 1),
            (Some(g), Some(w)) => {
                self.count("sources_some", 1);
                if !std::ptr::eq(g as *const dyn std::error::Error as *const (), w as *const dyn std::error::Error as *const ()) || id(g) != id(w) {
                    self.fail(label, format!("source() is {:x?}, the inner error's is {:x?}", id(g), id(w)));
                }
            }
            (g, w) => self.fail(label, format!("source() is {:?}, the inner error's is {:?}", g.map(id), w.map(id))),
        }
        take_log();
        if self.emit {
            println!("@@L {label} source {:?}", got.map(|g| g.to_string()));
        }
        let h = hash(&(self.case, label, want.is_some()));
        self.traces.insert(h);
    }

    /// Injects a failing destination at every byte, and failing and panicking
    /// fields at every formatting call, and compares with the twin.
    pub fn faults(&mut self, label: &str, got: &dyn Display, want: &dyn Display) {
        let clean = observe(usize::MAX, |w| show(0, w, want));
        let n = clean.out.len();
        let step = 1 + n / 400;
        let mut k = 0;
        while k <= n {
            let g = observe(k, |w| show(0, w, got));
            let r = observe(k, |w| show(0, w, want));
            let want = self.compare(format!("{label} destination fails after byte {k}"), g.clone(), r);
            self.count("destination_faults", 1);
            // Absolute rules, independent of the twin.
            if k < n && g.result == Ok(true) {
                self.fail(label, format!("destination failed after byte {k} but Ok was returned"));
            }
            if !clean.out.starts_with(&g.out) {
                self.fail(label, format!("destination failed after byte {k}: text {:?} is not a prefix of {:?}", g.out, clean.out));
            }
            if g.log.iter().any(|e| e == "write-after-error") {
                self.fail(label, format!("destination failed after byte {k} and was written to again"));
            }
            let _ = want;
            k += step;
        }
        let calls = clean.log.iter().filter(|e| e.starts_with("fmt#")).count();
        for fault in [Fault::ErrBefore, Fault::ErrAfter, Fault::Panic, Fault::PanicStr] {
            for call in 0..calls {
                let g = with_fault(fault, call, || observe_keep(usize::MAX, |w| show(0, w, got)));
                let r = with_fault(fault, call, || observe_keep(usize::MAX, |w| show(0, w, want)));
                if !clean.out.starts_with(&g.out) {
                    self.fail(label, format!("{fault:?} in formatting call {call}: text {:?} is not a prefix of {:?}", g.out, clean.out));
                }
                let done = g.log.iter().filter(|e| e.starts_with("fmt#")).count();
                if done != call + 1 {
                    self.fail(label, format!("{fault:?} in formatting call {call}: {done} formatting calls were made"));
                }
                match (&g.result, fault) {
                    (Ok(false), Fault::ErrBefore | Fault::ErrAfter) => {}
                    (Err(_), Fault::Panic | Fault::PanicStr) => {}
                    _ => self.fail(label, format!("{fault:?} in formatting call {call}: result {:?}", g.result)),
                }
                self.count("field_faults", 1);
                self.compare(format!("{label} {fault:?} in formatting call {call}"), g, r);
            }
        }
        let mut evals = BTreeMap::new();
        for e in clean.log.iter().filter(|e| e.starts_with("eval#")) {
            *evals.entry(e.clone()).or_insert(0) += 1;
        }
        self.count("argument_evaluations", evals.values().sum::<u64>());
    }

    pub fn finish(&mut self) {
        stress::together(self);
        let mut s = String::from("@@S {");
        let _ = write!(s, "\"counts\":{{");
        for (i, (k, v)) in self.counts.iter().enumerate() {
            let _ = write!(s, "{}\"{k}\":{v}", if i > 0 { "," } else { "" });
        }
        let _ = write!(s, "}},\"traces\":[");
        for (i, h) in self.traces.iter().enumerate() {
            let _ = write!(s, "{}\"{h:x}\"", if i > 0 { "," } else { "" });
        }
        let _ = write!(s, "],\"samples\":[");
        for (i, t) in self.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json_str(t));
        }
        s.push_str("]}");
        println!("{s}");
    }
}

pub fn json_str(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

fn observe_keep(budget: usize, write: impl FnOnce(&mut Budget) -> fmt::Result) -> Observed {
    // Like `observe`, without resetting the armed fault.
    take_log();
    let mut w = Budget::new(budget);
    let r = catch_unwind(AssertUnwindSafe(|| write(&mut w)));
    let log = take_log();
    Observed {
        out: w.out,
        result: match r {
            Ok(r) => Ok(r.is_ok()),
            Err(p) => Err(panic_text(&*p)),
        },
        log,
    }
}

/// Re-raises a panic caught by a workload.
pub fn rethrow(p: Box<dyn Any + Send>) -> ! {
    resume_unwind(p)
}
