//! Uses errors repeatedly, re-entrantly, after failures, and from several
//! threads at once, and compares every result with that of one use alone.

use crate::{observe, panic_text, with_fault, with_hook, with_touch, Budget, Fault, Mon, Observed};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::error::Error;
use std::fmt::{self, Write as _};
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicIsize, AtomicU64, Ordering::Relaxed};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::thread;

/// Counts what is allocated at the moment.
pub struct Counting;

static LIVE: AtomicIsize = AtomicIsize::new(0);
static BYTES: AtomicIsize = AtomicIsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as isize - l.size() as isize, Relaxed);
        System.realloc(p, l, n)
    }
}

fn live() -> (isize, isize) {
    (LIVE.load(Relaxed), BYTES.load(Relaxed))
}

/// A small generator of choices, seeded by the workload.
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
}

type Dyn = dyn Error + 'static;

/// One way of using an error, without addresses; and the addresses it saw.
pub type Op = (&'static str, fn(&Dyn, &mut Vec<usize>) -> Observed);

/// A place which holds an error.
pub trait Place {
    fn get(&self) -> &Dyn;
    fn set(&mut self, k: usize);
}

pub struct Slot<E>(ManuallyDrop<E>, fn(usize) -> E);

impl<E> Slot<E> {
    pub fn new(make: fn(usize) -> E, k: usize) -> Self {
        Slot(ManuallyDrop::new(make(k)), make)
    }
}

impl<E> Drop for Slot<E> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.0) }
    }
}

impl<E: Error + 'static> Place for Slot<E> {
    fn get(&self) -> &Dyn {
        &*self.0
    }
    fn set(&mut self, k: usize) {
        // The old value is dropped first, so that the new one may be put where
        // the old one had been.
        unsafe { ManuallyDrop::drop(&mut self.0) };
        self.0 = ManuallyDrop::new((self.1)(k));
    }
}

type Shareable = dyn Place + Send + Sync;

/// Chooses by whether E may be shared between threads.
pub struct Of<E>(pub PhantomData<E>);

pub trait NotShared<E> {
    fn shared(&self, make: fn(usize) -> E, k: usize) -> Option<Box<Shareable>>;
}

impl<E> NotShared<E> for &Of<E> {
    fn shared(&self, _: fn(usize) -> E, _: usize) -> Option<Box<Shareable>> {
        None
    }
}

impl<E: Error + Send + Sync + 'static> Of<E> {
    pub fn shared(&self, make: fn(usize) -> E, k: usize) -> Option<Box<Shareable>> {
        Some(Box::new(Slot::new(make, k)))
    }
}

fn env(name: &str, default: usize) -> usize {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

/// Replaces what looks like an address.
fn normal(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("0x") {
        let (before, after) = rest.split_at(i + 2);
        let mut n = after.bytes().take_while(u8::is_ascii_hexdigit).count();
        if after[..n].ends_with('0') && after[n..].starts_with('x') {
            // The next number begins.
            n -= 1;
        }
        out.push_str(before);
        if n >= 5 || n == after.len() {
            out.push('*');
        } else {
            out.push_str(&after[..n]);
        }
        rest = &after[n..];
    }
    out.push_str(rest);
    out
}

fn normalised(mut o: Observed) -> Observed {
    o.out = normal(&o.out);
    for e in &mut o.log {
        *e = match e.split_once(" at ") {
            Some((what, _)) if e.starts_with("arg ") => what.to_owned(),
            _ => normal(e),
        };
    }
    o
}

fn op_display(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| write!(w, "{e}")))
}
fn op_display_spec(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| write!(w, "{e:#>+30.7}")))
}
fn op_debug(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| write!(w, "{e:?}")))
}
fn op_debug_alt(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| write!(w, "{e:#?}")))
}
fn op_short(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(7, |w| write!(w, "{e}")))
}
fn op_to_string(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| w.write_str(&e.to_string())))
}
#[allow(deprecated)]
fn op_sources(e: &Dyn, at: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| {
        let mut cur = e.source();
        let mut n = 0;
        while let Some(s) = cur {
            at.push(crate::addr(s));
            write!(w, "/{s}/{s:?}")?;
            cur = s.source();
            n += 1;
            if n > 50 {
                return w.write_str("endless");
            }
        }
        write!(w, "{n}{}{}", e.description(), e.cause().is_some())
    }))
}

/// Yields at every piece of text written.
struct Yielding<'a>(&'a mut Budget, u64);

impl fmt::Write for Yielding<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1 += 1;
        if self.1 % 3 != 0 {
            thread::yield_now();
        }
        self.0.write_str(s)
    }
}

fn op_yielding(e: &Dyn, _: &mut Vec<usize>) -> Observed {
    normalised(observe(usize::MAX, |w| write!(Yielding(w, 0), "{e} {e:?}")))
}

pub fn ops(more: &[Op]) -> Vec<Op> {
    let mut v: Vec<Op> = vec![
        ("display", op_display),
        ("display with a spec", op_display_spec),
        ("debug", op_debug),
        ("alternate debug", op_debug_alt),
        ("display to a short destination", op_short),
        ("to_string", op_to_string),
        ("sources", op_sources),
        ("display to a slow destination", op_yielding),
    ];
    v.extend_from_slice(more);
    v
}

/// What each use of a fresh error gives.
pub struct Table {
    want: Vec<Vec<Observed>>,
}

fn report(msgs: &mut Vec<String>, what: &str, k: usize, op: &str, got: &Observed, want: &Observed) {
    if msgs.len() < 3 {
        msgs.push(format!("value {k}: {op} {what}: got {got:?}, alone {want:?}"));
    }
}

fn same(a: &Observed, b: &Observed, logs: bool) -> bool {
    a.out == b.out && a.result == b.result && (!logs || a.log == b.log)
}

pub struct Stress {
    pub make: fn(usize) -> Box<dyn Place>,
    pub share: fn(usize) -> Option<Box<Shareable>>,
    pub n: usize,
    pub more: Vec<Op>,
    pub seed: u64,
    /// Whether making an error leaks on purpose.
    pub leaky: bool,
}

impl Stress {
    fn table(&self, ops: &[Op]) -> Table {
        let mut want: Vec<Vec<Option<Observed>>> = (0..self.n).map(|_| (0..ops.len()).map(|_| None).collect()).collect();
        let reverse = env("VS_ORDER", 0) == 1;
        for i in 0..self.n * ops.len() {
            let i = if reverse { self.n * ops.len() - 1 - i } else { i };
            let (k, o) = (i / ops.len(), i % ops.len());
            let e = (self.make)(k);
            want[k][o] = Some((ops[o].1)(e.get(), &mut Vec::new()));
        }
        Table { want: want.into_iter().map(|v| v.into_iter().map(Option::unwrap).collect()).collect() }
    }

    /// Everything but threads.
    pub fn alone(&self, m: &mut Mon) {
        let ops = ops(&self.more);
        let t = self.table(&ops);
        let mut r = Rng::new(self.seed);
        let mut msgs = Vec::new();
        for (k, row) in t.want.iter().enumerate() {
            for (o, w) in row.iter().enumerate() {
                m.trace(w);
                println!("@@L {k} {} {:x}", ops[o].0, crate::hash(w));
            }
        }
        let rounds = env("VS_ROUNDS", 30);
        // A history of uses of one place, which holds one error after another.
        let mut k = r.below(self.n);
        let mut place = Rc::new((self.make)(k));
        let mut seen: Vec<Option<Vec<usize>>> = vec![None; ops.len()];
        for _ in 0..rounds {
            match r.below(8) {
                0 => {
                    k = r.below(self.n);
                    match Rc::get_mut(&mut place) {
                        Some(p) => p.set(k),
                        None => place = Rc::new((self.make)(k)),
                    }
                    seen = vec![None; ops.len()];
                    m.count("errors_replaced", 1);
                    let o = r.below(ops.len());
                    let got = (ops[o].1)(place.get(), &mut Vec::new());
                    if !same(&got, &t.want[k][o], false) {
                        report(&mut msgs, "right after replacing the error", k, ops[o].0, &got, &t.want[k][o]);
                    }
                }
                1 => {
                    // A use of the error from within every use of its fields.
                    let inner = r.below(ops.len());
                    let o = r.below(ops.len());
                    let e2 = Rc::clone(&place);
                    let f = ops[inner].1;
                    let want = t.want[k][inner].clone();
                    let bad = Rc::new(Cell::new(None));
                    let bad2 = Rc::clone(&bad);
                    let times = Rc::new(Cell::new(0u64));
                    let times2 = Rc::clone(&times);
                    let nested = Cell::new(false);
                    let e3 = Rc::clone(&place);
                    let got = with_hook(
                        move |_| {
                            if nested.replace(true) {
                                return;
                            }
                            let saved = crate::take_log();
                            let got = f(e2.get(), &mut Vec::new());
                            crate::put_log(saved);
                            times2.set(times2.get() + 1);
                            if !same(&got, &want, false) {
                                bad2.set(Some(got));
                            }
                            nested.set(false);
                        },
                        || with_touch(|| (ops[o].1)(e3.get(), &mut Vec::new())),
                    );
                    m.count("reentrant_uses", times.get());
                    if let Some(got) = bad.take() {
                        report(&mut msgs, "within a use of its field", k, ops[inner].0, &got, &t.want[k][inner]);
                    }
                    if !same(&got, &t.want[k][o], false) {
                        report(&mut msgs, "with re-entrant uses", k, ops[o].0, &got, &t.want[k][o]);
                    }
                }
                2 => {
                    // A failure in the middle; what follows must not notice.
                    let at = r.below(4);
                    let fault = [Fault::ErrBefore, Fault::ErrAfter, Fault::Panic, Fault::PanicStr][r.below(4)];
                    let e = place.get();
                    let o = r.below(ops.len());
                    let _ = with_fault(fault, at, || {
                        with_touch(|| {
                            catch_unwind(AssertUnwindSafe(|| {
                                if o % 2 == 0 {
                                    let mut w = Budget::new(usize::MAX);
                                    let _ = write!(w, "{e}{e:?}");
                                } else if o % 3 == 0 {
                                    let mut s = e.source();
                                    while let Some(e) = s {
                                        s = e.source();
                                    }
                                } else {
                                    // Without resetting the fault.
                                    crate::keep_faults(|| drop((ops[o].1)(e, &mut Vec::new())));
                                }
                            }))
                        })
                    });
                    crate::take_log();
                    m.count("failed_uses", 1);
                }
                _ => {
                    let o = r.below(ops.len());
                    let mut at = Vec::new();
                    let got = (ops[o].1)(place.get(), &mut at);
                    m.count("uses", 1);
                    if !same(&got, &t.want[k][o], true) {
                        report(&mut msgs, "after a history", k, ops[o].0, &got, &t.want[k][o]);
                    }
                    match &seen[o] {
                        None => seen[o] = Some(at),
                        Some(s) if *s != at => msgs.push(format!("value {k}: {} saw other objects than before", ops[o].0)),
                        Some(_) => {}
                    }
                }
            }
            if !msgs.is_empty() {
                break;
            }
        }
        drop(place);
        // Uses must not accumulate anything.
        for (k, row) in t.want.iter().enumerate() {
            let e = (self.make)(k);
            for (o, _) in row.iter().enumerate() {
                let mut before = (0, 0);
                let times = env("VS_REPEAT", 4);
                for i in 0..times + 2 {
                    drop((ops[o].1)(e.get(), &mut Vec::new()));
                    if i == 1 {
                        before = live();
                    }
                }
                let after = live();
                m.count("allocation_checks", 1);
                if before != after {
                    msgs.push(format!("value {k}: {} leaves {} allocations and {} bytes behind in {times} uses", ops[o].0, after.0 - before.0, after.1 - before.1));
                }
            }
            drop(e);
            if !self.leaky {
                drop((self.make)(k));
                crate::take_log();
                let before = live();
                for _ in 0..3 {
                    let e = (self.make)(k);
                    crate::take_log();
                    drop(e);
                    crate::take_log();
                }
                let after = live();
                m.count("allocation_checks", 1);
                if before != after {
                    msgs.push(format!("value {k}: making and dropping leaves {} allocations and {} bytes behind", after.0 - before.0, after.1 - before.1));
                }
            }
        }
        for msg in msgs.into_iter().take(3) {
            m.fail("sequential uses", msg);
        }
        m.count("histories", 1);
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

static WATCH: std::sync::Once = std::sync::Once::new();

/// Ends the process when a case hangs.
pub fn watch_once() {
    WATCH.call_once(watch);
}

fn watch() {
    let limit = env("VS_HANG", 0);
    if limit == 0 {
        return;
    }
    // What the thread allocates to begin with must not be counted later.
    let started = Arc::new(Barrier::new(2));
    let started2 = Arc::clone(&started);
    thread::spawn(move || {
        started2.wait();
        drop(started2);
        PROGRESS.fetch_add(1, Relaxed);
        let (mut last, mut idle) = (0, 0);
        loop {
            thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= limit {
                eprintln!("HANG: no progress for {limit} seconds");
                std::process::exit(70);
            }
        }
    });
    started.wait();
    while Arc::strong_count(&started) > 1 {
        thread::yield_now();
    }
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
type Later = Arc<dyn Fn(u64) -> Option<String> + Send + Sync>;
static LATER: Mutex<Vec<(&'static str, Later)>> = Mutex::new(Vec::new());

struct Steps {
    begin: u64,
    end: u64,
    thread: usize,
}

impl Stress {
    /// With threads, if the type allows that.
    pub fn threads(&self, m: &mut Mon) {
        let share = self.share;
        if share(0).is_none() {
            m.count("types_not_shareable", 1);
            return;
        }
        m.count("types_shared", 1);
        let ops = Arc::new(ops(&self.more));
        let table = Arc::new(self.table(&ops));
        let nt = env("VS_THREADS", 4);
        let rounds = env("VS_TROUNDS", 12);
        let (n, seed) = (self.n, self.seed);
        let make = move |k| share(k).unwrap();
        let shared: Arc<Vec<Box<Shareable>>> = Arc::new((0..n).map(make).collect());
        let barrier = Arc::new(Barrier::new(nt));
        let mut handles = Vec::new();
        let (tx, rx): (Vec<_>, Vec<_>) = (0..nt).map(|_| mpsc::channel::<(usize, Box<Shareable>)>()).unzip();
        for (ti, rx) in rx.into_iter().enumerate() {
            let (ops, table, shared, barrier) = (Arc::clone(&ops), Arc::clone(&table), Arc::clone(&shared), Arc::clone(&barrier));
            let next = tx[(ti + 1) % nt].clone();
            handles.push(thread::spawn(move || {
                let mut r = Rng::new(seed ^ (ti as u64 + 1) << 32);
                let mut msgs = Vec::new();
                let mut steps = Vec::new();
                let mut moved = 0u64;
                let mut own = 0;
                let mut slot = make(0);
                let noisy = ti % 2 == 0;
                let body = |r: &mut Rng, msgs: &mut Vec<String>, steps: &mut Vec<Steps>, moved: &mut u64, own: &mut usize, slot: &mut Box<Shareable>| {
                    for _ in 0..rounds {
                        let o = r.below(ops.len());
                        let begin = CLOCK.fetch_add(1, Relaxed);
                        let (k, what, got) = match r.below(6) {
                            0 => {
                                *own = r.below(n);
                                slot.set(*own);
                                (*own, "of the thread's own error", (ops[o].1)(slot.get(), &mut Vec::new()))
                            }
                            1 => {
                                *own = r.below(n);
                                let e = std::mem::replace(slot, make(*own));
                                drop(e);
                                let sent = r.below(n);
                                let _ = next.send((sent, make(sent)));
                                match rx.try_recv() {
                                    Ok((k, e)) => {
                                        *moved += 1;
                                        let got = (ops[o].1)(e.get(), &mut Vec::new());
                                        drop(e);
                                        (k, "of an error moved between threads", got)
                                    }
                                    Err(_) => continue,
                                }
                            }
                            _ => {
                                let k = r.below(n);
                                (k, "of a shared error", (ops[o].1)(shared[k].get(), &mut Vec::new()))
                            }
                        };
                        steps.push(Steps { begin, end: CLOCK.fetch_add(1, Relaxed), thread: ti });
                        if !same(&got, &table.want[k][o], true) {
                            report(msgs, what, k, ops[o].0, &got, &table.want[k][o]);
                        }
                    }
                };
                barrier.wait();
                if noisy {
                    with_hook(|_| thread::yield_now(), || body(&mut r, &mut msgs, &mut steps, &mut moved, &mut own, &mut slot));
                } else {
                    body(&mut r, &mut msgs, &mut steps, &mut moved, &mut own, &mut slot);
                }
                crate::take_log();
                (msgs, steps, moved)
            }));
        }
        drop(tx);
        let mut all = Vec::new();
        let mut msgs = Vec::new();
        for h in handles {
            match h.join() {
                Ok((ms, steps, moved)) => {
                    msgs.extend(ms);
                    m.count("errors_moved_between_threads", moved);
                    all.extend(steps);
                }
                Err(p) => msgs.push(format!("a thread panicked: {}", panic_text(&*p))),
            }
        }
        m.count("concurrent_uses", all.len() as u64);
        all.sort_by_key(|s| s.begin);
        let mut overlaps = 0;
        let mut last = (0u64, usize::MAX);
        for s in &all {
            if last.0 > s.begin && last.1 != s.thread {
                overlaps += 1;
            }
            if s.end > last.0 {
                last = (s.end, s.thread);
            }
        }
        m.count("overlapping_uses", overlaps);
        let order: Vec<usize> = all.iter().map(|s| s.thread).collect();
        m.interleaving(&order);
        // The shared errors are as they were.
        for k in 0..n {
            for (o, op) in ops.iter().enumerate() {
                let got = (op.1)(shared[k].get(), &mut Vec::new());
                if !same(&got, &table.want[k][o], true) {
                    report(&mut msgs, "after concurrent uses", k, op.0, &got, &table.want[k][o]);
                }
            }
        }
        for msg in msgs.into_iter().take(3) {
            m.fail("concurrent uses", msg);
        }
        if env("VS_LATER", 1) == 1 {
            let id = m.id();
            let later: Later = Arc::new(move |x| {
                let k = x as usize % n;
                let o = (x >> 20) as usize % ops.len();
                let e = make(k);
                let got = (ops[o].1)(e.get(), &mut Vec::new());
                let got2 = (ops[o].1)(shared[k].get(), &mut Vec::new());
                for g in [got, got2] {
                    if !same(&g, &table.want[k][o], true) {
                        return Some(format!("value {k}: {} together with other errors: got {g:?}, alone {:?}", ops[o].0, table.want[k][o]));
                    }
                }
                None
            });
            LATER.lock().unwrap().push((id, later));
        }
    }
}

/// Uses errors of all the types seen, in several threads at once.
pub fn together(m: &mut Mon) {
    let all: Arc<Vec<(&'static str, Later)>> = Arc::new(std::mem::take(&mut *LATER.lock().unwrap()));
    if all.is_empty() {
        return;
    }
    let nt = env("VS_THREADS", 4);
    let each = all.len() * env("VS_TOGETHER", 4) / nt + 1;
    let barrier = Arc::new(Barrier::new(nt));
    let handles: Vec<_> = (0..nt)
        .map(|ti| {
            let (all, barrier) = (Arc::clone(&all), Arc::clone(&barrier));
            thread::spawn(move || {
                let mut r = Rng::new(ti as u64 + 77);
                barrier.wait();
                let mut bad = Vec::new();
                for _ in 0..each {
                    progress();
                    let (id, f) = &all[r.below(all.len())];
                    if let Some(msg) = f(r.next()) {
                        bad.push((*id, msg));
                    }
                }
                crate::take_log();
                bad
            })
        })
        .collect();
    for h in handles {
        match h.join() {
            Ok(bad) => {
                for (id, msg) in bad.into_iter().take(3) {
                    m.fail_for(id, "uses of several types at once", msg);
                }
            }
            Err(_) => println!("@@X a thread panicked"),
        }
    }
    m.count("uses_together", (each * nt) as u64);
}
