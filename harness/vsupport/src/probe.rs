//! Field types whose every use is observable.

use crate::event;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::error::Error;
use std::fmt::{self, Alignment, Formatter};
use std::ops::Deref;
use std::rc::Rc;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    ErrBefore,
    ErrAfter,
    Panic,
    PanicStr,
}

pub struct ProbePanic(pub u32);

type Hook = Rc<dyn Fn(u32)>;

thread_local! {
    static ARMED: Cell<Option<(Fault, usize)>> = const { Cell::new(None) };
    static CALL: Cell<usize> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static DROPS: RefCell<HashMap<u32, u32>> = RefCell::new(HashMap::new());
}

pub fn reset_faults() {
    ARMED.with(|a| a.set(None));
    CALL.with(|c| c.set(0));
}

pub fn reset_all() {
    reset_faults();
    TOUCH.with(|t| t.set(false));
    HOOK.with(|h| *h.borrow_mut() = None);
    DROPS.with(|d| d.borrow_mut().clear());
    crate::take_log();
}

pub fn with_fault<R>(fault: Fault, call: usize, f: impl FnOnce() -> R) -> R {
    ARMED.with(|a| a.set(Some((fault, call))));
    CALL.with(|c| c.set(0));
    let r = f();
    reset_faults();
    r
}

/// Runs `hook` inside every formatting call of a probe (for re-entrancy).
pub fn with_hook<R>(hook: impl Fn(u32) + 'static, f: impl FnOnce() -> R) -> R {
    HOOK.with(|h| *h.borrow_mut() = Some(Rc::new(hook)));
    let r = f();
    HOOK.with(|h| *h.borrow_mut() = None);
    r
}

thread_local! {
    static TOUCH: Cell<bool> = const { Cell::new(false) };
}

/// Lets hooks and faults act on other calls than formatting ones too.
pub fn with_touch<R>(f: impl FnOnce() -> R) -> R {
    TOUCH.with(|t| t.set(true));
    let r = f();
    TOUCH.with(|t| t.set(false));
    r
}

/// A call, other than for formatting, of something of the field's own.
pub fn touch(id: u32) {
    if !TOUCH.with(|t| t.get()) {
        return;
    }
    let n = CALL.with(|c| c.replace(c.get() + 1));
    let fault = ARMED.with(|a| a.get()).filter(|(_, at)| *at == n).map(|(fault, _)| fault);
    let hook = HOOK.with(|h| h.borrow().clone());
    if let Some(hook) = hook {
        hook(id);
    }
    match fault {
        Some(Fault::Panic) => std::panic::panic_any(ProbePanic(id)),
        Some(Fault::PanicStr) => panic!("probe {id} panicked"),
        _ => {}
    }
}

fn options(f: &Formatter) -> String {
    let mut s = String::new();
    if f.fill() != ' ' {
        s.push_str(&format!("fill{:?}", f.fill()));
    }
    match f.align() {
        Some(Alignment::Left) => s.push('<'),
        Some(Alignment::Right) => s.push('>'),
        Some(Alignment::Center) => s.push('^'),
        None => {}
    }
    if f.sign_plus() {
        s.push('+');
    }
    if f.sign_minus() {
        s.push('-');
    }
    if f.alternate() {
        s.push('#');
    }
    if f.sign_aware_zero_pad() {
        s.push('0');
    }
    if let Some(w) = f.width() {
        s.push_str(&format!("w{w}"));
    }
    if let Some(p) = f.precision() {
        s.push_str(&format!(".{p}"));
    }
    s
}

/// One observed formatting call: logs trait, identity and options, applies an
/// armed fault, and writes text in several pieces.
pub fn call(what: &str, id: u32, f: &mut Formatter) -> fmt::Result {
    let opts = options(f);
    event(format!("fmt#{id}:{what}:{opts}"));
    let n = CALL.with(|c| c.replace(c.get() + 1));
    let fault = ARMED
        .with(|a| a.get())
        .filter(|(_, at)| *at == n)
        .map(|(fault, _)| fault);
    if fault == Some(Fault::ErrBefore) {
        return Err(fmt::Error);
    }
    let hook = HOOK.with(|h| h.borrow().clone());
    if let Some(hook) = hook {
        hook(id);
    }
    f.write_str("⟨")?;
    match fault {
        Some(Fault::ErrAfter) => return Err(fmt::Error),
        Some(Fault::Panic) => std::panic::panic_any(ProbePanic(id)),
        Some(Fault::PanicStr) => panic!("probe {id} panicked"),
        _ => {}
    }
    write!(f, "{id}")?;
    f.write_str(what)?;
    f.write_str(&opts)?;
    if what == "?" {
        // Makes {:x?} and {:X?} visible.
        fmt::Debug::fmt(&0xabu8, f)?;
    }
    f.write_str("⟩")
}

macro_rules! fmt_impl {
    ($ty:ident Display) => { fmt_impl!(@ $ty Display "d"); };
    ($ty:ident Debug) => { fmt_impl!(@ $ty Debug "?"); };
    ($ty:ident Octal) => { fmt_impl!(@ $ty Octal "o"); };
    ($ty:ident LowerHex) => { fmt_impl!(@ $ty LowerHex "x"); };
    ($ty:ident UpperHex) => { fmt_impl!(@ $ty UpperHex "X"); };
    ($ty:ident Pointer) => { fmt_impl!(@ $ty Pointer "p"); };
    ($ty:ident Binary) => { fmt_impl!(@ $ty Binary "b"); };
    ($ty:ident LowerExp) => { fmt_impl!(@ $ty LowerExp "e"); };
    ($ty:ident UpperExp) => { fmt_impl!(@ $ty UpperExp "E"); };
    (@ $ty:ident $tr:ident $c:literal) => {
        impl fmt::$tr for $ty {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                call($c, self.id, f)
            }
        }
    };
}

macro_rules! probe_type {
    ($name:ident: $($tr:ident)*) => {
        pub struct $name {
            pub id: u32,
        }
        impl $name {
            pub const fn new(id: u32) -> Self {
                $name { id }
            }
        }
        $(fmt_impl!($name $tr);)*
    };
}

probe_type!(Probe: Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
probe_type!(NoTrait:);
probe_type!(OnlyDisplay: Display);
probe_type!(OnlyDebug: Debug);
probe_type!(OnlyOctal: Octal);
probe_type!(OnlyLowerHex: LowerHex);
probe_type!(OnlyUpperHex: UpperHex);
probe_type!(OnlyPointer: Pointer);
probe_type!(OnlyBinary: Binary);
probe_type!(OnlyLowerExp: LowerExp);
probe_type!(OnlyUpperExp: UpperExp);
probe_type!(AllButDisplay: Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
probe_type!(AllButDebug: Display Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
probe_type!(AllButOctal: Display Debug LowerHex UpperHex Pointer Binary LowerExp UpperExp);
probe_type!(AllButLowerHex: Display Debug Octal UpperHex Pointer Binary LowerExp UpperExp);
probe_type!(AllButUpperHex: Display Debug Octal LowerHex Pointer Binary LowerExp UpperExp);
probe_type!(AllButPointer: Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp);
probe_type!(AllButBinary: Display Debug Octal LowerHex UpperHex Pointer LowerExp UpperExp);
probe_type!(AllButLowerExp: Display Debug Octal LowerHex UpperHex Pointer Binary UpperExp);
probe_type!(AllButUpperExp: Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp);

impl Clone for Probe {
    fn clone(&self) -> Self {
        event(format!("clone#{}", self.id));
        Probe { id: self.id }
    }
}

impl PartialEq for Probe {
    fn eq(&self, other: &Self) -> bool {
        self.id == other.id
    }
}

impl Probe {
    pub fn num(&self) -> u32 {
        self.id
    }
    pub fn text(&self) -> String {
        format!("P{}", self.id)
    }
    pub fn add(&self, n: u32) -> u32 {
        self.id.wrapping_add(n)
    }
}

/// Forwards `{:p}` to the value behind the reference.
pub struct PtrOf<'a, T: ?Sized>(pub &'a T);

impl<T: fmt::Pointer + ?Sized> fmt::Pointer for PtrOf<'_, T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        fmt::Pointer::fmt(self.0, f)
    }
}

// -------------------------------------------------------------- error types

/// A concrete error with observable formatting and an optional own source.
pub struct Leaf {
    pub id: u32,
    pub inner: Option<Box<dyn Error + Send + Sync>>,
}

impl Leaf {
    pub fn new(id: u32) -> Self {
        Leaf { id, inner: None }
    }
    pub fn over(id: u32, inner: impl Error + Send + Sync + 'static) -> Self {
        Leaf {
            id,
            inner: Some(Box::new(inner)),
        }
    }
}

fmt_impl!(Leaf Display);
fmt_impl!(Leaf Debug);

impl Error for Leaf {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        event(format!("source#{}", self.id));
        touch(self.id);
        match &self.inner {
            Some(e) => Some(&**e),
            None => None,
        }
    }
}

/// A second concrete error type, distinct from `Leaf`.
pub struct Leaf2 {
    pub id: u32,
}

impl Leaf2 {
    pub fn new(id: u32) -> Self {
        Leaf2 { id }
    }
}

fmt_impl!(Leaf2 Display);
fmt_impl!(Leaf2 Debug);
impl Error for Leaf2 {}

/// A zero-sized error.
#[derive(Debug, Clone, Copy, Default)]
pub struct Unit;

impl fmt::Display for Unit {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.write_str("unit")
    }
}

impl Error for Unit {}

/// A numbered family of distinct error types (for #[from]).
pub struct Nth<const N: u32> {
    pub id: u32,
}

impl<const N: u32> Nth<N> {
    pub fn new(id: u32) -> Self {
        Nth { id }
    }
}

impl<const N: u32> fmt::Display for Nth<N> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        call("d", self.id, f)
    }
}

impl<const N: u32> fmt::Debug for Nth<N> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        call("?", self.id, f)
    }
}

impl<const N: u32> Error for Nth<N> {}

/// A distinct error type per index; neither Clone nor Copy; counts its drops.
pub struct Tracked<const N: u32> {
    pub id: u32,
    pub heap: Box<u64>,
}

impl<const N: u32> Tracked<N> {
    pub fn new(id: u32) -> Self {
        Tracked {
            id,
            heap: Box::new(u64::from(id) * 7919 + 13),
        }
    }
    pub fn intact(&self) -> bool {
        *self.heap == u64::from(self.id) * 7919 + 13
    }
}

impl<const N: u32> Drop for Tracked<N> {
    fn drop(&mut self) {
        event(format!("drop#{}", self.id));
        DROPS.with(|d| *d.borrow_mut().entry(self.id).or_insert(0) += 1);
    }
}

pub fn drops(id: u32) -> u32 {
    DROPS.with(|d| d.borrow().get(&id).copied().unwrap_or(0))
}

impl<const N: u32> fmt::Display for Tracked<N> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        call("d", self.id, f)
    }
}

impl<const N: u32> fmt::Debug for Tracked<N> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        call("?", self.id, f)
    }
}

impl<const N: u32> Error for Tracked<N> {}

/// A smart pointer which is not itself an error.
pub struct Smart<T: ?Sized>(pub Box<T>);

impl<T: ?Sized> Deref for Smart<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for Smart<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}

impl<T: ?Sized + fmt::Display> fmt::Display for Smart<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}

/// An error type which also dereferences to another error: must be used itself.
pub struct DerefErr {
    pub id: u32,
    pub target: Box<dyn Error + Send + Sync>,
}

impl DerefErr {
    pub fn new(id: u32) -> Self {
        DerefErr {
            id,
            target: Box::new(Leaf::new(id + 1)),
        }
    }
}

fmt_impl!(DerefErr Display);
fmt_impl!(DerefErr Debug);

impl Error for DerefErr {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&*self.target)
    }
}

impl Deref for DerefErr {
    type Target = dyn Error + Send + Sync;
    fn deref(&self) -> &Self::Target {
        &*self.target
    }
}

/// The data address of an error object.
pub fn addr(e: &(dyn Error + 'static)) -> usize {
    e as *const dyn Error as *const () as usize
}

pub fn addr_of<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const () as usize
}

/// What source() may return: an object at this address, of this type.
pub struct Want {
    pub addr: usize,
    pub is: fn(&(dyn Error + 'static)) -> bool,
    pub ty: &'static str,
}

pub fn want<T: Error + 'static>(t: &T) -> Want {
    Want {
        addr: addr_of(t),
        is: |e| e.is::<T>(),
        ty: std::any::type_name::<T>(),
    }
}

/// The object behind a trait object whose concrete type is known to be `T`.
pub fn want_dyn<T: Error + 'static>(e: &(dyn Error + 'static)) -> Want {
    assert!(e.is::<T>(), "workload: not the expected concrete type");
    Want {
        addr: addr(e),
        is: |e| e.is::<T>(),
        ty: std::any::type_name::<T>(),
    }
}

/// Whether a concrete type implements a trait, decided by name resolution.
#[macro_export]
macro_rules! impls {
    ($t:ty : $($tr:tt)+) => {{
        #[allow(dead_code)]
        trait No {
            const V: bool = false;
        }
        impl<T: ?Sized> No for T {}
        #[allow(dead_code)]
        struct W<T: ?Sized>(::core::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)+> W<T> {
            const V: bool = true;
        }
        <W<$t>>::V
    }};
}
