//! The seams through which nondeterminism and faults reach the system under test:
//!
//! * the process' source of entropy (`getrandom`), which seeds every hash map of the crate: replaced
//!   by a function of the run's hash seed;
//! * the global logger, the one callback the crate makes from inside its operations: it can be off,
//!   render its records, unwind at a chosen record, or do work in a document of its own;
//! * panics, which are recorded instead of printed.
//!
//! The other two, the `fmt::Write` sink and the `BufRead` source, are arguments of calls and live in
//! `world.rs` and `psim.rs`.

use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use xml_dom::level2::*;

// -------------------------------------------------------------------------------------- entropy

static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static ENTROPY_CALLS: AtomicU64 = AtomicU64::new(0);

/// # Safety
/// Same contract as getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    ENTROPY_CALLS.fetch_add(1, Ordering::SeqCst);
    let mut r = Rng::new(HASH_SEED.load(Ordering::SeqCst));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

pub fn set_hash_seed(seed: u64) {
    HASH_SEED.store(seed, Ordering::SeqCst);
}

pub fn entropy_calls() -> u64 {
    ENTROPY_CALLS.load(Ordering::SeqCst)
}

// --------------------------------------------------------------------------------------- logger

/// Payload of an unwind injected by the simulator.
pub struct SimUnwind;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LogMode {
    /// Logging is disabled.
    Off,
    /// Records are rendered and thrown away.
    Render,
    /// Records are written into an XML document owned by the logger.
    Document,
}

thread_local! {
    static MODE: Cell<LogMode> = const { Cell::new(LogMode::Off) };
    static PANIC_AT: Cell<u32> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static DOC: RefCell<Option<LogDoc>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A client that is called back from inside operations of others.
pub struct LogDoc {
    pub document: RefNode,
    pub root: RefNode,
    pub expected: Vec<(String, String)>,
    pub count: u64,
}

struct SimLogger;

impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, record: &log::Record<'_>) {
        if BUSY.with(|b| b.get()) {
            return;
        }
        BUSY.with(|b| b.set(true));
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                BUSY.with(|b| b.set(false));
            }
        }
        let _reset = Reset;
        let text = format!("{}", record.args());
        if MODE.with(|m| m.get()) == LogMode::Document {
            DOC.with(|d| {
                if let Some(d) = d.borrow_mut().as_mut() {
                    d.record(&text);
                }
            });
        }
        let at = PANIC_AT.with(|p| p.get());
        if at > 0 {
            PANIC_AT.with(|p| p.set(at - 1));
            if at == 1 {
                std::panic::panic_any(SimUnwind);
            }
        }
    }
    fn flush(&self) {}
}

impl LogDoc {
    pub fn new() -> Self {
        let document = get_implementation()
            .create_document(None, Some("log"), None)
            .expect("log document");
        let root = document.document_element().expect("log root");
        LogDoc { document, root, expected: Vec::new(), count: 0 }
    }
    fn record(&mut self, text: &str) {
        let id = format!("r{}", self.count);
        self.count += 1;
        let mut entry = self.document.create_element("entry").expect("entry");
        entry.set_attribute("xml:id", &id).expect("id");
        entry.append_child(self.document.create_text_node(text)).expect("text");
        self.root.append_child(entry).expect("append");
        self.expected.push((id, text.to_string()));
        if self.expected.len() > 4 {
            let first = self.root.first_child().expect("first");
            self.root.remove_child(first).expect("remove");
            self.expected.remove(0);
        }
    }
    /// What differs from the records made, if anything.
    pub fn check(&self) -> Option<String> {
        let children = self.root.child_nodes();
        if children.len() != self.expected.len() {
            return Some(format!("{} log entries, expected {}", children.len(), self.expected.len()));
        }
        for (c, (id, text)) in children.iter().zip(&self.expected) {
            if c.get_attribute("xml:id").as_deref() != Some(id) {
                return Some(format!("log entry {} has the wrong id", id));
            }
            if c.first_child().and_then(|t| t.node_value()).as_deref() != Some(text) {
                return Some(format!("log entry {} has the wrong text", id));
            }
            if self.document.get_element_by_id(id).as_ref() != Some(c) {
                return Some(format!("log entry {} is not found by its id", id));
            }
        }
        if self.document.document_element().as_ref() != Some(&self.root) {
            return Some("log document has another root".to_string());
        }
        None
    }
}

pub fn install() {
    let _ = log::set_logger(&SimLogger);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

pub fn set_log_mode(mode: LogMode) {
    log::set_max_level(if mode == LogMode::Off { log::LevelFilter::Off } else { log::LevelFilter::Trace });
    MODE.with(|m| m.set(mode));
    if mode == LogMode::Document {
        BUSY.with(|b| b.set(true));
        DOC.with(|d| *d.borrow_mut() = Some(LogDoc::new()));
        BUSY.with(|b| b.set(false));
    } else {
        DOC.with(|d| *d.borrow_mut() = None);
    }
}

/// Check the document the logger wrote, not logging while this is done.
pub fn check_log_doc() -> Option<String> {
    quiet(|| DOC.with(|d| d.borrow().as_ref().and_then(|d| d.check())))
}

/// Unwind at the nth record from now on, 0 is never.
pub fn set_panic_at(n: u32) {
    PANIC_AT.with(|p| p.set(n));
}

pub fn panic_pending() -> u32 {
    PANIC_AT.with(|p| p.get())
}


/// Run something without its diagnostics being observed.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let was = BUSY.with(|b| b.replace(true));
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            BUSY.with(|b| b.set(self.0));
        }
    }
    let _reset = Reset(was);
    f()
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub enum Outcome<T> {
    Done(T),
    Unwound,
    Panicked(String),
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Done(v),
        Err(e) if e.is::<SimUnwind>() => Outcome::Unwound,
        Err(_) => Outcome::Panicked(last_panic()),
    }
}
