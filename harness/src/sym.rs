//! Inputs of a scenario.  Under the symbolic executor every function here is replaced by a primitive that
//! creates a solver variable (or a forked choice); natively the values come from a tape recorded for replay.
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum In {
    Int(u128),
    Bytes(Vec<u8>),
}

thread_local! {
    static TAPE: RefCell<(Vec<In>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static OBS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static FAILS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static REACHED: RefCell<u32> = const { RefCell::new(0) };
}

pub struct AssumeFailed;

pub fn load(tape: Vec<In>) {
    TAPE.with(|t| *t.borrow_mut() = (tape, 0));
    OBS.with(|t| t.borrow_mut().clear());
    FAILS.with(|t| t.borrow_mut().clear());
}
pub fn fails() -> Vec<String> {
    FAILS.with(|t| t.borrow().clone())
}
pub fn observations() -> Vec<String> {
    OBS.with(|t| t.borrow().clone())
}
fn next() -> In {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let i = t.1;
        t.1 += 1;
        if i < t.0.len() {
            t.0[i].clone()
        } else {
            std::panic::panic_any(AssumeFailed)
        }
    })
}
fn int() -> u128 {
    match next() {
        In::Int(v) => v,
        In::Bytes(_) => std::panic::panic_any(AssumeFailed),
    }
}
/// any u16
pub fn u16() -> u16 {
    int() as u16
}
/// any u32
pub fn u32() -> u32 {
    int() as u32
}
/// any bool
pub fn bool() -> bool {
    int() != 0
}
/// one of 0..n, every value explored as its own path
pub fn choose(n: usize) -> usize {
    let v = int() as usize;
    if v >= n {
        std::panic::panic_any(AssumeFailed)
    }
    v
}
/// n bytes, each any ASCII character (0x00..0x7f)
pub fn ascii(n: usize) -> String {
    match next() {
        In::Bytes(b) if b.len() == n => String::from_utf8(b).unwrap_or_else(|_| std::panic::panic_any(AssumeFailed)),
        _ => std::panic::panic_any(AssumeFailed),
    }
}
/// n bytes, each any byte value
pub fn bytes(n: usize) -> Vec<u8> {
    match next() {
        In::Bytes(b) if b.len() == n => b,
        _ => std::panic::panic_any(AssumeFailed),
    }
}
/// n characters, each drawn from the given (ASCII) set
pub fn text(n: usize, set: &str) -> String {
    match next() {
        In::Bytes(b) if b.len() == n && b.iter().all(|c| set.as_bytes().contains(c)) => {
            String::from_utf8(b).unwrap_or_else(|_| std::panic::panic_any(AssumeFailed))
        }
        _ => std::panic::panic_any(AssumeFailed),
    }
}
/// a bound: q in quick runs, t in thorough ones
pub fn bound(q: usize, t: usize) -> usize {
    if std::env::var("VH_DEEP").is_ok() {
        t
    } else {
        q
    }
}
/// restrict the inputs
pub fn assume(c: bool) {
    if !c {
        std::panic::panic_any(AssumeFailed)
    }
}
/// the property
pub fn check(c: bool, what: &str) {
    if !c {
        FAILS.with(|t| t.borrow_mut().push(what.to_string()));
    }
}
/// like check, with a detail text used only in reports
pub fn check_eq_str(a: &str, b: &str, what: &str) {
    if a != b {
        FAILS.with(|t| t.borrow_mut().push(format!("{} (got {:?}, expected {:?})", what, a, b)));
    }
}
/// values compared between the native run and the executor when the executor is validated
pub fn observe(label: &str, v: &str) {
    OBS.with(|t| t.borrow_mut().push(format!("{}={}", label, v)));
}
/// marks the end of the scenario: a scenario none of whose paths gets here is vacuous
pub fn reached() {
    REACHED.with(|t| *t.borrow_mut() += 1);
}
