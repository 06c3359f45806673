//! Context of the run in progress: choices, event log, violations, counters.

use crate::choice::{hash_bytes, Choices};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub message: String,
}

pub struct Ctx {
    pub ch: Choices,
    pub prop: String,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    pub violation: Option<Violation>,
    pub counters: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub sim_time_us: u64,
    pub steps_blocks: u64,
    pub schedule_hash: u64,
    pub effective: u64,
}

static mut CTX: Option<Box<Ctx>> = None;

pub unsafe fn ctx() -> &'static mut Ctx {
    (*std::ptr::addr_of_mut!(CTX)).as_mut().unwrap()
}

pub fn begin(ch: Choices, prop: &str, verbose: bool) {
    unsafe {
        CTX = Some(Box::new(Ctx {
            ch,
            prop: prop.to_string(),
            verbose,
            trace: vec![],
            digest: 0xcbf29ce484222325,
            violation: None,
            counters: BTreeMap::new(),
            faults: BTreeMap::new(),
            states: vec![],
            sim_time_us: 0,
            steps_blocks: 0,
            schedule_hash: 0xcbf29ce484222325,
            effective: 0,
        }))
    }
}

pub fn end() -> Box<Ctx> {
    unsafe { (*std::ptr::addr_of_mut!(CTX)).take().unwrap() }
}

pub fn prop() -> &'static str {
    unsafe { &ctx().prop }
}

/// Record an event: part of the digest always, kept as text when replaying.
pub fn ev(s: String) {
    let c = unsafe { ctx() };
    c.digest = hash_bytes(c.digest, s.as_bytes());
    c.digest = hash_bytes(c.digest, &[0xff]);
    if c.verbose {
        c.trace.push(s);
    }
}
#[macro_export]
macro_rules! ev { ($($a:tt)*) => { $crate::run::ev(format!($($a)*)) } }

pub fn count(name: &'static str) {
    *unsafe { ctx() }.counters.entry(name).or_insert(0) += 1;
}
pub fn fault(name: &'static str) {
    *unsafe { ctx() }.faults.entry(name).or_insert(0) += 1;
}
pub fn state(h: u64) {
    unsafe { ctx() }.states.push(h);
}
pub fn effective() {
    unsafe { ctx() }.effective += 1;
}
/// Report that property `prop` is broken; only the property under check counts.
pub fn violate(prop: &str, class: &str, message: String) {
    let c = unsafe { ctx() };
    if c.prop == prop {
        if c.violation.is_none() {
            let message = cut(message);
            let text = format!("VIOLATED {} [{}]: {}", prop, class, message);
            c.violation = Some(Violation { class: class.to_string(), message });
            ev(text);
        }
    } else {
        count("deviations_belonging_to_other_properties");
    }
}
pub fn violated() -> bool {
    unsafe { ctx() }.violation.is_some()
}

/// Detail for the trace of a replay only; not part of the digest.
pub fn note(f: impl FnOnce() -> String) {
    let c = unsafe { ctx() };
    if c.verbose {
        let s = f();
        c.trace.push(s);
    }
}

/// Messages are for people: a bounded length.
pub fn cut(s: String) -> String {
    if s.len() <= 700 {
        return s;
    }
    format!("{}...", s.chars().take(650).collect::<String>())
}
