//! Thread-local ledger of the births and deaths of every tracked element

use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Ledger {
    pub next: u64,
    /// live tracked elements: id -> class
    pub live: BTreeMap<u64, u8>,
    /// live zero-sized elements, by class
    pub zlive: BTreeMap<u8, i64>,
    /// side table of the tiny elements: id -> (key, prov)
    pub side: BTreeMap<u64, (u32, u64)>,
    /// violations noticed while they happened (double drop, garbage, ...)
    pub bad: Vec<String>,
    pub births: u64,
    pub deaths: u64,
    /// closures that were made and not dropped yet, and those made so far
    pub held: i64,
    pub helds: u64,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    L.with(|l| f(&mut l.borrow_mut()))
}

/// Starts a new observation; ids are given out from 1 again
pub fn reset() {
    with(|l| {
        l.next = 0;
        l.live.clear();
        l.zlive.clear();
        l.side.clear();
        l.bad.clear();
        l.held = 0;
    })
}

pub fn fresh() -> u64 {
    with(|l| {
        l.next += 1;
        l.next
    })
}

pub fn birth(id: u64, class: u8) {
    with(|l| {
        l.births += 1;
        if l.live.insert(id, class).is_some() {
            l.bad.push(format!("element {id} born twice"));
        }
    })
}

pub fn death(id: u64, class: u8) {
    with(|l| {
        l.deaths += 1;
        match l.live.remove(&id) {
            Some(c) if c == class => (),
            Some(c) => l.bad.push(format!("element {id} of class {c} dropped as class {class}")),
            None => l.bad.push(format!("element {id} (class {class}) dropped although it is not live")),
        }
    })
}

pub fn zbirth(class: u8) {
    with(|l| {
        l.births += 1;
        *l.zlive.entry(class).or_insert(0) += 1;
    })
}

pub fn zdeath(class: u8) {
    with(|l| {
        l.deaths += 1;
        let n = l.zlive.entry(class).or_insert(0);
        *n -= 1;
        if *n < 0 {
            l.bad.push(format!("zero-sized element of class {class} dropped once too often"));
        }
    })
}

pub fn is_live(id: u64) -> bool {
    with(|l| l.live.contains_key(&id))
}

pub fn bad(msg: String) {
    with(|l| l.bad.push(msg))
}

/// Captured by a closure that is handed over: has to go with it, once
pub struct Held(u64);

impl Held {
    pub fn new() -> Held {
        with(|l| {
            l.held += 1;
            l.helds += 1;
        });
        Held(0x0c10_5ed0)
    }
    /// Called whenever the closure is
    pub fn used(&self) {
        if self.0 != 0x0c10_5ed0 {
            bad("a closure was called after it had been dropped".into());
        }
    }
}

impl Default for Held {
    fn default() -> Self {
        Held::new()
    }
}

impl Drop for Held {
    fn drop(&mut self) {
        if std::mem::replace(&mut self.0, 0) == 0x0c10_5ed0 {
            with(|l| l.held -= 1);
        } else {
            bad("a closure was dropped twice".into());
        }
    }
}

/// The same closure, whose lifetime is watched
pub fn held<A, R>(f: &mut dyn FnMut(A) -> R) -> impl FnMut(A) -> R + '_ {
    let h = Held::new();
    move |a| {
        h.used();
        f(a)
    }
}
