//! Runs a subject in every mode and judges what was observed

use crate::elem::*;
use crate::gen::G;
use crate::ledger;
use crate::model::*;
use crate::tree::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

pub type Er = Tok<Erc>;

/// Aspects of a run that can be wrong
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cat {
    /// closure calls: number, order, arguments
    Calls,
    /// the returned value
    Output,
    /// `Ok`/`Err`, which error, calls after it
    Fail,
    /// elements lost, leaked or dropped twice
    Owner,
    /// a panic did not come through as it was raised
    Panic,
    /// internal consistency of a returned container
    Valid,
    /// `..._over` differs from the plain method
    Over,
    /// functor laws
    Law,
    /// elements of another parameter visited, changed or left out
    Select,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Mode {
    Map,
    Over,
    TryOk,
    TryOverOk,
    Fail,
    FailOver,
    Panic,
    PanicOver,
    TryPanic,
    TryPanicOver,
    Identity,
    TryIdentity,
    Compose,
    TryCompose,
}
pub const ALL_MODES: [Mode; 14] = [
    Mode::Map,
    Mode::Over,
    Mode::TryOk,
    Mode::TryOverOk,
    Mode::Fail,
    Mode::FailOver,
    Mode::Panic,
    Mode::PanicOver,
    Mode::TryPanic,
    Mode::TryPanicOver,
    Mode::Identity,
    Mode::TryIdentity,
    Mode::Compose,
    Mode::TryCompose,
];

/// Builds an input from `G`, maps it and takes the result apart
pub type PlainFn<A, B> = fn(&mut G, bool, &mut dyn FnMut(A) -> B, &mut Keep) -> V;
pub type FallibleFn<A, B> = fn(&mut G, bool, &mut dyn FnMut(A) -> Result<B, Er>, &mut Keep) -> Result<V, Er>;
pub type TwiceFn<A, M, B> =
    fn(&mut G, bool, bool, &mut dyn FnMut(A) -> M, &mut dyn FnMut(M) -> B, &mut Keep) -> Option<V>;

/// A type to monitor; the operations work on T<A>, T<M> and T<B>
pub struct Subject<A, B, M> {
    pub name: &'static str,
    pub ty: Ty,
    /// a container that identifies its elements by key contains the elements
    pub keyed: bool,
    pub input: fn(&mut G, &mut Keep) -> V,
    pub plain: PlainFn<A, B>,
    pub fallible: FallibleFn<A, B>,
    pub same: PlainFn<A, A>,
    pub try_same: FallibleFn<A, A>,
    pub twice: TwiceFn<A, M, B>,
    pub lens: &'static [usize],
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub cat: Cat,
    pub name: String,
    pub mode: Mode,
    pub at: usize,
    pub seed: u64,
    pub detail: String,
}

pub struct Engine {
    pub defs: Vec<Def>,
    pub seed: u64,
    pub modes: Vec<Mode>,
    pub cats: Vec<Cat>,
    /// inputs per subject
    pub reps: usize,
    /// failure points tried per input
    pub points: usize,
    pub maxlen: usize,
    pub maxbig: usize,
    /// inputs per length
    pub again: usize,
    pub only: Option<String>,
    /// name has to contain one of these
    pub matching: Vec<String>,
    pub shard: (usize, usize),
    pub counter: usize,

    pub viol: Vec<Violation>,
    pub ignored: BTreeMap<Cat, u64>,
    pub cases: u64,
    pub calls: u64,
    pub nontrivial: BTreeSet<u64>,
    pub cov: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub subjects: u64,
    pub collisions: u64,
    /// what was found in the latest execution
    last: Vec<Cat>,
}

struct Probe {
    trace: Vec<Call>,
    idx: usize,
    stop_at: Option<usize>,
    bad: Vec<String>,
}


/// Payload of the panics raised by monitored closures
pub struct Boom(pub u64);

pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if info.payload().downcast_ref::<Boom>().is_none() && std::env::var_os("VMON_LOUD").is_some() {
            old(info);
        }
    }));
}

/// How keys are assigned to mapped elements
#[derive(Clone, Copy, Debug)]
pub enum KeyFn {
    Same,
    Reverse,
    Scramble(u32),
    Div(u32),
    Mod(u32),
    Const,
}
impl KeyFn {
    fn pick(g: &mut G, collide: bool) -> KeyFn {
        match if collide { g.below(10).min(7) } else { g.below(4) } {
            0 => KeyFn::Same,
            1 => KeyFn::Reverse,
            2 | 3 => KeyFn::Scramble(g.next() as u32 | 1),
            4 => KeyFn::Div(1 << (14 + g.below(6))),
            5 => KeyFn::Mod(2 + g.below(3) as u32),
            6 => KeyFn::Mod(7),
            _ => KeyFn::Const,
        }
    }
    pub fn apply(self, k: u32) -> u32 {
        match self {
            KeyFn::Same => k,
            KeyFn::Reverse => 0xf_ffff - k,
            KeyFn::Scramble(m) => k.wrapping_mul(m) & 0xf_ffff,
            KeyFn::Div(d) => k / d,
            KeyFn::Mod(d) => k % d,
            KeyFn::Const => 7,
        }
    }
}

enum Ended {
    Out(V),
    Fail(Er),
    Panic(Box<dyn std::any::Any + Send>),
}

impl Engine {
    pub fn new(seed: u64) -> Engine {
        Engine {
            defs: vec![],
            seed,
            modes: ALL_MODES.to_vec(),
            cats: vec![],
            reps: 6,
            points: 4,
            maxlen: 4,
            maxbig: usize::MAX,
            again: 1,
            only: None,
            matching: vec![],
            shard: (0, 1),
            counter: 0,
            viol: vec![],
            ignored: BTreeMap::new(),
            cases: 0,
            calls: 0,
            nontrivial: BTreeSet::new(),
            cov: BTreeMap::new(),
            samples: vec![],
            subjects: 0,
            collisions: 0,
            last: vec![],
        }
    }

    fn report(&mut self, cat: Cat, name: &str, mode: Mode, at: usize, seed: u64, detail: String) {
        if self.cats.contains(&cat) {
            if self.viol.len() < 200 {
                self.viol.push(Violation { cat, name: name.to_string(), mode, at, seed, detail });
            }
        } else {
            *self.ignored.entry(cat).or_insert(0) += 1;
        }
    }

    fn bump(&mut self, k: impl Into<String>) {
        *self.cov.entry(k.into()).or_insert(0) += 1;
    }

    fn gen(&self, seed: u64, lens: &[usize]) -> G {
        ledger::reset();
        let mut g = G::new(seed);
        g.lens = lens.to_vec();
        g.maxlen = self.maxlen;
        g
    }

    pub fn run<A, B, M>(&mut self, s: &Subject<A, B, M>)
    where
        A: Elem,
        B: Elem,
        M: Elem,
    {
        self.counter += 1;
        if self.counter % self.shard.1 != self.shard.0 {
            return;
        }
        let name = format!("{} [{} -> {}]", s.name, A::kind(), B::kind());
        if let Some(only) = &self.only {
            if !name.starts_with(only.as_str()) {
                return;
            }
        }
        if !self.matching.is_empty() && !self.matching.iter().any(|m| s.name.contains(m.as_str())) {
            return;
        }
        self.subjects += 1;
        if std::env::var_os("VMON_TRACE").is_some() {
            eprintln!("SUBJECT {name}");
        }
        let mut nseed = mix(self.seed, 0xabcd);
        for b in name.bytes() {
            nseed = mix(nseed, b.into());
        }
        let mut runs: Vec<Vec<usize>> = Vec::new();
        for n in s.lens.iter().filter(|n| **n <= self.maxbig) {
            // an iterator may have yielded most of them already, a buffer may
            // be split anywhere
            for _ in 0..(if *n < 4 { 1 } else { self.again }) {
                runs.push(vec![*n]);
            }
        }
        let reps = if s.lens.is_empty() { self.reps } else { (self.reps / 3).max(1) };
        for _ in 0..reps {
            runs.push(vec![]);
        }
        for (r, lens) in runs.iter().enumerate() {
            let seed = mix(nseed, r as u64);
            self.one_input(s, &name, seed, lens);
        }
    }

    fn one_input<A, B, M>(&mut self, s: &Subject<A, B, M>, name: &str, seed: u64, lens: &[usize])
    where
        A: Elem,
        B: Elem,
        M: Elem,
    {
        // what the input looks like; the same input is then built again for
        // every run
        let mut g = self.gen(seed, lens);
        let mut keep = Keep::default();
        let vin = (s.input)(&mut g, &mut keep);
        assert!(keep.broken.is_empty(), "monitor: input of {name} is broken: {:?}", keep.broken);
        let born = ledger::with(|l| l.next);
        drop(keep);
        assert!(
            ledger::with(|l| l.live.is_empty() && l.bad.is_empty()),
            "monitor: input of {name} leaks by itself"
        );
        let _ = born;
        let modes = self.modes.clone();
        // number of calls on this input with this key function
        let mut expected_calls: Option<usize> = None;
        for (mi, mode) in modes.into_iter().enumerate() {
            let law = matches!(mode, Mode::Identity | Mode::TryIdentity | Mode::Compose | Mode::TryCompose);
            if law {
                self.law(s, name, mode, seed, lens, &vin, &mut g);
                continue;
            }
            let stops: Vec<Option<usize>> = match mode {
                Mode::Map | Mode::Over | Mode::TryOk | Mode::TryOverOk => vec![None],
                _ => {
                    let n = match expected_calls {
                        Some(n) => n,
                        None => {
                            // count them
                            let kf = KeyFn::Same;
                            match self.exec(s, name, Mode::Map, seed, lens, &vin, None, kf, true) {
                                Some(n) => n,
                                None => continue,
                            }
                        }
                    };
                    expected_calls = Some(n);
                    if n == 0 {
                        continue;
                    }
                    let mut p: BTreeSet<usize> = BTreeSet::new();
                    if n <= self.points {
                        p.extend(0..n);
                    } else {
                        p.insert(0);
                        p.insert(n - 1);
                        while p.len() < self.points.max(2) {
                            p.insert(g.below(n));
                        }
                    }
                    p.into_iter().map(Some).collect()
                }
            };
            for stop in stops {
                let collide = s.keyed && (mi + seed as usize) % 3 != 0;
                // with colliding keys the number of calls is not known in
                // advance, a stop may then never be reached
                let kf = KeyFn::pick(&mut g, collide);
                self.exec(s, name, mode, seed, lens, &vin, stop, kf, false);
            }
        }
    }

    /// One execution; returns the number of closure calls
    #[allow(clippy::too_many_arguments)]
    fn exec<A, B, M>(
        &mut self,
        s: &Subject<A, B, M>,
        name: &str,
        mode: Mode,
        seed: u64,
        lens: &[usize],
        vin: &V,
        stop: Option<usize>,
        kf: KeyFn,
        silent: bool,
    ) -> Option<usize>
    where
        A: Elem,
        B: Elem,
        M: Elem,
    {
        let mut g = self.gen(seed, lens);
        let mut keep = Keep::default();
        let p = RefCell::new(Probe { trace: vec![], idx: 0, stop_at: stop, bad: vec![] });
        let panics = matches!(mode, Mode::Panic | Mode::PanicOver | Mode::TryPanic | Mode::TryPanicOver);
        // Ok(element), or Err(()) where the closure has to fail
        let visit = |a: A| -> Result<B, Er> {
            let info = a.info();
            let mut p = p.borrow_mut();
            if A::TRACKED && !A::ANON && !ledger::is_live(info.id) {
                p.bad.push(format!("closure got element {info:?}, which is not live"));
            }
            drop(a);
            let k = p.idx;
            p.idx += 1;
            if p.stop_at == Some(k) {
                if panics {
                    p.trace.push(Call { class: A::CLASS, src: info, out: Outcome::Panic(seed) });
                    drop(p);
                    panic_any(Boom(seed));
                }
                let e = Er::born(0, seed);
                p.trace.push(Call { class: A::CLASS, src: info, out: Outcome::Fail(e.info()) });
                return Result::Err(e);
            }
            let b = B::born(kf.apply(info.key), mix(info.prov, 77));
            p.trace.push(Call { class: A::CLASS, src: info, out: Outcome::Ret(B::CLASS, b.info()) });
            Ok(b)
        };
        let mut plain = |a: A| -> B {
            match visit(a) {
                Ok(b) => b,
                Result::Err(_) => panic!("monitor: plain closure cannot fail"),
            }
        };
        let mut fallible = |a: A| visit(a);
        let ended = {
            let r = catch_unwind(AssertUnwindSafe(|| match mode {
                Mode::Map | Mode::Panic => Ok((s.plain)(&mut g, false, &mut plain, &mut keep)),
                Mode::Over | Mode::PanicOver => Ok((s.plain)(&mut g, true, &mut plain, &mut keep)),
                Mode::TryOk | Mode::Fail | Mode::TryPanic => (s.fallible)(&mut g, false, &mut fallible, &mut keep),
                _ => (s.fallible)(&mut g, true, &mut fallible, &mut keep),
            }));
            match r {
                Ok(Ok(o)) => Ended::Out(o),
                Ok(Result::Err(e)) => Ended::Fail(e),
                Result::Err(p) => Ended::Panic(p),
            }
        };
        let Probe { trace, bad, .. } = p.into_inner();
        let n = trace.len();
        let mut found: Vec<(Cat, String)> = Vec::new();
        for b in bad {
            found.push((Cat::Calls, b.clone()));
            found.push((Cat::Owner, b));
        }
        let stopped = trace.last().map_or(false, |c| !matches!(c.out, Outcome::Ret(..)));
        let after = trace.iter().position(|c| !matches!(c.out, Outcome::Ret(..))).map_or(false, |k| k + 1 != n);
        if after {
            found.push((Cat::Fail, "the closure was called again after it had failed".into()));
        }
        let over = matches!(mode, Mode::Over | Mode::TryOverOk | Mode::FailOver | Mode::PanicOver | Mode::TryPanicOver);

        // the model's verdict
        let mut model = Model::new(&self.defs, &trace, A::ANON);
        let expected = model.run(&s.ty, vin.clone());
        let collided = model.collisions;
        let mut live_expected: Vec<u64> = Vec::new();
        let mut zexp: BTreeMap<u8, i64> = BTreeMap::new();
        // the same, whatever is observed next: compare with the model
        match ended {
            Ended::Out(got) => {
                let mut toks = Vec::new();
                got.toks(&mut toks);
                if !A::ANON && !stopped {
                    if let Some(d) = selection(&self.defs, s, vin, &trace, &toks, collided) {
                        found.push((Cat::Select, d));
                    }
                }
                for (c, t) in &toks {
                    if t.id != 0 {
                        live_expected.push(t.id);
                    } else {
                        *zexp.entry(*c).or_insert(0) += 1;
                    }
                }
                for b in keep.broken.drain(..) {
                    found.push((Cat::Valid, b));
                }
                if stopped {
                    found.push((Cat::Fail, format!("the closure failed at call {n} but the result is {got:?}")));
                } else {
                    match &expected {
                        Ok(v) => {
                            if let Some(d) = v.diff(&got, true) {
                                found.push((Cat::Output, d));
                            }
                        }
                        Err(Stop::Mismatch(m)) => found.push((Cat::Calls, m.clone())),
                        Err(Stop::Abort) => found.push((Cat::Calls, "model aborted".into())),
                    }
                }
            }
            Ended::Fail(e) => {
                let info = e.info();
                if ledger::is_live(info.id) {
                    live_expected.push(info.id);
                } else {
                    found.push((Cat::Owner, "the returned error is not live".into()));
                }
                match trace.iter().find_map(|c| match c.out {
                    Outcome::Fail(i) => Some(i),
                    _ => None,
                }) {
                    Some(first) if first == info => (),
                    Some(first) => {
                        found.push((Cat::Fail, format!("returned error {info:?} is not the first one {first:?}")))
                    }
                    None => found.push((Cat::Fail, format!("returned error {info:?}, but the closure never failed"))),
                }
                if let Err(Stop::Mismatch(m)) = &expected {
                    found.push((Cat::Calls, m.clone()));
                }
                keep.alive.push(Box::new(e));
            }
            Ended::Panic(payload) => {
                match payload.downcast_ref::<Boom>() {
                    Some(Boom(s)) if *s == seed => {
                        if !stopped {
                            found.push((Cat::Panic, "the panic does not come from the last closure call".into()));
                        }
                        if let Err(Stop::Mismatch(m)) = &expected {
                            found.push((Cat::Calls, m.clone()));
                        }
                    }
                    _ => {
                        let msg = payload
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        if msg.starts_with("monitor:") {
                            resume_unwind(payload);
                        }
                        let m = format!("panicked by itself: {msg}");
                        found.push((Cat::Output, m.clone()));
                        found.push((Cat::Panic, m));
                    }
                }
                drop(payload);
            }
        }
        if panics && stopped && !found.iter().any(|f| f.0 == Cat::Panic) {
            // a swallowed panic shows as a result after `stopped`
            let swallowed: Vec<_> = found.iter().filter(|f| f.0 == Cat::Fail).map(|f| f.1.clone()).collect();
            for m in swallowed {
                found.push((Cat::Panic, m));
            }
        }
        // ledger: exactly the elements of the result are alive now ...
        self.ledger_check(&live_expected, &zexp, &mut found, "after the call");
        drop(keep);
        // ... and none after the result is gone
        self.ledger_check(&[], &BTreeMap::new(), &mut found, "after dropping the result");
        let (bad, held) = ledger::with(|l| (std::mem::take(&mut l.bad), std::mem::take(&mut l.held)));
        for b in bad {
            found.push((Cat::Owner, b));
        }
        if held != 0 {
            found.push((Cat::Owner, "the closure was not dropped when the call was over".into()));
        }
        const JUDGED: [Cat; 3] = [Cat::Calls, Cat::Output, Cat::Fail];
        self.last = found.iter().map(|f| f.0).collect();
        if silent {
            return Some(n);
        }
        if over && found.iter().any(|f| JUDGED.contains(&f.0)) {
            // does the method without the marker do better?
            let d = found.iter().find(|f| JUDGED.contains(&f.0)).unwrap().1.clone();
            let other = match mode {
                Mode::Over => Mode::Map,
                Mode::PanicOver => Mode::Panic,
                Mode::TryOverOk => Mode::TryOk,
                Mode::FailOver => Mode::Fail,
                _ => Mode::TryPanic,
            };
            self.exec(s, name, other, seed, lens, vin, stop, kf, true);
            if !self.last.iter().any(|c| JUDGED.contains(c)) {
                found.push((Cat::Over, d));
            }
        }
        self.cases += 1;
        self.calls += n as u64;
        self.collisions += collided;
        if collided > 0 {
            self.bump("runs with key collisions");
        }
        let mut h = mix(seed, mode as u64);
        h = mix(h, stop.map_or(9999, |x| x as u64));
        for c in &trace {
            h = mix(h, c.src.id);
        }
        if n > 0 {
            self.nontrivial.insert(h);
        }
        self.bump(format!("mode {mode:?}"));
        self.bump(match n {
            0 => "calls 0",
            1 => "calls 1",
            2..=4 => "calls 2-4",
            5..=16 => "calls 5-16",
            17..=128 => "calls 17-128",
            _ => "calls >128",
        });
        if self.samples.len() < 4 && n >= 2 && self.cases % 37 == 1 {
            let ids: Vec<u64> = trace.iter().map(|c| c.src.id).take(12).collect();
            self.samples.push(format!(
                "{name} mode={mode:?} stop={stop:?} keys={kf:?} seed={seed:#x} calls={n} ids={ids:?} input={}",
                clip(&format!("{vin:?}"), 300)
            ));
        }
        for (cat, d) in found {
            self.report(cat, name, mode, stop.unwrap_or(usize::MAX), seed, d);
        }
        Some(n)
    }

    fn ledger_check(&self, exp: &[u64], zexp: &BTreeMap<u8, i64>, found: &mut Vec<(Cat, String)>, when: &str) {
        ledger::with(|l| {
            let mut missing: Vec<u64> = Vec::new();
            let set: BTreeSet<u64> = exp.iter().copied().collect();
            if set.len() != exp.len() {
                found.push((Cat::Owner, format!("an element occurs twice in the result {exp:?}")));
            }
            for (id, c) in &l.live {
                if !set.contains(id) {
                    missing.push(*id * 10 + u64::from(*c));
                }
            }
            if !missing.is_empty() {
                let m: Vec<String> =
                    missing.iter().take(8).map(|x| format!("#{} (class {})", x / 10, x % 10)).collect();
                found.push((Cat::Owner, format!("{} element(s) leaked {when}: {}", missing.len(), m.join(", "))));
            }
            for (c, n) in &l.zlive {
                let e = zexp.get(c).copied().unwrap_or(0);
                if *n != e {
                    found.push((Cat::Owner, format!("{n} zero-sized elements of class {c} alive {when}, expected {e}")));
                }
            }
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn law<A, B, M>(
        &mut self,
        s: &Subject<A, B, M>,
        name: &str,
        mode: Mode,
        seed: u64,
        lens: &[usize],
        vin: &V,
        g: &mut G,
    ) where
        A: Elem,
        B: Elem,
        M: Elem,
    {
        let (k1, k2) = (KeyFn::pick(g, false), KeyFn::pick(g, false));
        let f1 = move |i: Info| (k1.apply(i.key), mix(i.prov, 5));
        let f2 = move |k: u32, p: u64| (k2.apply(k), mix(p, 6));
        let am = |a: A| {
            let (k, p) = f1(a.info());
            M::born(k, p)
        };
        let mb = |m: M| {
            let i = m.info();
            let (k, p) = f2(i.key, i.prov);
            B::born(k, p)
        };
        let ab = |a: A| {
            let (k, p) = f1(a.info());
            let (k, p) = f2(k, p);
            B::born(k, p)
        };
        let over = g.chance(1, 3);
        let mut detail = None;
        let mut calls = 0u64;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut g = self.gen(seed, lens);
            let mut keep = Keep::default();
            let plain = matches!(mode, Mode::Identity | Mode::Compose);
            match mode {
                Mode::Identity | Mode::TryIdentity => {
                    let mut id = |a: A| {
                        calls += 1;
                        a
                    };
                    let out = if plain {
                        Some((s.same)(&mut g, over, &mut id, &mut keep))
                    } else {
                        (s.try_same)(&mut g, over, &mut |a| Ok(id(a)), &mut keep).ok()
                    };
                    match out {
                        None => detail = Some("mapping with Ok fails".to_string()),
                        Some(got) => {
                            if let Some(d) = vin.diff(&got, true) {
                                detail = Some(format!("mapping with the identity changes the value: {d}"));
                            }
                        }
                    }
                    if let Some(b) = keep.broken.first() {
                        detail = Some(b.clone());
                    }
                }
                _ => {
                    let mut am = |a: A| {
                        calls += 1;
                        am(a)
                    };
                    let mut mb = mb;
                    let mut ab = ab;
                    let two = (s.twice)(&mut g, over, plain, &mut am, &mut mb, &mut keep);
                    let broken = keep.broken.first().cloned();
                    drop(keep);
                    let mut g = self.gen(seed, lens);
                    let mut keep = Keep::default();
                    let one = if plain {
                        Some((s.plain)(&mut g, false, &mut ab, &mut keep))
                    } else {
                        (s.fallible)(&mut g, false, &mut |a| Ok(ab(a)), &mut keep).ok()
                    };
                    let broken = broken.or(keep.broken.first().cloned());
                    match (two, one) {
                        (Some(two), Some(one)) => {
                            // only provenance counts: the elements differ
                            if let Some(d) = one.diff(&two, false) {
                                detail = Some(format!("mapping twice differs from mapping with the composition: {d}"));
                            }
                        }
                        _ => detail = Some("mapping with Ok fails".to_string()),
                    }
                    if let Some(b) = broken {
                        detail = Some(b);
                    }
                }
            }
        }));
        if let Result::Err(p) = r {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("monitor:") {
                resume_unwind(p);
            }
            detail = Some(format!("panicked by itself: {msg}"));
        }
        self.cases += 1;
        self.calls += calls;
        self.bump(format!("mode {mode:?}"));
        if calls > 0 {
            self.nontrivial.insert(mix(seed, 100 + mode as u64));
        }
        if self.samples.len() < 4 && calls >= 2 && self.cases % 11 == 1 {
            self.samples.push(format!(
                "{name} mode={mode:?} over={over} keys={k1:?},{k2:?} seed={seed:#x} calls={calls} input={}",
                clip(&format!("{vin:?}"), 300)
            ));
        }
        if let Some(d) = detail {
            self.report(Cat::Law, name, mode, usize::MAX, seed, d);
        }
    }

    /// Mapping over one parameter and then over another one is compared with
    /// doing so the other way round
    pub fn run_pair<A, B, C, D>(&mut self, s: &Pair<A, B, C, D>)
    where
        A: Elem,
        B: Elem,
        C: Elem,
        D: Elem,
    {
        self.counter += 1;
        if self.counter % self.shard.1 != self.shard.0 {
            return;
        }
        let name = format!("{} [{} -> {}, {} -> {}]", s.name, A::kind(), B::kind(), C::kind(), D::kind());
        if let Some(only) = &self.only {
            if !name.starts_with(only.as_str()) {
                return;
            }
        }
        self.subjects += 1;
        if std::env::var_os("VMON_TRACE").is_some() {
            eprintln!("SUBJECT {name}");
        }
        let mut nseed = mix(self.seed, 0xabce);
        for b in name.bytes() {
            nseed = mix(nseed, b.into());
        }
        for r in 0..self.reps {
            self.one_pair(s, &name, mix(nseed, r as u64));
        }
    }

    fn one_pair<A, B, C, D>(&mut self, s: &Pair<A, B, C, D>, name: &str, seed: u64)
    where
        A: Elem,
        B: Elem,
        C: Elem,
        D: Elem,
    {
        let mut g = self.gen(seed, &[]);
        let mut keep = Keep::default();
        let vin = (s.input)(&mut g, &mut keep);
        drop(keep);
        let (k1, k2) = (KeyFn::pick(&mut g, false), KeyFn::pick(&mut g, false));
        // what the closures see and, if told so, fail on
        type Seen = Vec<(u32, u64)>;
        let go = |this: &Self, swap: bool, how: usize, bad: (Option<u32>, Option<u32>)| -> Result<(Option<V>, Seen, Seen), String> {
            let (mut a, mut c) = (vec![], vec![]);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut g = this.gen(seed, &[]);
                let mut keep = Keep::default();
                let mut f = |x: A| {
                    let i = x.info();
                    a.push((i.key, i.prov));
                    if bad.0 == Some(i.key) { Err(Er::born(0, seed)) } else { Ok(B::born(k1.apply(i.key), mix(i.prov, 5))) }
                };
                let mut h = |x: C| {
                    let i = x.info();
                    c.push((i.key, i.prov));
                    if bad.1 == Some(i.key) { Err(Er::born(1, seed)) } else { Ok(D::born(k2.apply(i.key), mix(i.prov, 6))) }
                };
                let o = (s.both)(&mut g, swap, how, &mut f, &mut h, &mut keep);
                (o, keep.broken.first().cloned())
            }));
            a.sort();
            c.sort();
            match r {
                Ok((_, Some(b))) => Result::Err(b),
                Ok((o, None)) => Ok((o, a, c)),
                Result::Err(p) => {
                    let msg = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    if msg.starts_with("monitor:") {
                        resume_unwind(p);
                    }
                    Result::Err(format!("panicked by itself: {msg}"))
                }
            }
        };
        let mut some: (Option<u32>, Option<u32>) = (None, None);
        for how in 0..PAIR_WAYS {
            let fails = if how < 2 { 1 } else { 4 };
            for fail in 0..fails {
                let bad = (some.0.filter(|_| fail & 1 != 0), some.1.filter(|_| fail & 2 != 0));
                if fail & 1 != 0 && bad.0.is_none() || fail & 2 != 0 && bad.1.is_none() {
                    continue;
                }
                let (one, two) = (go(self, false, how, bad), go(self, true, how, bad));
                self.cases += 1;
                let detail = match (one, two) {
                    (Result::Err(e), _) | (_, Result::Err(e)) => Some(e),
                    (Ok((v, a, c)), Ok((w, b, d))) => {
                        self.calls += (a.len() + b.len() + c.len() + d.len()) as u64;
                        if !a.is_empty() && !c.is_empty() || fail != 0 {
                            self.nontrivial.insert(mix(seed, (how * 4 + fail) as u64));
                        }
                        self.bump(format!("pair {}{}", ["plain", "over", "try", "try over"][how], if fail > 0 { " failing" } else { "" }));
                        if how == 0 {
                            if !a.is_empty() {
                                some.0 = Some(a[g.below(a.len())].0);
                            }
                            if !c.is_empty() {
                                some.1 = Some(c[g.below(c.len())].0);
                            }
                        }
                        if self.samples.len() < 4 && a.len() + c.len() > 2 && self.cases % 7 == 1 {
                            self.samples.push(format!("{name} way={how} fail={fail} keys={k1:?},{k2:?} seed={seed:#x} calls={}+{} input={}",
                                a.len(), c.len(), clip(&format!("{vin:?}"), 300)));
                        }
                        match (v, w) {
                            _ if fail == 0 && (&a, &c) != (&b, &d) => Some(format!(
                                "the closures are called for {} and {} elements, but for {} and {} in the other order, or for others",
                                a.len(), c.len(), b.len(), d.len()
                            )),
                            (Some(v), Some(w)) if fail == 0 => v.diff(&w, false).map(|d| format!("the results of the two orders differ: {d}")),
                            (None, None) if fail != 0 => None,
                            (v, w) => Some(format!(
                                "succeeds: {} in one order, {} in the other, where closures {}",
                                v.is_some(), w.is_some(), if fail == 0 { "never fail" } else { "fail" }
                            )),
                        }
                    }
                };
                if let Some(d) = detail {
                    self.report(Cat::Law, name, [Mode::Map, Mode::Over, Mode::TryOk, Mode::TryOverOk][how], usize::MAX, seed, d);
                }
            }
        }
    }

    /// Writes the report (JSON lines) for the driver
    pub fn finish(&self) -> ! {
        let mut out = String::new();
        for v in &self.viol {
            out.push_str(&format!(
                "VIOL\t{:?}\t{}\t{:?}\t{}\t{:#x}\t{}\n",
                v.cat,
                v.name,
                v.mode,
                if v.at == usize::MAX { "-".to_string() } else { v.at.to_string() },
                v.seed,
                clip(&v.detail.replace(['\n', '\t'], " "), 1200)
            ));
        }
        for (k, v) in &self.cov {
            out.push_str(&format!("COV\t{k}\t{v}\n"));
        }
        for (k, v) in &self.ignored {
            out.push_str(&format!("IGN\t{k:?}\t{v}\n"));
        }
        for s in &self.samples {
            out.push_str(&format!("SAMPLE\t{}\n", s.replace(['\n', '\t'], " ")));
        }
        let (b, d, h) = ledger::with(|l| (l.births, l.deaths, l.helds));
        out.push_str(&format!(
            "SUM\tcases={}\tcalls={}\tnontrivial={}\tsubjects={}\tcollisions={}\tbirths={b}\tdeaths={d}\tclosures={h}\n",
            self.cases,
            self.calls,
            self.nontrivial.len(),
            self.subjects,
            self.collisions
        ));
        out.push_str("END\n");
        print!("{out}");
        std::process::exit(0)
    }

    /// Configures the engine from the command line
    pub fn from_args() -> Engine {
        let mut e = Engine::new(1);
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            let mut val = || args.next().unwrap_or_default();
            match a.as_str() {
                "--seed" => e.seed = val().parse().unwrap(),
                "--reps" => e.reps = val().parse().unwrap(),
                "--points" => e.points = val().parse().unwrap(),
                "--maxlen" => e.maxlen = val().parse().unwrap(),
                "--again" => e.again = val().parse().unwrap(),
                "--maxbig" => e.maxbig = val().parse().unwrap(),
                "--only" => e.only = Some(val()),
                "--match" => e.matching = val().split(',').map(str::to_string).collect(),
                "--shard" => {
                    let v = val();
                    let (a, b) = v.split_once('/').unwrap();
                    e.shard = (a.parse().unwrap(), b.parse().unwrap());
                }
                "--modes" => {
                    let v = val();
                    e.modes = ALL_MODES.iter().copied().filter(|m| v.split(',').any(|x| x == format!("{m:?}"))).collect()
                }
                "--cats" => {
                    let v = val();
                    use Cat::*;
                    e.cats = [Calls, Output, Fail, Owner, Panic, Valid, Over, Law, Select]
                        .into_iter()
                        .filter(|c| v.split(',').any(|x| x == format!("{c:?}")))
                        .collect()
                }
                _ => (),
            }
        }
        quiet_panics();
        e
    }
}

/// Whether the elements of the mapped parameter, and no others, were visited
/// and replaced; says nothing about their order
fn selection<A, B, M>(
    defs: &[Def],
    s: &Subject<A, B, M>,
    vin: &V,
    trace: &[Call],
    out: &[(u8, Info)],
    collided: u64,
) -> Option<String> {
    let mine = Model::members(defs, &s.ty, vin)?;
    let mut all = Vec::new();
    vin.toks(&mut all);
    let ids: Vec<u64> = all.iter().map(|t| t.1.id).filter(|i| *i != 0).collect();
    let all: BTreeSet<u64> = ids.iter().copied().collect();
    if all.len() < ids.len() || mine.contains(&0) {
        // elements that cannot be told apart
        return None;
    }
    let mine: BTreeSet<u64> = mine.into_iter().collect();
    let seen: BTreeSet<u64> = trace.iter().map(|c| c.src.id).collect();
    if let Some(x) = seen.difference(&mine).next() {
        return Some(format!("element #{x} was visited, which does not belong to the mapped parameter"));
    }
    let kept: BTreeSet<u64> = out.iter().map(|t| t.1.id).filter(|i| all.contains(i)).collect();
    if let Some(x) = kept.intersection(&mine).next() {
        return Some(format!("element #{x} of the mapped parameter is still in the result"));
    }
    if collided == 0 {
        if let Some(x) = mine.difference(&seen).next() {
            return Some(format!("element #{x} of the mapped parameter was not visited"));
        }
        if let Some(x) = all.difference(&mine).find(|x| !kept.contains(x)) {
            return Some(format!("element #{x} of another parameter is missing from the result"));
        }
    }
    None
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

/// A type with two parameters that can be mapped
pub struct Pair<A, B, C, D> {
    pub name: &'static str,
    pub input: fn(&mut G, &mut Keep) -> V,
    /// maps over both, in the other order if told so, in one of `PAIR_WAYS` ways
    #[allow(clippy::type_complexity)]
    pub both: fn(
        &mut G,
        bool,
        usize,
        &mut dyn FnMut(A) -> Result<B, Er>,
        &mut dyn FnMut(C) -> Result<D, Er>,
        &mut Keep,
    ) -> Option<V>,
}
pub const PAIR_WAYS: usize = 4;

/// Builds a [`Pair`] for a type given as a pattern over two type variables
#[macro_export]
macro_rules! pair {
    ($e:expr, $name:expr, $p:ty, $q:ty, [$a:ty, $b:ty, $c:ty, $d:ty], $x:ident, $y:ident => $t:ty) => {{
        #[allow(type_alias_bounds, dead_code)]
        type W<$x, $y> = $t;
        $e.run_pair(&$crate::Pair::<$a, $b, $c, $d> {
            name: $name,
            input: |g, keep| $crate::IntoV::into_v(<W<$a, $c> as $crate::Make>::make(g), keep),
            both: |g, swap, how, f, h, keep| {
                let i = <W<$a, $c> as $crate::Make>::make(g);
                let o: W<$b, $d> = match (how, swap) {
                    (0, false) => {
                        let m: W<$b, $c> = $crate::funcmap::FuncMap::<$a, $b, $p>::func_map(i, |x| f(x).ok().unwrap());
                        $crate::funcmap::FuncMap::<$c, $d, $q>::func_map(m, |x| h(x).ok().unwrap())
                    }
                    (0, true) => {
                        let m: W<$a, $d> = $crate::funcmap::FuncMap::<$c, $d, $q>::func_map(i, |x| h(x).ok().unwrap());
                        $crate::funcmap::FuncMap::<$a, $b, $p>::func_map(m, |x| f(x).ok().unwrap())
                    }
                    (1, false) => {
                        let m: W<$b, $c> = $crate::funcmap::FuncMap::<$a, $b, _>::func_map_over::<$p, _>(i, |x| f(x).ok().unwrap());
                        $crate::funcmap::FuncMap::<$c, $d, _>::func_map_over::<$q, _>(m, |x| h(x).ok().unwrap())
                    }
                    (1, true) => {
                        let m: W<$a, $d> = $crate::funcmap::FuncMap::<$c, $d, _>::func_map_over::<$q, _>(i, |x| h(x).ok().unwrap());
                        $crate::funcmap::FuncMap::<$a, $b, _>::func_map_over::<$p, _>(m, |x| f(x).ok().unwrap())
                    }
                    (2, false) => {
                        let m: W<$b, $c> = $crate::funcmap::TryFuncMap::<$a, $b, $p>::try_func_map(i, f).ok()?;
                        $crate::funcmap::TryFuncMap::<$c, $d, $q>::try_func_map(m, h).ok()?
                    }
                    (2, true) => {
                        let m: W<$a, $d> = $crate::funcmap::TryFuncMap::<$c, $d, $q>::try_func_map(i, h).ok()?;
                        $crate::funcmap::TryFuncMap::<$a, $b, $p>::try_func_map(m, f).ok()?
                    }
                    (_, false) => {
                        let m: W<$b, $c> = $crate::funcmap::TryFuncMap::<$a, $b, _>::try_func_map_over::<$p, $crate::Er, _>(i, f).ok()?;
                        $crate::funcmap::TryFuncMap::<$c, $d, _>::try_func_map_over::<$q, $crate::Er, _>(m, h).ok()?
                    }
                    (_, true) => {
                        let m: W<$a, $d> = $crate::funcmap::TryFuncMap::<$c, $d, _>::try_func_map_over::<$q, $crate::Er, _>(i, h).ok()?;
                        $crate::funcmap::TryFuncMap::<$a, $b, _>::try_func_map_over::<$p, $crate::Er, _>(m, f).ok()?
                    }
                };
                Some($crate::IntoV::into_v(o, keep))
            },
        })
    }};
}

/// Builds a [`Subject`] for a type given as a pattern over one type variable
#[macro_export]
macro_rules! subject {
    ($e:expr, $name:expr, $ty:expr, $keyed:expr, $lens:expr, $p:ty, [$a:ty, $b:ty, $m:ty], $x:ident => $t:ty) => {{
        #[allow(type_alias_bounds, dead_code)]
        type W<$x> = $t;
        $e.run(&$crate::Subject::<$a, $b, $m> {
            name: $name,
            ty: $ty,
            keyed: $keyed,
            input: |g, keep| $crate::IntoV::into_v(<W<$a> as $crate::Make>::make(g), keep),
            plain: $crate::plain!($p, $a, $b, W<$a>, W<$b>),
            fallible: $crate::fallible!($p, $a, $b, W<$a>, W<$b>),
            same: $crate::plain!($p, $a, $a, W<$a>, W<$a>),
            try_same: $crate::fallible!($p, $a, $a, W<$a>, W<$a>),
            twice: |g, over, plain, am, mb, keep| {
                let i = <W<$a> as $crate::Make>::make(g);
                let o: W<$b> = match (plain, over) {
                    (true, true) => {
                        let m: W<$m> = $crate::funcmap::FuncMap::<$a, $m, _>::func_map_over::<$p, _>(i, am);
                        $crate::funcmap::FuncMap::<$m, $b, _>::func_map_over::<$p, _>(m, mb)
                    }
                    (true, false) => {
                        let m: W<$m> = $crate::funcmap::FuncMap::<$a, $m, $p>::func_map(i, am);
                        $crate::funcmap::FuncMap::<$m, $b, $p>::func_map(m, mb)
                    }
                    (false, _) => {
                        let m: Result<W<$m>, $crate::Er> =
                            $crate::funcmap::TryFuncMap::<$a, $m, $p>::try_func_map(i, |a| Ok(am(a)));
                        let o: Result<W<$b>, $crate::Er> =
                            $crate::funcmap::TryFuncMap::<$m, $b, $p>::try_func_map(m.ok()?, |m| Ok(mb(m)));
                        o.ok()?
                    }
                };
                Some($crate::IntoV::into_v(o, keep))
            },
            lens: $lens,
        })
    }};
}

#[macro_export]
macro_rules! plain {
    ($p:ty, $a:ty, $b:ty, $i:ty, $o:ty) => {
        |g, over, f, keep| {
            let i = <$i as $crate::Make>::make(g);
            let o: $o = if over {
                $crate::funcmap::FuncMap::<$a, $b, _>::func_map_over::<$p, _>(i, $crate::ledger::held(f))
            } else {
                $crate::funcmap::FuncMap::<$a, $b, $p>::func_map(i, $crate::ledger::held(f))
            };
            $crate::IntoV::into_v(o, keep)
        }
    };
}

#[macro_export]
macro_rules! fallible {
    ($p:ty, $a:ty, $b:ty, $i:ty, $o:ty) => {
        |g, over, f, keep| {
            let i = <$i as $crate::Make>::make(g);
            let o: Result<$o, $crate::Er> = if over {
                $crate::funcmap::TryFuncMap::<$a, $b, _>::try_func_map_over::<$p, $crate::Er, _>(i, $crate::ledger::held(f))
            } else {
                $crate::funcmap::TryFuncMap::<$a, $b, $p>::try_func_map(i, $crate::ledger::held(f))
            };
            Ok($crate::IntoV::into_v(o?, keep))
        }
    };
}
