//! Reference model: what mapping a value must do, interpreted over value trees
//! and driven by the observed sequence of closure calls

use crate::elem::Info;
use crate::tree::V;

/// How a type depends on the type parameter being mapped
#[derive(Clone, Debug)]
pub enum Ty {
    /// does not depend on it: left untouched
    Indep,
    /// is the type parameter
    Param,
    Tuple(Vec<Ty>),
    Array(Box<Ty>),
    /// generic type applied to type/const arguments (`None`: not dependent)
    App(Con, Vec<Option<Ty>>),
}

#[derive(Clone, Debug)]
pub enum Con {
    /// sequence-like: every child is an occurrence of the parameter, in order
    Seq,
    /// a variant with this index maps its children, other variants don't
    Variant(u32),
    /// no occurrence at all
    Phantom,
    Heap,
    OrdSet,
    OrdMap,
    HashSet,
    HashMap,
    /// user-defined type, index into the definitions
    User(usize),
}

/// A user-defined type
#[derive(Clone, Debug, Default)]
pub struct Def {
    pub name: &'static str,
    /// per type/const parameter: per variant: the field types' dependency
    pub params: Vec<Vec<Vec<Ty>>>,
}

/// What the closure did with a call
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Outcome {
    /// returned this element
    Ret(u8, Info),
    /// returned `Err` with this element
    Fail(Info),
    Panic(u64),
}

#[derive(Clone, Copy, Debug)]
pub struct Call {
    pub class: u8,
    pub src: Info,
    pub out: Outcome,
}

pub enum Stop {
    /// the closure failed or panicked
    Abort,
    /// what was observed contradicts the model
    Mismatch(String),
}
type Res = Result<V, Stop>;

pub struct Model<'a> {
    pub defs: &'a [Def],
    pub trace: &'a [Call],
    pub pos: usize,
    /// elements have no identity
    pub anon: bool,
    /// two keys collided somewhere
    pub collisions: u64,
}

fn mism<T>(msg: String) -> Result<T, Stop> {
    Err(Stop::Mismatch(msg))
}

type Leaf<'f> = &'f mut dyn FnMut(&mut Model<'_>, V) -> Res;

impl<'a> Model<'a> {
    pub fn new(defs: &'a [Def], trace: &'a [Call], anon: bool) -> Self {
        Model { defs, trace, pos: 0, anon, collisions: 0 }
    }

    /// Expected output for this input, or why there is none
    pub fn run(&mut self, ty: &Ty, input: V) -> Res {
        let r = self.map(ty, input, &mut |m, v| m.call(v));
        if let Ok(_) | Err(Stop::Abort) = &r {
            if self.pos < self.trace.len() {
                return mism(format!(
                    "{} further closure call(s) after the {} expected ones, the next with {:?}",
                    self.trace.len() - self.pos,
                    self.pos,
                    self.trace[self.pos].src
                ));
            }
        }
        r
    }

    /// The elements that belong to the mapped parameter
    pub fn members(defs: &'a [Def], ty: &Ty, input: &V) -> Option<Vec<u64>> {
        let mut ids = Vec::new();
        let mut m = Model::new(defs, &[], true);
        let r = m.map(ty, input.clone(), &mut |_, v| {
            if let V::Tok(_, i) = &v {
                ids.push(i.id);
            }
            Ok(v)
        });
        r.ok().map(|_| ids)
    }

    fn call(&mut self, v: V) -> Res {
        let V::Tok(class, info) = &v else {
            return mism(format!("model: not an element: {v:?}"));
        };
        let Some(c) = self.trace.get(self.pos) else {
            return mism(format!("closure was not called with {info:?} (only {} calls)", self.trace.len()));
        };
        if c.class != *class || c.src != *info {
            return mism(format!("closure call {} got {:?} instead of {info:?}", self.pos, c.src));
        }
        self.pos += 1;
        match c.out {
            Outcome::Ret(class, info) => Ok(V::Tok(class, info)),
            Outcome::Fail(_) | Outcome::Panic(_) => Err(Stop::Abort),
        }
    }

    fn map(&mut self, ty: &Ty, v: V, leaf: Leaf<'_>) -> Res {
        match (ty, v) {
            (Ty::Indep, v) => Ok(v),
            (t, V::OneOf(cand)) => self.one_of(t, cand, leaf),
            (Ty::Param, v) => leaf(self, v),
            (Ty::Tuple(tys), V::Node(i, n, c)) if tys.len() == c.len() => {
                let mut out = Vec::with_capacity(c.len());
                for (t, x) in tys.iter().zip(c) {
                    out.push(self.map(t, x, leaf)?);
                }
                Ok(V::Node(i, n, out))
            }
            (Ty::Array(t), V::Node(i, n, c)) => {
                let mut out = Vec::with_capacity(c.len());
                for x in c {
                    out.push(self.map(t, x, leaf)?);
                }
                Ok(V::Node(i, n, out))
            }
            (Ty::App(con, args), mut v) => {
                for (slot, arg) in args.iter().enumerate() {
                    if let Some(t) = arg {
                        v = self.con(con, slot, v, &mut |m, x| m.map(t, x, leaf))?;
                    }
                }
                Ok(v)
            }
            (t, v) => mism(format!("model: {t:?} does not fit {v:?}")),
        }
    }

    /// Maps a value that is one of several candidates, since an earlier step
    /// didn't specify which one is kept: the calls tell which one it was
    fn one_of(&mut self, ty: &Ty, cand: Vec<V>, leaf: Leaf<'_>) -> Res {
        let start = (self.pos, self.collisions);
        let mut best: Option<(usize, u64, Vec<V>, bool)> = None;
        let mut why = None;
        for v in cand {
            (self.pos, self.collisions) = start;
            let r = self.map(ty, v, leaf);
            let (pos, coll) = (self.pos, self.collisions);
            let (out, abort) = match r {
                Ok(v) => (vec![v], false),
                Err(Stop::Abort) => (vec![], true),
                Err(Stop::Mismatch(m)) => {
                    why.get_or_insert(m);
                    continue;
                }
            };
            match &mut best {
                Some((p, ..)) if *p > pos => {}
                Some((p, _, o, a)) if *p == pos && *a == abort => o.extend(out),
                b => *b = Some((pos, coll, out, abort)),
            }
        }
        match best {
            Some((pos, coll, mut out, abort)) => {
                (self.pos, self.collisions) = (pos, coll);
                match out.len() {
                    _ if abort => Err(Stop::Abort),
                    1 => Ok(out.remove(0)),
                    _ => Ok(V::OneOf(out)),
                }
            }
            None => mism(why.unwrap_or_default()),
        }
    }

    /// Next item to process among those of a container without an order
    fn pick(&self, items: &[V]) -> usize {
        match self.trace.get(self.pos) {
            Some(c) if !self.anon => items.iter().position(|v| v.contains_id(c.src.id)).unwrap_or(0),
            _ => 0,
        }
    }

    fn con(&mut self, con: &Con, slot: usize, v: V, leaf: Leaf<'_>) -> Res {
        match (con, v) {
            (Con::Phantom, v) => Ok(v),
            (Con::Seq, V::Node(i, n, c)) => {
                let mut out = Vec::with_capacity(c.len());
                for x in c {
                    out.push(leaf(self, x)?);
                }
                Ok(V::Node(i, n, out))
            }
            (Con::Variant(k), V::Node(i, n, c)) => {
                // slot 0 of ControlFlow is Break, slot 0 of Result is Ok, ...
                let hit = match (*k, slot) {
                    (0, s) => i == s as u32,
                    (_, s) => i == 1 - s as u32,
                };
                if !hit {
                    return Ok(V::Node(i, n, c));
                }
                let mut out = Vec::with_capacity(c.len());
                for x in c {
                    out.push(leaf(self, x)?);
                }
                Ok(V::Node(i, n, out))
            }
            (Con::Heap, V::Bag(n, c)) => Ok(V::Bag(n, self.unordered(c, leaf)?)),
            (Con::HashSet, V::Bag(n, c)) => {
                let out = self.unordered(c, leaf)?;
                Ok(V::Bag(n, self.dedup(out)))
            }
            (Con::OrdSet, V::Node(i, n, c)) => {
                let mut out = Vec::with_capacity(c.len());
                for x in c {
                    out.push(leaf(self, x)?);
                }
                let mut out = self.dedup(out);
                out.sort_by(V::kcmp);
                Ok(V::Node(i, n, out))
            }
            (Con::OrdMap, V::Node(i, n, c)) => {
                let mut out = Vec::with_capacity(c.len());
                for x in c {
                    out.push(self.entry(slot, x, leaf)?);
                }
                if slot == 0 {
                    out = self.dedup_entries(out);
                    out.sort_by(|a, b| entry_key(a).kcmp(entry_key(b)));
                }
                Ok(V::Node(i, n, out))
            }
            (Con::HashMap, V::Bag(n, c)) => {
                let mut out = self.unordered(c, &mut |m, x| m.entry(slot, x, leaf))?;
                if slot == 0 {
                    out = self.dedup_entries(out);
                }
                Ok(V::Bag(n, out))
            }
            (Con::User(d), V::Node(i, n, c)) => {
                let defs = self.defs;
                let Some(tys) = defs[*d].params.get(slot).and_then(|p| p.get(i as usize)) else {
                    return mism(format!("model: {} has no parameter {slot} or variant {i}", defs[*d].name));
                };
                if tys.len() != c.len() {
                    return mism(format!("model: {} has {} fields, got {}", defs[*d].name, tys.len(), c.len()));
                }
                let mut out = Vec::with_capacity(c.len());
                for (t, x) in tys.iter().zip(c) {
                    out.push(self.map(t, x, leaf)?);
                }
                Ok(V::Node(i, n, out))
            }
            (c, v) => mism(format!("model: {c:?} does not fit {v:?}")),
        }
    }

    fn unordered(&mut self, mut items: Vec<V>, leaf: Leaf<'_>) -> Result<Vec<V>, Stop> {
        let mut out = Vec::with_capacity(items.len());
        while !items.is_empty() {
            let k = self.pick(&items);
            let x = items.swap_remove(k);
            out.push(leaf(self, x)?);
        }
        Ok(out)
    }

    fn entry(&mut self, slot: usize, e: V, leaf: Leaf<'_>) -> Res {
        let V::Node(i, n, mut c) = e else {
            return mism(format!("model: not an entry: {e:?}"));
        };
        let x = std::mem::replace(&mut c[slot], V::Int(0));
        c[slot] = leaf(self, x)?;
        Ok(V::Node(i, n, c))
    }

    /// Which of several equal elements a set keeps is not specified
    fn dedup(&mut self, items: Vec<V>) -> Vec<V> {
        let mut out: Vec<V> = Vec::new();
        for x in items {
            match out.iter_mut().find(|y| y.kcmp(&x).is_eq()) {
                Some(V::OneOf(c)) => {
                    self.collisions += 1;
                    c.push(x)
                }
                Some(y) => {
                    self.collisions += 1;
                    *y = V::OneOf(vec![y.clone(), x])
                }
                None => out.push(x),
            }
        }
        out
    }

    /// Of several entries with equal keys, the last one determines the value
    fn dedup_entries(&mut self, items: Vec<V>) -> Vec<V> {
        let mut out: Vec<V> = Vec::new();
        for x in items {
            let found = out.iter().position(|y| entry_key(y).kcmp(entry_key(&x)).is_eq());
            match (found, x) {
                (Some(k), V::Node(_, _, mut c)) => {
                    self.collisions += 1;
                    let (val, key) = (c.pop().unwrap(), c.pop().unwrap());
                    if let V::Node(_, _, d) = &mut out[k] {
                        d[1] = val;
                        if let V::OneOf(cand) = &mut d[0] {
                            cand.push(key);
                        } else {
                            d[0] = V::OneOf(vec![d[0].clone(), key]);
                        }
                    }
                }
                (_, x) => out.push(x),
            }
        }
        out
    }
}

fn entry_key(e: &V) -> &V {
    match e {
        V::Node(_, _, c) => &c[0],
        _ => e,
    }
}
