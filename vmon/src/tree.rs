//! Value trees: what an observer can see of a value, independent of its type

use crate::elem::{Elem, Info};
use std::any::Any;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// element (class, what is known about it)
    Tok(u8, Info),
    Int(i128),
    Str(String),
    /// variant index (orders enum-like nodes), name, children in order
    Node(u32, &'static str, Vec<V>),
    /// children without an order
    Bag(&'static str, Vec<V>),
    /// any of these elements, which are equal to each other
    OneOf(Vec<V>),
}

impl V {
    pub fn node(n: &'static str, c: Vec<V>) -> V {
        V::Node(0, n, c)
    }

    /// Ordering of the values as `Ord` of the real types sees it
    pub fn kcmp(&self, o: &V) -> Ordering {
        use V::*;
        match (self, o) {
            (OneOf(a), b) => a[0].kcmp(b),
            (a, OneOf(b)) => a.kcmp(&b[0]),
            (Tok(c, a), Tok(d, b)) => c.cmp(d).then(a.key.cmp(&b.key)),
            (Int(a), Int(b)) => a.cmp(b),
            (Str(a), Str(b)) => a.cmp(b),
            (Node(i, _, a), Node(j, _, b)) => i.cmp(j).then_with(|| kcmp_all(a, b)),
            (Bag(_, a), Bag(_, b)) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                sort_bag(&mut a);
                sort_bag(&mut b);
                kcmp_all(&a, &b)
            }
            (a, b) => a.rank().cmp(&b.rank()),
        }
    }

    fn rank(&self) -> u8 {
        match self {
            V::Tok(..) => 0,
            V::Int(..) => 1,
            V::Str(..) => 2,
            V::Node(..) => 3,
            V::Bag(..) => 4,
            V::OneOf(..) => 5,
        }
    }

    /// Total order for sorting bags: by key first, then by identity
    fn fcmp(&self, o: &V) -> Ordering {
        self.kcmp(o).then_with(|| {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            self.infos(&mut a);
            o.infos(&mut b);
            a.cmp(&b)
        })
    }

    pub fn infos(&self, out: &mut Vec<Info>) {
        match self {
            V::Tok(_, i) => out.push(*i),
            V::Int(_) | V::Str(_) => (),
            V::Node(_, _, c) | V::Bag(_, c) => c.iter().for_each(|v| v.infos(out)),
            V::OneOf(c) => c[0].infos(out),
        }
    }

    pub fn toks(&self, out: &mut Vec<(u8, Info)>) {
        match self {
            V::Tok(c, i) => out.push((*c, *i)),
            V::Int(_) | V::Str(_) => (),
            V::Node(_, _, c) | V::Bag(_, c) => c.iter().for_each(|v| v.toks(out)),
            V::OneOf(c) => c[0].toks(out),
        }
    }

    pub fn contains_id(&self, id: u64) -> bool {
        match self {
            V::Tok(_, i) => i.id == id,
            V::Int(_) | V::Str(_) => false,
            V::Node(_, _, c) | V::Bag(_, c) | V::OneOf(c) => c.iter().any(|v| v.contains_id(id)),
        }
    }

    /// Is anything in here left open?
    fn open(&self) -> bool {
        match self {
            V::Tok(..) | V::Int(_) | V::Str(_) => false,
            V::Node(_, _, c) | V::Bag(_, c) => c.iter().any(V::open),
            V::OneOf(_) => true,
        }
    }

    /// First difference between an expected and an observed tree; `ids`
    /// decides whether the identity of elements counts or only their
    /// provenance
    pub fn diff(&self, got: &V, ids: bool) -> Option<String> {
        use V::*;
        let miss = || Some(format!("expected {self:?}, got {got:?}"));
        match (self, got) {
            (OneOf(c), g) => {
                if c.iter().any(|e| e.diff(g, ids).is_none()) {
                    None
                } else {
                    miss()
                }
            }
            (Tok(c, a), Tok(d, b)) => {
                let same = c == d && a.key == b.key && a.prov == b.prov && (!ids || a.id == b.id);
                if same { None } else { miss() }
            }
            (Int(a), Int(b)) if a == b => None,
            (Str(a), Str(b)) if a == b => None,
            (Node(i, n, a), Node(j, m, b)) if i == j && n == m && a.len() == b.len() => {
                a.iter().zip(b).enumerate().find_map(|(k, (x, y))| x.diff(y, ids).map(|d| format!("{n}.{k}: {d}")))
            }
            (Bag(n, a), Bag(m, b)) if n == m && a.len() == b.len() => {
                let (mut a, mut b) = (a.clone(), b.clone());
                sort_bag(&mut a);
                sort_bag(&mut b);
                let d = a.iter().zip(&b).find_map(|(x, y)| x.diff(y, ids).map(|d| format!("{n}: {d}")));
                // children that are one of several may sort differently
                d.filter(|_| {
                    a.sort_by_key(V::open);
                    !a.iter().all(|x| {
                        let k = b.iter().position(|y| x.diff(y, ids).is_none());
                        k.map(|k| b.swap_remove(k)).is_some()
                    })
                })
            }
            _ => miss(),
        }
    }
}

fn kcmp_all(a: &[V], b: &[V]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        match x.kcmp(y) {
            Ordering::Equal => (),
            o => return o,
        }
    }
    a.len().cmp(&b.len())
}

pub fn sort_bag(b: &mut [V]) {
    b.sort_by(V::fcmp);
}

/// Keeps the elements of an observed value alive, and collects what is wrong
/// with the containers it went through
#[derive(Default)]
pub struct Keep {
    pub alive: Vec<Box<dyn Any>>,
    pub broken: Vec<String>,
    pub depth: u32,
}

impl Keep {
    pub fn broken(&mut self, msg: impl Into<String>) {
        self.broken.push(msg.into());
    }
}

/// Takes a value apart, observing everything an observer can see
pub trait IntoV {
    fn into_v(self, keep: &mut Keep) -> V;
}

pub fn elem_v<E: Elem>(e: E, keep: &mut Keep) -> V {
    let v = V::Tok(E::CLASS, e.info());
    keep.alive.push(Box::new(e));
    v
}
