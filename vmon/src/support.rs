//! Types with hand-written implementations, for use in generated definitions

use crate::gen::{Make, G};
use crate::tree::{IntoV, Keep, V};
use funcmap::{FuncMap, TryFuncMap, TypeParam};

/// Sequence of up to two elements
pub struct Manual<T>(pub Option<T>, pub Box<T>);

impl<A, B> FuncMap<A, B> for Manual<A> {
    type Output = Manual<B>;
    fn func_map<F>(self, mut f: F) -> Manual<B>
    where
        F: FnMut(A) -> B,
    {
        Manual(self.0.map(&mut f), Box::new(f(*self.1)))
    }
}
impl<A, B> TryFuncMap<A, B> for Manual<A> {
    type Output = Manual<B>;
    fn try_func_map<E, F>(self, mut f: F) -> Result<Manual<B>, E>
    where
        F: FnMut(A) -> Result<B, E>,
    {
        Ok(Manual(self.0.map(&mut f).transpose()?, Box::new(f(*self.1)?)))
    }
}
impl<T: Make> Make for Manual<T> {
    fn make(g: &mut G) -> Self {
        Manual(Make::make(g), Make::make(g))
    }
}
impl<T: IntoV> IntoV for Manual<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let a = self.0.into_v(keep);
        V::node("Manual", vec![a, (*self.1).into_v(keep)])
    }
}

/// Only mappable over its last parameter, whose marker is 2
pub struct Third<T, const N: usize, U>(pub [T; N], pub U);

impl<T, const N: usize, A, B> FuncMap<A, B, TypeParam<2>> for Third<T, N, A> {
    type Output = Third<T, N, B>;
    fn func_map<F>(self, mut f: F) -> Third<T, N, B>
    where
        F: FnMut(A) -> B,
    {
        Third(self.0, f(self.1))
    }
}
impl<T, const N: usize, A, B> TryFuncMap<A, B, TypeParam<2>> for Third<T, N, A> {
    type Output = Third<T, N, B>;
    fn try_func_map<E, F>(self, mut f: F) -> Result<Third<T, N, B>, E>
    where
        F: FnMut(A) -> Result<B, E>,
    {
        Ok(Third(self.0, f(self.1)?))
    }
}
impl<T: Make, const N: usize, U: Make> Make for Third<T, N, U> {
    fn make(g: &mut G) -> Self {
        Third(Make::make(g), Make::make(g))
    }
}
impl<T: IntoV, const N: usize, U: IntoV> IntoV for Third<T, N, U> {
    fn into_v(self, keep: &mut Keep) -> V {
        let a = self.0.into_v(keep);
        V::node("Third", vec![a, self.1.into_v(keep)])
    }
}
/// Definitions of the types in this module, the first ones of every program
pub fn defs() -> Vec<crate::model::Def> {
    vec![
        crate::model::Def::parse("Manual", &["s(P);P"]),
        crate::model::Def::parse("Third", &["I;I", "", "I;P"]),
    ]
}

/// Family of types, for generic associated types
pub trait Family {
    type Of<T>;
    type Item;
}
pub struct Vecs;
impl Family for Vecs {
    type Of<T> = Vec<T>;
    type Item = u16;
}
