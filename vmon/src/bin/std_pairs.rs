//! Monitors standard library types with two parameters, mapped in either order

#![allow(unused_macros, dead_code)]

include!("../std_subjects.rs");

macro_rules! pairs { ($e:expr, $abcd:tt) => {
    pair!($e, "Result<T, U>", TypeParam<0>, TypeParam<1>, $abcd, X, Y => Result<X, Y>);
    pair!($e, "ControlFlow<T, U>", TypeParam<0>, TypeParam<1>, $abcd, X, Y => ControlFlow<X, Y>);
    pair!($e, "BTreeMap<T, U>", TypeParam<0>, TypeParam<1>, $abcd, X, Y => BTreeMap<X, Y>);
    pair!($e, "btree_map::IntoIter<T, U>", TypeParam<0>, TypeParam<1>, $abcd, X, Y => btree_map::IntoIter<X, Y>);
    pair!($e, "HashMap<T, U>", TypeParam<0>, TypeParam<1>, $abcd, X, Y => HashMap<X, Y>);
    pair!($e, "hash_map::IntoIter<T, U>", TypeParam<0>, TypeParam<1>, $abcd, X, Y => hash_map::IntoIter<X, Y>);
    pair!($e, "HashMap<U, T>", TypeParam<1>, TypeParam<0>, $abcd, X, Y => HashMap<Y, X>);
} }

fn main() {
    let mut e = Engine::from_args();
    let e = &mut e;
    pairs!(e, [Tok<Src>, Tok<Dst>, Tok<Oth>, Tok<Oth2>]);
    pairs!(e, [Tok<Src>, Big<Dst>, Al<Oth>, Cp<Oth2>]);
    pairs!(e, [Tok<Src>, Tok<Src>, Tok<Src>, Tok<Src>]);
    pairs!(e, [Tok<Src>, Tok<Dst>, Tok<Src>, Tok<Dst>]);
    e.finish()
}
