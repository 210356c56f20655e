// Subjects for the standard library types; included by the binaries

use funcmap::TypeParam;
use std::cell::*;
use std::collections::*;
use std::marker::PhantomData;
use std::ops::*;
use std::task::Poll;
use std::{option, result, vec};
use vmon::*;

const L: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 520, 1030];
const S: &[usize] = &[0, 1, 2, 3, 5, 8, 17, 33, 64];
const N: &[usize] = &[];

fn app1(con: Con) -> Ty {
    Ty::App(con, vec![Some(Ty::Param)])
}
fn app(con: Con, slot: usize) -> Ty {
    let mut a = vec![None, None];
    a[slot] = Some(Ty::Param);
    Ty::App(con, a)
}

type O = Tok<Oth>;

macro_rules! arrays { ($e:expr, $abm:tt, $($n:literal)*) => { $(
    subject!($e, concat!("[T; ", $n, "]"), Ty::Array(Box::new(Ty::Param)), false, N, TypeParam<0>, $abm, X => [X; $n]);
)* } }

/// containers whose content is a sequence
macro_rules! seqs { ($e:expr, $lens:expr, $abm:tt) => {
    subject!($e, "Vec<T>", app1(Con::Seq), false, $lens, TypeParam<0>, $abm, X => Vec<X>);
    subject!($e, "vec::IntoIter<T>", app1(Con::Seq), false, $lens, TypeParam<0>, $abm, X => vec::IntoIter<X>);
    subject!($e, "VecDeque<T>", app1(Con::Seq), false, $lens, TypeParam<0>, $abm, X => VecDeque<X>);
    subject!($e, "vec_deque::IntoIter<T>", app1(Con::Seq), false, $lens, TypeParam<0>, $abm, X => vec_deque::IntoIter<X>);
    subject!($e, "LinkedList<T>", app1(Con::Seq), false, $lens, TypeParam<0>, $abm, X => LinkedList<X>);
    subject!($e, "linked_list::IntoIter<T>", app1(Con::Seq), false, $lens, TypeParam<0>, $abm, X => linked_list::IntoIter<X>);
    subject!($e, "BTreeMap<_, T>", app(Con::OrdMap, 1), false, $lens, TypeParam<1>, $abm, X => BTreeMap<O, X>);
    subject!($e, "btree_map::IntoIter<_, T>", app(Con::OrdMap, 1), false, $lens, TypeParam<1>, $abm, X => btree_map::IntoIter<O, X>);
} }

/// everything in core, where all hold a fixed number of elements
macro_rules! core { ($e:expr, $abm:tt) => {
    arrays!($e, $abm, 0 1 2 3 4 5 6 7 8 9 10 11 12 15 16 17 24 31 32 33 63 64 65 100 128 129 257 1025);
    subject!($e, "Option<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => Option<X>);
    subject!($e, "option::IntoIter<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => option::IntoIter<X>);
    subject!($e, "Result<T, _>", app(Con::Variant(0), 0), false, N, TypeParam<0>, $abm, X => Result<X, O>);
    subject!($e, "Result<_, T>", app(Con::Variant(0), 1), false, N, TypeParam<1>, $abm, X => Result<O, X>);
    subject!($e, "result::IntoIter<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => result::IntoIter<X>);
    subject!($e, "ControlFlow<T, _>", app(Con::Variant(1), 0), false, N, TypeParam<0>, $abm, X => ControlFlow<X, O>);
    subject!($e, "ControlFlow<_, T>", app(Con::Variant(1), 1), false, N, TypeParam<1>, $abm, X => ControlFlow<O, X>);
    subject!($e, "Poll<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => Poll<X>);
    subject!($e, "Bound<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => Bound<X>);
    subject!($e, "Range<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => Range<X>);
    subject!($e, "RangeInclusive<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => RangeInclusive<X>);
    subject!($e, "RangeFrom<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => RangeFrom<X>);
    subject!($e, "RangeTo<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => RangeTo<X>);
    subject!($e, "RangeToInclusive<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => RangeToInclusive<X>);
    subject!($e, "Cell<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => Cell<X>);
    subject!($e, "RefCell<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => RefCell<X>);
    subject!($e, "UnsafeCell<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => UnsafeCell<X>);
    subject!($e, "PhantomData<T>", app1(Con::Phantom), false, N, TypeParam<0>, $abm, X => PhantomData<X>);
} }

/// everything that holds a fixed number of elements
macro_rules! fixed { ($e:expr, $abm:tt) => {
    core!($e, $abm);
    subject!($e, "Box<T>", app1(Con::Seq), false, N, TypeParam<0>, $abm, X => Box<X>);
} }

/// containers that find their elements by key
macro_rules! ordered { ($e:expr, $lens:expr, $abm:tt) => {
    subject!($e, "BTreeSet<T>", app1(Con::OrdSet), true, $lens, TypeParam<0>, $abm, X => BTreeSet<X>);
    subject!($e, "btree_set::IntoIter<T>", app1(Con::OrdSet), true, $lens, TypeParam<0>, $abm, X => btree_set::IntoIter<X>);
    subject!($e, "BTreeMap<T, _>", app(Con::OrdMap, 0), true, $lens, TypeParam<0>, $abm, X => BTreeMap<X, O>);
    subject!($e, "btree_map::IntoIter<T, _>", app(Con::OrdMap, 0), true, $lens, TypeParam<0>, $abm, X => btree_map::IntoIter<X, O>);
} }
macro_rules! keyed { ($e:expr, $lens:expr, $abm:tt) => {
    ordered!($e, $lens, $abm);
    subject!($e, "HashSet<T>", app1(Con::HashSet), true, $lens, TypeParam<0>, $abm, X => HashSet<X>);
    subject!($e, "hash_set::IntoIter<T>", app1(Con::HashSet), true, $lens, TypeParam<0>, $abm, X => hash_set::IntoIter<X>);
    subject!($e, "HashMap<T, _>", app(Con::HashMap, 0), true, $lens, TypeParam<0>, $abm, X => HashMap<X, O>);
    subject!($e, "hash_map::IntoIter<T, _>", app(Con::HashMap, 0), true, $lens, TypeParam<0>, $abm, X => hash_map::IntoIter<X, O>);
} }

macro_rules! heaps { ($e:expr, $lens:expr, $abm:tt) => {
    subject!($e, "BinaryHeap<T>", app1(Con::Heap), true, $lens, TypeParam<0>, $abm, X => BinaryHeap<X>);
    subject!($e, "binary_heap::IntoIter<T>", app1(Con::Heap), true, $lens, TypeParam<0>, $abm, X => binary_heap::IntoIter<X>);
} }

macro_rules! hashval { ($e:expr, $lens:expr, $abm:tt) => {
    subject!($e, "HashMap<_, T>", app(Con::HashMap, 1), false, $lens, TypeParam<1>, $abm, X => HashMap<O, X>);
    subject!($e, "hash_map::IntoIter<_, T>", app(Con::HashMap, 1), false, $lens, TypeParam<1>, $abm, X => hash_map::IntoIter<O, X>);
} }

macro_rules! everything { ($e:expr, $lens:expr, $abm:tt) => {
    fixed!($e, $abm);
    seqs!($e, $lens, $abm);
    keyed!($e, $lens, $abm);
    heaps!($e, $lens, $abm);
    hashval!($e, $lens, $abm);
} }

