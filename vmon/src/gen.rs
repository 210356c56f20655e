//! Building inputs (`Make`) and taking values apart (`IntoV`) for elements,
//! primitive types and every standard library type with an implementation

use crate::elem::*;
use crate::tree::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
use std::ops::*;
use std::task::Poll;

/// Source of everything random
#[derive(Clone, Debug)]
pub struct G {
    s: u64,
    /// lengths to use for the next containers, outermost first
    pub lens: Vec<usize>,
    /// elements that may still be created before containers get short
    pub budget: i64,
    nkey: u32,
    keymul: u32,
    /// bound for the random length of a container
    pub maxlen: usize,
}

impl G {
    pub fn new(seed: u64) -> G {
        let mut g = G { s: mix(seed, 0x6a09_e667), lens: vec![], budget: 60, nkey: 0, keymul: 1, maxlen: 4 };
        g.keymul = (g.next() as u32 % 40_000) * 2 + 1;
        g
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.s, 1)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn len(&mut self) -> usize {
        if !self.lens.is_empty() {
            return self.lens.remove(0);
        }
        if self.budget <= 0 {
            return self.below(2);
        }
        let m = self.maxlen;
        if self.chance(1, 3) {
            self.below(2 * m + 1)
        } else {
            self.below(m)
        }
    }
    /// A key no other element of this input has
    pub fn key(&mut self) -> u32 {
        self.nkey += 1;
        // injective below 2^20
        (self.nkey.wrapping_mul(self.keymul)) & 0xf_ffff
    }
}

pub trait Make: Sized {
    fn make(g: &mut G) -> Self;
}

macro_rules! elems { ($($t:ident),*) => { $(
    impl<K: Class> Make for $t<K> {
        fn make(g: &mut G) -> Self { g.budget -= 1; let key = g.key(); let p = g.next(); Elem::born(key, p) }
    }
    impl<K: Class> IntoV for $t<K> { fn into_v(self, keep: &mut Keep) -> V { elem_v(self, keep) } }
)* } }
elems!(Tok, Big, Al, Tiny, Z, Cp, Zc);

macro_rules! ints { ($($t:ident),*) => { $(
    impl Make for $t { fn make(g: &mut G) -> Self { g.next() as $t } }
    impl IntoV for $t { fn into_v(self, _: &mut Keep) -> V { V::Int(self as i128) } }
)* } }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

impl Make for bool {
    fn make(g: &mut G) -> Self {
        g.chance(1, 2)
    }
}
impl IntoV for bool {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(self.into())
    }
}
impl Make for char {
    fn make(g: &mut G) -> Self {
        (b'a' + g.below(26) as u8) as char
    }
}
impl IntoV for char {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(u32::from(self).into())
    }
}
impl Make for String {
    fn make(g: &mut G) -> Self {
        format!("s{}", g.next() % 1000)
    }
}
impl IntoV for String {
    fn into_v(self, _: &mut Keep) -> V {
        V::Str(self)
    }
}
const STRS: [&str; 4] = ["", "one", "two", "drei"];
impl Make for &'static str {
    fn make(g: &mut G) -> Self {
        STRS[g.below(4)]
    }
}
impl IntoV for &'static str {
    fn into_v(self, _: &mut Keep) -> V {
        V::Str(self.to_string())
    }
}
static BYTES: [u8; 5] = [1, 2, 3, 4, 5];
impl Make for &'static u8 {
    fn make(g: &mut G) -> Self {
        &BYTES[g.below(5)]
    }
}
impl IntoV for &'static u8 {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(self as *const u8 as i128)
    }
}
impl Make for &'static [u8] {
    fn make(g: &mut G) -> Self {
        let n = g.below(5);
        &BYTES[n..]
    }
}
impl IntoV for &'static [u8] {
    fn into_v(self, _: &mut Keep) -> V {
        V::node("&[u8]", vec![V::Int(self.as_ptr() as i128), V::Int(self.len() as i128)])
    }
}
impl Make for *const u8 {
    fn make(g: &mut G) -> Self {
        &BYTES[g.below(5)]
    }
}
impl IntoV for *const u8 {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(self as i128)
    }
}
fn fa(x: u8) -> u8 {
    x
}
fn fb(x: u8) -> u8 {
    x.wrapping_add(3)
}
impl Make for fn(u8) -> u8 {
    fn make(g: &mut G) -> Self {
        if g.chance(1, 2) { fa } else { fb }
    }
}
impl IntoV for fn(u8) -> u8 {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(self(1).into())
    }
}
impl Make for Box<dyn Fn(u8) -> u8> {
    fn make(g: &mut G) -> Self {
        let k = g.next() as u8;
        Box::new(move |x| x ^ k)
    }
}
impl IntoV for Box<dyn Fn(u8) -> u8> {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(self(0).into())
    }
}

macro_rules! tuples { ($($n:literal: $($t:ident)*;)*) => { $(
    #[allow(non_snake_case, unused_variables, clippy::unused_unit)]
    impl<$($t: Make),*> Make for ($($t,)*) { fn make(g: &mut G) -> Self { ($($t::make(g),)*) } }
    #[allow(non_snake_case, unused_variables)]
    impl<$($t: IntoV),*> IntoV for ($($t,)*) {
        fn into_v(self, keep: &mut Keep) -> V { let ($($t,)*) = self; V::node($n, vec![$($t.into_v(keep)),*]) }
    }
)* } }
tuples! {
    "()":; "(1)": A; "(2)": A B; "(3)": A B C; "(4)": A B C D; "(5)": A B C D E; "(6)": A B C D E F;
    "(7)": A B C D E F H; "(8)": A B C D E F H I; "(9)": A B C D E F H I J; "(10)": A B C D E F H I J K;
    "(11)": A B C D E F H I J K L; "(12)": A B C D E F H I J K L M; "(13)": A B C D E F H I J K L M N;
    "(14)": A B C D E F H I J K L M N O;
    "(18)": A B C D E F H I J K L M N O P Q R S;
}

impl<T: Make, const N: usize> Make for [T; N] {
    fn make(g: &mut G) -> Self {
        std::array::from_fn(|_| T::make(g))
    }
}
impl<T: IntoV, const N: usize> IntoV for [T; N] {
    fn into_v(self, keep: &mut Keep) -> V {
        V::node("array", self.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<T: Make> Make for Option<T> {
    fn make(g: &mut G) -> Self {
        if g.chance(3, 4) { Some(T::make(g)) } else { None }
    }
}
impl<T: IntoV> IntoV for Option<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        match self {
            None => V::Node(0, "None", vec![]),
            Some(x) => V::Node(1, "Some", vec![x.into_v(keep)]),
        }
    }
}
impl<T: Make, U: Make> Make for Result<T, U> {
    fn make(g: &mut G) -> Self {
        if g.chance(1, 2) { Ok(T::make(g)) } else { Err(U::make(g)) }
    }
}
impl<T: IntoV, U: IntoV> IntoV for Result<T, U> {
    fn into_v(self, keep: &mut Keep) -> V {
        match self {
            Ok(x) => V::Node(0, "Ok", vec![x.into_v(keep)]),
            Err(x) => V::Node(1, "Err", vec![x.into_v(keep)]),
        }
    }
}
impl<T: Make> Make for Poll<T> {
    fn make(g: &mut G) -> Self {
        if g.chance(3, 4) { Poll::Ready(T::make(g)) } else { Poll::Pending }
    }
}
impl<T: IntoV> IntoV for Poll<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        match self {
            Poll::Ready(x) => V::Node(0, "Ready", vec![x.into_v(keep)]),
            Poll::Pending => V::Node(1, "Pending", vec![]),
        }
    }
}
impl<T: Make, U: Make> Make for ControlFlow<T, U> {
    fn make(g: &mut G) -> Self {
        if g.chance(1, 2) { ControlFlow::Break(T::make(g)) } else { ControlFlow::Continue(U::make(g)) }
    }
}
impl<T: IntoV, U: IntoV> IntoV for ControlFlow<T, U> {
    fn into_v(self, keep: &mut Keep) -> V {
        match self {
            ControlFlow::Break(x) => V::Node(1, "Break", vec![x.into_v(keep)]),
            ControlFlow::Continue(x) => V::Node(0, "Continue", vec![x.into_v(keep)]),
        }
    }
}
impl<T: Make> Make for Bound<T> {
    fn make(g: &mut G) -> Self {
        match g.below(5) {
            0 | 1 => Bound::Included(T::make(g)),
            2 | 3 => Bound::Excluded(T::make(g)),
            _ => Bound::Unbounded,
        }
    }
}
impl<T: IntoV> IntoV for Bound<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        match self {
            Bound::Included(x) => V::Node(0, "Included", vec![x.into_v(keep)]),
            Bound::Excluded(x) => V::Node(1, "Excluded", vec![x.into_v(keep)]),
            Bound::Unbounded => V::Node(2, "Unbounded", vec![]),
        }
    }
}
impl<T: ?Sized> Make for PhantomData<T> {
    fn make(_: &mut G) -> Self {
        PhantomData
    }
}
impl<T: ?Sized> IntoV for PhantomData<T> {
    fn into_v(self, _: &mut Keep) -> V {
        V::node("PhantomData", vec![])
    }
}
macro_rules! wrappers { ($($t:ident $n:literal $new:expr, $get:expr;)*) => { $(
    impl<T: Make> Make for $t<T> { fn make(g: &mut G) -> Self { ($new)(T::make(g)) } }
    impl<T: IntoV> IntoV for $t<T> { fn into_v(self, keep: &mut Keep) -> V { V::node($n, vec![($get)(self).into_v(keep)]) } }
)* } }
wrappers! {
    Box "Box" Box::new, |b: Box<T>| *b;
    Cell "Cell" Cell::new, Cell::into_inner;
    RefCell "RefCell" RefCell::new, |c: RefCell<T>| c.into_inner();
    UnsafeCell "UnsafeCell" UnsafeCell::new, UnsafeCell::into_inner;
    RangeFrom "RangeFrom" |x: T| x.., |r: RangeFrom<T>| r.start;
    RangeTo "RangeTo" |x: T| ..x, |r: RangeTo<T>| r.end;
    RangeToInclusive "RangeToInclusive" |x: T| ..=x, |r: RangeToInclusive<T>| r.end;
}
impl<T: Make> Make for Range<T> {
    fn make(g: &mut G) -> Self {
        T::make(g)..T::make(g)
    }
}
impl<T: IntoV> IntoV for Range<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        V::node("Range", vec![self.start.into_v(keep), self.end.into_v(keep)])
    }
}
impl<T: Make> Make for RangeInclusive<T> {
    fn make(g: &mut G) -> Self {
        T::make(g)..=T::make(g)
    }
}
impl<T: IntoV> IntoV for RangeInclusive<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let (a, b) = self.into_inner();
        V::node("RangeInclusive", vec![a.into_v(keep), b.into_v(keep)])
    }
}

impl<T: Make> Make for Vec<T> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut v = Vec::with_capacity(if g.chance(1, 2) { n } else { n + g.below(20) });
        for _ in 0..n {
            v.push(T::make(g));
        }
        v
    }
}
impl<T: IntoV> IntoV for Vec<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        if self.capacity() < self.len() {
            keep.broken("Vec has more elements than capacity");
        }
        V::node("Vec", self.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<T: Make> Make for VecDeque<T> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        // either any capacity and split, or a full buffer split at its middle
        // or ends
        let full = g.chance(1, 2);
        let mut v = VecDeque::with_capacity(if full { n } else { n + g.below(9) });
        let rot = match g.below(5) {
            0 if full => 1.min(n),
            1 | 2 if full => n / 2,
            3 if full => n - n / 2,
            4 if full => n.saturating_sub(1),
            _ => g.below(n + 3),
        };
        // move the ring buffer's head around, so that the content wraps
        for _ in 0..rot {
            v.push_back(T::make(g));
            drop(v.pop_front());
        }
        for _ in 0..n {
            v.push_back(T::make(g));
        }
        if !full && g.chance(1, 2) {
            let mid = g.below(n + 1);
            v.rotate_left(mid.min(v.len()));
        }
        v
    }
}
impl<T: IntoV> IntoV for VecDeque<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let (a, b) = self.as_slices();
        if a.len() + b.len() != self.len() {
            keep.broken("VecDeque length is inconsistent");
        }
        V::node("VecDeque", self.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<T: Make> Make for LinkedList<T> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut l = LinkedList::new();
        for i in 0..n {
            if g.chance(1, 3) && i > 0 {
                l.push_front(T::make(g));
            } else {
                l.push_back(T::make(g));
            }
        }
        l
    }
}
impl<T: IntoV> IntoV for LinkedList<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let n = self.len();
        let fwd: Vec<*const T> = self.iter().map(|x| x as *const T).collect();
        let mut bwd: Vec<*const T> = self.iter().rev().map(|x| x as *const T).collect();
        bwd.reverse();
        if fwd != bwd || fwd.len() != n {
            keep.broken("LinkedList links or length are inconsistent");
        }
        V::node("LinkedList", self.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<T: Make + Ord> Make for BinaryHeap<T> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut h = BinaryHeap::with_capacity(g.below(n + 3));
        for _ in 0..n {
            h.push(T::make(g));
        }
        h
    }
}
impl<T: IntoV + Ord> IntoV for BinaryHeap<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let mut h = self;
        let n = h.len();
        if h.peek() != h.iter().max() {
            keep.broken("BinaryHeap: peek() is not the maximum");
        }
        // take half of it apart through pop, the rest through into_sorted_vec
        let mut out: Vec<T> = Vec::new();
        for _ in 0..n / 2 {
            match h.pop() {
                Some(x) => out.push(x),
                None => keep.broken("BinaryHeap: pop() yields too few elements"),
            }
        }
        let mut rest = h.into_sorted_vec();
        rest.reverse();
        out.extend(rest);
        if out.windows(2).any(|w| w[0] < w[1]) {
            keep.broken("BinaryHeap: elements are not popped in descending order");
        }
        if out.len() != n {
            keep.broken("BinaryHeap: len() differs from the number of elements");
        }
        V::Bag("BinaryHeap", out.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<T: Make + Ord> Make for BTreeSet<T> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut s = BTreeSet::new();
        for _ in 0..n {
            s.insert(T::make(g));
        }
        s
    }
}
impl<T: IntoV + Ord> IntoV for BTreeSet<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let mut prev = None;
        let mut count = 0;
        for x in &self {
            count += 1;
            if prev.map_or(false, |p| p >= x) {
                keep.broken("BTreeSet: iteration is not strictly ascending");
            }
            if !self.contains(x) {
                keep.broken("BTreeSet: does not contain an element it yields");
            }
            prev = Some(x);
        }
        if count != self.len() || self.iter().rev().count() != count {
            keep.broken("BTreeSet: len() differs from the number of elements");
        }
        V::node("BTreeSet", self.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<K: Make + Ord, T: Make> Make for BTreeMap<K, T> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut s = BTreeMap::new();
        for _ in 0..n {
            s.insert(K::make(g), T::make(g));
        }
        s
    }
}
impl<K: IntoV + Ord, T: IntoV> IntoV for BTreeMap<K, T> {
    fn into_v(self, keep: &mut Keep) -> V {
        let mut prev = None;
        let mut count = 0;
        for (k, v) in &self {
            count += 1;
            if prev.map_or(false, |p| p >= k) {
                keep.broken("BTreeMap: iteration is not strictly ascending");
            }
            if !self.get(k).map_or(false, |w| std::ptr::eq(v, w)) {
                keep.broken("BTreeMap: lookup does not find an entry it yields");
            }
            prev = Some(k);
        }
        if count != self.len() || self.iter().rev().count() != count {
            keep.broken("BTreeMap: len() differs from the number of entries");
        }
        V::node("BTreeMap", self.into_iter().map(|kv| pair(kv, keep)).collect())
    }
}
fn pair<K: IntoV, T: IntoV>((k, v): (K, T), keep: &mut Keep) -> V {
    let k = k.into_v(keep);
    V::node("(2)", vec![k, v.into_v(keep)])
}
impl<T: Make + Eq + Hash, S: BuildHasher + Default> Make for HashSet<T, S> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut s = HashSet::with_capacity_and_hasher(g.below(n + 9), S::default());
        for _ in 0..n {
            s.insert(T::make(g));
        }
        s
    }
}
impl<T: IntoV + Eq + Hash, S: BuildHasher> IntoV for HashSet<T, S> {
    fn into_v(self, keep: &mut Keep) -> V {
        let mut count = 0;
        for x in &self {
            count += 1;
            if !self.get(x).map_or(false, |y| std::ptr::eq(x, y)) {
                keep.broken("HashSet: does not contain an element it yields");
            }
        }
        if count != self.len() {
            keep.broken("HashSet: len() differs from the number of elements");
        }
        V::Bag("HashSet", self.into_iter().map(|x| x.into_v(keep)).collect())
    }
}
impl<K: Make + Eq + Hash, T: Make, S: BuildHasher + Default> Make for HashMap<K, T, S> {
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut s = HashMap::with_capacity_and_hasher(g.below(n + 9), S::default());
        for _ in 0..n {
            s.insert(K::make(g), T::make(g));
        }
        s
    }
}
impl<K: IntoV + Eq + Hash, T: IntoV, S: BuildHasher> IntoV for HashMap<K, T, S> {
    fn into_v(self, keep: &mut Keep) -> V {
        let mut count = 0;
        for (k, v) in &self {
            count += 1;
            if !self.get(k).map_or(false, |w| std::ptr::eq(v, w)) {
                keep.broken("HashMap: lookup does not find an entry it yields");
            }
        }
        if count != self.len() {
            keep.broken("HashMap: len() differs from the number of entries");
        }
        V::Bag("HashMap", self.into_iter().map(|kv| pair(kv, keep)).collect())
    }
}

// ---- owning iterators, possibly consumed in part

/// Consumes some elements from the front and (if possible) from the back
fn nibble<I: Iterator>(g: &mut G, it: &mut I, n: usize, back: impl Fn(&mut I)) {
    if g.chance(1, 3) || n == 0 {
        return;
    }
    let a = match g.below(4) {
        0 => n,
        1 => 1,
        _ => g.below(n + 1),
    };
    for _ in 0..a {
        drop(it.next());
    }
    let b = if g.chance(1, 2) { g.below(n - a.min(n) + 1) } else { 0 };
    for _ in 0..b {
        back(it);
    }
}

/// Takes a double-ended exact-size iterator apart from both ends
fn ends<I>(name: &'static str, mut it: I, keep: &mut Keep) -> V
where
    I: DoubleEndedIterator + ExactSizeIterator,
    I::Item: IntoV,
{
    let n = it.len();
    if it.size_hint() != (n, Some(n)) {
        keep.broken(format!("{name}: size_hint() differs from len()"));
    }
    let (mut front, mut back) = (Vec::new(), Vec::new());
    let mut i = 0;
    loop {
        let x = if i % 3 == 2 { it.next_back() } else { it.next() };
        match x {
            None => break,
            Some(x) if i % 3 == 2 => back.push(x),
            Some(x) => front.push(x),
        }
        i += 1;
        if i > n + 10_000 {
            keep.broken(format!("{name}: does not end"));
            break;
        }
    }
    if i != n {
        keep.broken(format!("{name}: len() is {n} but it yields {i} elements"));
    }
    back.reverse();
    front.extend(back);
    V::node(name, front.into_iter().map(|x| x.into_v(keep)).collect())
}

fn fwd<I>(name: &'static str, it: I, keep: &mut Keep) -> V
where
    I: Iterator + ExactSizeIterator,
    I::Item: IntoV,
{
    let n = it.len();
    let items: Vec<_> = it.collect();
    if items.len() != n {
        keep.broken(format!("{name}: len() is {n} but it yields {} elements", items.len()));
    }
    V::Bag(name, items.into_iter().map(|x| x.into_v(keep)).collect())
}

macro_rules! iters { ($([$($g:tt)*] $t:ty, $c:ty, $n:literal, $v:ident, $back:expr;)*) => { $(
    impl<$($g)*> Make for $t where $c: Make {
        fn make(g: &mut G) -> Self {
            let c = <$c>::make(g);
            let mut it = c.into_iter();
            let n = it.size_hint().0;
            nibble(g, &mut it, n, $back);
            it
        }
    }
    impl<$($g)*> IntoV for $t where <$t as Iterator>::Item: IntoV {
        fn into_v(self, keep: &mut Keep) -> V { $v($n, self, keep) }
    }
)* } }
/// The same input has to yield the same elements each time it is built
type Fixed = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
iters! {
    [T] option::IntoIter<T>, Option<T>, "option::IntoIter", ends, |i| drop(i.next_back());
    [T] vec::IntoIter<T>, Vec<T>, "vec::IntoIter", ends, |i| drop(i.next_back());
    [T] vec_deque::IntoIter<T>, VecDeque<T>, "vec_deque::IntoIter", ends, |i| drop(i.next_back());
    [T] linked_list::IntoIter<T>, LinkedList<T>, "linked_list::IntoIter", ends, |i| drop(i.next_back());
    [T] binary_heap::IntoIter<T>, BinaryHeap<T>, "binary_heap::IntoIter", fwd, |_| ();
    [T: Ord] btree_set::IntoIter<T>, BTreeSet<T>, "btree_set::IntoIter", ends, |i| drop(i.next_back());
    [K: Ord, T] btree_map::IntoIter<K, T>, BTreeMap<K, T>, "btree_map::IntoIter", ends, |i| drop(i.next_back());
    [T: Eq + Hash] hash_set::IntoIter<T>, HashSet<T, Fixed>, "hash_set::IntoIter", fwd, |_| ();
    [K: Eq + Hash, T] hash_map::IntoIter<K, T>, HashMap<K, T, Fixed>, "hash_map::IntoIter", fwd, |_| ();
}

use std::{option, result, vec};
impl<T: Make> Make for result::IntoIter<T> {
    fn make(g: &mut G) -> Self {
        let r: Result<T, u8> = if g.chance(3, 4) { Ok(T::make(g)) } else { Err(0) };
        let mut it = r.into_iter();
        if g.chance(1, 5) {
            drop(it.next());
        } else if g.chance(1, 6) {
            drop(it.next_back());
        }
        it
    }
}
impl<T: IntoV> IntoV for result::IntoIter<T> {
    fn into_v(self, keep: &mut Keep) -> V {
        ends("result::IntoIter", self, keep)
    }
}
