//! Maps collections of a given size and reports what that takes: stack, heap,
//! comparisons, hashes. Run under a tool that counts instructions.
//!
//! `scale` lists the cases, `scale CASE MODE N` runs one.

#![allow(clippy::type_complexity)]

use funcmap::{FuncMap, TryFuncMap, TypeParam};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cmp::Ordering;
use std::collections::*;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

macro_rules! counters { ($($n:ident)*) => { $( static $n: AtomicUsize = AtomicUsize::new(0); )* } }
counters! { BLOCKS BYTES LIVE PEAK CMPS HASHES CALLS DROPS DEEPEST }

struct Count;
fn more(n: usize) {
    BLOCKS.fetch_add(1, Relaxed);
    BYTES.fetch_add(n, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size(), Relaxed);
        more(n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Count = Count;

/// Notes how deep the stack is
#[inline(never)]
fn here() {
    let x = 0u8;
    let a = std::hint::black_box(&x) as *const u8 as usize;
    DEEPEST.fetch_min(a, Relaxed);
}

macro_rules! elems { ($($n:ident)*) => { $(
    /// An element that notes what happens to it
    pub struct $n(u64);
    impl Drop for $n {
        fn drop(&mut self) {
            DROPS.fetch_add(1, Relaxed);
            here();
        }
    }
    impl Ord for $n {
        fn cmp(&self, o: &Self) -> Ordering {
            CMPS.fetch_add(1, Relaxed);
            here();
            self.0.cmp(&o.0)
        }
    }
    impl PartialOrd for $n {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            Some(self.cmp(o))
        }
    }
    impl PartialEq for $n {
        fn eq(&self, o: &Self) -> bool {
            CMPS.fetch_add(1, Relaxed);
            here();
            self.0 == o.0
        }
    }
    impl Eq for $n {}
    impl Hash for $n {
        fn hash<H: Hasher>(&self, h: &mut H) {
            HASHES.fetch_add(1, Relaxed);
            here();
            self.0.hash(h);
        }
    }
)* } }
elems! { A B }

fn key(n: u64, mode: usize) -> u64 {
    match mode {
        // as they come, the other way round, anyhow
        0 => n,
        1 => u64::MAX - n,
        _ => n.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17),
    }
}
fn call(a: A, mode: usize) -> B {
    CALLS.fetch_add(1, Relaxed);
    here();
    B(key(a.0, mode))
}
fn a(n: usize) -> impl Iterator<Item = A> {
    (0..n as u64).map(A)
}

const MODES: usize = 8;
/// 0-2: plainly, 3-5: fallibly, 6: failing at the last element, 7: in the middle
fn run<T, U, P>(n: usize, mode: usize, input: T)
where
    T: FuncMap<A, B, P, Output = U> + TryFuncMap<A, B, P, Output = U>,
    P: funcmap::FuncMarker<P>,
{
    DEEPEST.store(usize::MAX, Relaxed);
    for c in [&BLOCKS, &BYTES, &CMPS, &HASHES, &CALLS, &DROPS] {
        c.store(0, Relaxed);
    }
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let base = std::hint::black_box(&before) as *const usize as usize;
    if mode < 3 {
        let o = input.func_map(|x| call(x, mode));
        drop(o);
    } else {
        let stop = match mode {
            6 => n.saturating_sub(1),
            7 => n / 2,
            _ => usize::MAX,
        };
        let mut k = 0;
        let o = input.try_func_map(|x| {
            k += 1;
            if k > stop {
                return Err(call(x, 0));
            }
            Ok(call(x, mode % 3))
        });
        drop(o);
    }
    let deepest = DEEPEST.load(Relaxed);
    let stack = if deepest == usize::MAX { 0 } else { base.abs_diff(deepest) };
    println!(
        "SC\t{}\t{stack}\t{}\t{}\t{}\t{}\t{}\t{}",
        CALLS.load(Relaxed),
        CMPS.load(Relaxed),
        HASHES.load(Relaxed),
        BLOCKS.load(Relaxed),
        BYTES.load(Relaxed),
        PEAK.load(Relaxed).saturating_sub(before),
        DROPS.load(Relaxed),
    );
}

#[derive(FuncMap, TryFuncMap)]
struct Record<T, U = u8> {
    one: T,
    list: Vec<Option<T>>,
    pairs: Vec<(T, T)>,
    map: BTreeMap<u32, Box<T>>,
    other: LinkedList<U>,
    both: VecDeque<Result<T, T>>,
}
#[derive(FuncMap, TryFuncMap)]
enum Either<T: Ord> {
    Set(BTreeSet<T>),
    Lists(Vec<Vec<T>>),
    Chunks { items: Vec<[T; 4]>, rest: Vec<T> },
}
/// Fields of a type like this one, as deep as can be
#[derive(FuncMap, TryFuncMap)]
struct Deep<T>(Vec<Vec<LinkedList<Option<Box<(T, T)>>>>>);

fn root(n: usize) -> usize {
    (n as f64).sqrt() as usize
}

macro_rules! cases { ($($name:literal: $p:ty, $e:expr;)*) => {
    const CASES: &[&str] = &[$($name),*];
    fn go(name: &str, mode: usize, n: usize) {
        match name {
            $($name => {
                let input: fn(usize) -> _ = $e;
                run::<_, _, $p>(n, mode, input(n))
            })*
            _ => panic!("no such case"),
        }
    }
} }
type P0 = TypeParam<0>;
type P1 = TypeParam<1>;
cases! {
    "Vec": P0, |n| a(n).collect::<Vec<_>>();
    "vec::IntoIter": P0, |n| a(n).collect::<Vec<_>>().into_iter();
    "VecDeque": P0, |n| { let mut d: VecDeque<_> = a(n).collect(); d.rotate_left(n / 2); d };
    "vec_deque::IntoIter": P0, |n| a(n).collect::<VecDeque<_>>().into_iter();
    "LinkedList": P0, |n| a(n).collect::<LinkedList<_>>();
    "linked_list::IntoIter": P0, |n| a(n).collect::<LinkedList<_>>().into_iter();
    "BinaryHeap": P0, |n| a(n).collect::<BinaryHeap<_>>();
    "binary_heap::IntoIter": P0, |n| a(n).collect::<BinaryHeap<_>>().into_iter();
    "BTreeSet": P0, |n| a(n).collect::<BTreeSet<_>>();
    "btree_set::IntoIter": P0, |n| a(n).collect::<BTreeSet<_>>().into_iter();
    "BTreeMap keys": P0, |n| a(n).map(|x| (x, 0u8)).collect::<BTreeMap<_, _>>();
    "BTreeMap values": P1, |n| a(n).map(|x| (x.0, x)).collect::<BTreeMap<_, _>>();
    "btree_map::IntoIter keys": P0, |n| a(n).map(|x| (x, 0u8)).collect::<BTreeMap<_, _>>().into_iter();
    "btree_map::IntoIter values": P1, |n| a(n).map(|x| (x.0, x)).collect::<BTreeMap<_, _>>().into_iter();
    "HashSet": P0, |n| a(n).collect::<HashSet<_>>();
    "hash_set::IntoIter": P0, |n| a(n).collect::<HashSet<_>>().into_iter();
    "HashMap keys": P0, |n| a(n).map(|x| (x, 0u8)).collect::<HashMap<_, _>>();
    "HashMap values": P1, |n| a(n).map(|x| (x.0, x)).collect::<HashMap<_, _>>();
    "hash_map::IntoIter keys": P0, |n| a(n).map(|x| (x, 0u8)).collect::<HashMap<_, _>>().into_iter();
    "hash_map::IntoIter values": P1, |n| a(n).map(|x| (x.0, x)).collect::<HashMap<_, _>>().into_iter();
    "Record": P0, |n| Record {
        one: A(0), list: a(n / 4).map(Some).collect(), pairs: a(n / 8).map(|x| (A(x.0), x)).collect(),
        map: a(n / 4).map(|x| (x.0 as u32, Box::new(x))).collect(), other: LinkedList::from([1u8, 2]),
        both: a(n / 4).map(|x| if x.0 % 2 == 0 { Ok(x) } else { Err(x) }).collect(),
    };
    "Record, another parameter": P1, |n| Record {
        one: 0u8, list: vec![Some(1)], pairs: vec![], map: (0..n as u32).map(|x| (x, Box::new(1))).collect(), other: a(n).collect(),
        both: VecDeque::new(),
    };
    "Either, set": P0, |n| Either::Set(a(n).collect());
    "Either, lists": P0, |n| { let r = root(n); Either::Lists((0..r).map(|_| a(r).collect()).collect()) };
    "Either, chunks": P0, |n| Either::Chunks { items: a(n / 8).map(|x| [A(1), A(2), A(3), x]).collect(), rest: a(n / 2).collect() };
    "Deep": P0, |n| { let r = root(n / 2); Deep(vec![(0..r).map(|_| a(r).map(|x| Some(Box::new((A(0), x)))).collect()).collect()]) };
}

/// Sizes of arrays are part of their types
fn arrays(mode: usize, n: usize) {
    macro_rules! sizes { ($($k:literal)*) => { match n {
        $($k => run::<[A; $k], _, P0>(n, mode, {
            let v: Vec<A> = a(n).collect();
            v.try_into().unwrap_or_else(|_| panic!())
        }),)*
        _ => panic!("no array of that size"),
    } } }
    sizes!(0 500 4000);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        println!("MODES\t{MODES}");
        CASES.iter().for_each(|c| println!("CASE\t{c}"));
        println!("CASE\tarray");
        return;
    }
    let (mode, n) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    if args[1] == "array" {
        // they live on the stack
        let t = std::thread::Builder::new().stack_size(64 << 20);
        t.spawn(move || arrays(mode, n)).unwrap().join().unwrap();
    } else {
        go(&args[1], mode, n);
    }
}
