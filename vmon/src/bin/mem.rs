//! Drives the mapping code with element types whose validity a memory checker
//! (Miri, AddressSanitizer) can judge by itself. There is no ledger here: the
//! oracle is the checker this program runs under.

#![allow(unused_macros, dead_code)]

use funcmap::{FuncMap, TryFuncMap, TypeParam};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::*;
use std::collections::*;
use std::convert::Infallible;
use std::marker::PhantomData;
use std::num::NonZeroU8;
use std::ops::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::task::Poll;
use std::{option, result, vec};
use vmon::{IntoV, Keep, Make, G, V};

/// Live heap memory of this thread, for `--leaks`
struct Count;
thread_local! { static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; }
fn live(blocks: i64, bytes: i64) {
    let _ = LIVE.try_with(|l| l.set((l.get().0 + blocks, l.get().1 + bytes)));
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            live(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            live(0, n as i64 - l.size() as i64);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Count = Count;

/// Elements: `rd` touches every byte
pub trait Val: Sized + Ord + std::hash::Hash + 'static {
    fn mk(n: u32) -> Self;
    fn rd(&self) -> u32;
}
macro_rules! vals { ($($(#[$a:meta])* $n:ident($t:ty), $mk:expr, $rd:expr;)*) => { $(
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash)] $(#[$a])*
    pub struct $n($t);
    impl Val for $n {
        fn mk(n: u32) -> Self { $n(($mk)(n)) }
        fn rd(&self) -> u32 { let f: fn(&$t) -> u32 = $rd; f(&self.0) }
    }
    impl Make for $n { fn make(g: &mut G) -> Self { let k = g.key(); $n::mk(k) } }
    impl IntoV for $n { fn into_v(self, _: &mut Keep) -> V { V::Int(self.rd().into()) } }
)* } }
static NUMS: [u32; 8] = [3, 1, 4, 1, 5, 9, 2, 6];
vals! {
    Bx(Box<u32>), Box::new, |b| **b;
    St(String), |n: u32| n.to_string(), |s| s.bytes().map(u32::from).sum();
    By(u8), |n| n as u8, |n| (*n).into();
    Wide([Box<u64>; 3]), |n: u32| [Box::new(n.into()), Box::new(1), Box::new(2)], |w| w.iter().map(|x| **x as u32).sum();
    #[repr(align(64))] Al(Box<u32>), Box::new, |b| **b;
    Unit(()), |_| (), |_| 0;
    Bl(bool), |n| n % 2 == 0, |b| if *b { 1 } else { 2 };
    Nz(NonZeroU8), |n| NonZeroU8::new(n as u8 | 1).unwrap(), |n| n.get().into();
    Re(&'static u32), |n| &NUMS[n as usize % 8], |n| **n;
    Ch(char), |n| char::from(b'a' + (n % 20) as u8), |c| u32::from(*c);
    Big([u64; 40]), |n| [u64::from(n); 40], |w| w.iter().map(|x| *x as u32).fold(0, u32::wrapping_add);
    // the same size, other alignments
    Q8([u8; 8]), |n: u32| u64::from(n).to_ne_bytes(), |q| u64::from_ne_bytes(*q) as u32;
    U8(u64), |n: u32| n.into(), |u| *u as u32;
    Op(Option<Box<u16>>), |n| if n % 3 == 0 { None } else { Some(Box::new(n as u16)) }, |o| o.as_ref().map_or(0, |x| u32::from(**x));
}

/// Zero-sized, counts drops; also one whose destructor panics on demand
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Zd;
thread_local! { static ZD: Cell<i64> = Cell::new(0); static BOMB: Cell<i64> = Cell::new(-1); }
impl Val for Zd {
    fn mk(_: u32) -> Self {
        ZD.with(|z| z.set(z.get() + 1));
        Zd
    }
    fn rd(&self) -> u32 {
        0
    }
}
impl Drop for Zd {
    fn drop(&mut self) {
        ZD.with(|z| z.set(z.get() - 1));
    }
}
impl Make for Zd {
    fn make(_: &mut G) -> Self {
        Zd::mk(0)
    }
}
impl IntoV for Zd {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(0)
    }
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bomb(Box<u32>);
impl Val for Bomb {
    fn mk(n: u32) -> Self {
        Bomb(Box::new(n))
    }
    fn rd(&self) -> u32 {
        *self.0
    }
}
impl Drop for Bomb {
    fn drop(&mut self) {
        let n = BOMB.with(|b| {
            b.set(b.get() - 1);
            b.get()
        });
        if n == 0 && !std::thread::panicking() {
            std::panic::panic_any(vmon::Boom(1));
        }
    }
}
impl Make for Bomb {
    fn make(g: &mut G) -> Self {
        let k = g.key();
        Bomb::mk(k)
    }
}
impl IntoV for Bomb {
    fn into_v(self, _: &mut Keep) -> V {
        V::Int(self.rd().into())
    }
}

type Er = Box<u64>;

struct Cfg {
    reps: u64,
    seed: u64,
    shard: (usize, usize),
    counter: usize,
    only: Option<String>,
    cases: u64,
    calls: u64,
    ok: u64,
    failed: u64,
    panicked: u64,
    subjects: u64,
    maxlen: usize,
    names: BTreeSet<&'static str>,
    leaks: bool,
    balanced: u64,
    leaked: BTreeSet<String>,
}

impl Cfg {
    /// Runs a case; what it allocated must be gone when it is over. Something
    /// may be set up once and stay, so a leak is one that comes back
    fn measured(&mut self, what: &str, mut case: impl FnMut()) {
        let mut once = || {
            let before = LIVE.with(|l| l.get());
            case();
            let after = LIVE.with(|l| l.get());
            (after.0 - before.0, after.1 - before.1)
        };
        let first = once();
        if !self.leaks {
            return;
        }
        self.balanced += 1;
        if first == (0, 0) {
            return;
        }
        once();
        let (blocks, bytes) = once();
        if (blocks, bytes) != (0, 0) && self.leaked.len() < 40 {
            self.leaked.insert(format!("{what}\t{blocks} allocations ({bytes} bytes)"));
        }
    }

    fn go<A: Val, B: Val>(
        &mut self,
        name: &'static str,
        plain: fn(&mut G, bool, &mut dyn FnMut(A) -> B) -> V,
        fallible: fn(&mut G, bool, &mut dyn FnMut(A) -> Result<B, Er>) -> Result<V, Er>,
    ) {
        self.counter += 1;
        if self.counter % self.shard.1 != self.shard.0 {
            return;
        }
        let full = format!("{name} {} -> {}", std::any::type_name::<A>(), std::any::type_name::<B>());
        if self.only.as_ref().map_or(false, |o| !full.contains(o.as_str())) {
            return;
        }
        self.subjects += 1;
        self.names.insert(name);
        for r in 0..self.reps {
            let mut g = G::new(self.seed.wrapping_mul(31) + r + self.counter as u64 * 1000);
            g.maxlen = self.maxlen;
            g.budget = 16;
            // how many calls are there
            let n = Cell::new(0usize);
            eprintln!("CASE {full} rep {r} plain");
            self.measured(&format!("{name}\tplain\t{full} rep {r}"), || {
                n.set(0);
                plain(&mut g.clone(), r % 2 == 1, &mut |a: A| {
                    n.set(n.get() + 1);
                    B::mk(a.rd())
                });
            });
            let total = n.get();
            self.calls += total as u64;
            self.cases += 1;
            self.ok += 1;
            eprintln!("CASE {full} rep {r} try ok");
            self.measured(&format!("{name}\tfallible\t{full} rep {r}"), || {
                let _ = fallible(&mut g.clone(), r % 2 == 0, &mut |a| Ok(B::mk(a.rd())));
            });
            self.cases += 1;
            let mut stops = vec![0, total / 2, total.saturating_sub(1)];
            if total <= 9 {
                stops.extend(1..total.max(1));
            } else {
                let mut h = g.clone();
                stops.extend([1, total - 2, h.below(total), h.below(total)]);
            }
            stops.sort();
            stops.dedup();
            for stop in stops {
                for kind in 0..if self.leaks { 3 } else { 4 } {
                    eprintln!("CASE {full} rep {r} stop {stop}/{total} kind {kind}");
                    let how = if kind == 1 { "a panic" } else { "an error" };
                    let calls = Cell::new(0);
                    let unwound = Cell::new(false);
                    self.measured(&format!("{name}\t{how}\t{full} rep {r} stop {stop}/{total}"), || {
                        let k = Cell::new(0usize);
                        let mut bad = |a: A| -> Result<B, Er> {
                            let i = k.get();
                            k.set(i + 1);
                            let x = a.rd();
                            if i == stop {
                                match kind {
                                    0 => return Err(Box::new(7)),
                                    1 => std::panic::panic_any(vmon::Boom(0)),
                                    // keeps the element alive across the failure
                                    _ => {
                                        drop(a);
                                        return Err(Box::new(9));
                                    }
                                }
                            }
                            Ok(B::mk(x))
                        };
                        let mut gg = g.clone();
                        let r = catch_unwind(AssertUnwindSafe(|| match kind {
                            1 if r % 2 == 0 => {
                                plain(&mut gg, false, &mut |a| bad(a).unwrap_or_else(|_| unreachable!()));
                            }
                            3 => {
                                BOMB.with(|b| b.set(1 + (stop as i64)));
                                let _ = fallible(&mut gg, true, &mut bad);
                            }
                            _ => {
                                if let Err(e) = fallible(&mut gg, kind == 2, &mut bad) {
                                    assert!(*e == 7 || *e == 9);
                                }
                            }
                        }));
                        BOMB.with(|b| b.set(-1));
                        calls.set(k.get());
                        match r {
                            Ok(()) => unwound.set(false),
                            Err(p) if p.is::<vmon::Boom>() => unwound.set(true),
                            Err(p) => resume_unwind(p),
                        }
                    });
                    self.cases += 1;
                    self.calls += calls.get() as u64;
                    if unwound.get() {
                        self.panicked += 1;
                    } else {
                        self.failed += 1;
                    }
                }
            }
        }
    }
}

macro_rules! sub {
    ($c:expr, $name:expr, $p:ty, [$a:ty, $b:ty], $x:ident => $t:ty) => {{
        #[allow(type_alias_bounds)]
        type W<$x> = $t;
        $c.go::<$a, $b>(
            $name,
            |g, over, f| {
                let i = <W<$a> as Make>::make(g);
                let o: W<$b> = if over {
                    FuncMap::<$a, $b, _>::func_map_over::<$p, _>(i, f)
                } else {
                    FuncMap::<$a, $b, $p>::func_map(i, f)
                };
                o.into_v(&mut Keep::default())
            },
            |g, over, f| {
                let i = <W<$a> as Make>::make(g);
                let o: Result<W<$b>, Er> = if over {
                    TryFuncMap::<$a, $b, _>::try_func_map_over::<$p, Er, _>(i, f)
                } else {
                    TryFuncMap::<$a, $b, $p>::try_func_map(i, f)
                };
                Ok(o?.into_v(&mut Keep::default()))
            },
        )
    }};
}

macro_rules! arrays { ($c:expr, $ab:tt, $($n:literal)*) => { $(
    sub!($c, concat!("[T; ", $n, "]"), TypeParam<0>, $ab, X => [X; $n]);
)* } }

macro_rules! others { ($c:expr, $ab:tt, $m:tt) => {
    sub!($c, "Option<T>", TypeParam<0>, $ab, X => Option<X>);
    sub!($c, "option::IntoIter<T>", TypeParam<0>, $ab, X => option::IntoIter<X>);
    sub!($c, "Result<T, _>", TypeParam<0>, $ab, X => Result<X, Bx>);
    sub!($c, "Result<_, T>", TypeParam<1>, $ab, X => Result<Bx, X>);
    sub!($c, "result::IntoIter<T>", TypeParam<0>, $ab, X => result::IntoIter<X>);
    sub!($c, "ControlFlow<T, _>", TypeParam<0>, $ab, X => ControlFlow<X, Bx>);
    sub!($c, "ControlFlow<_, T>", TypeParam<1>, $ab, X => ControlFlow<Bx, X>);
    sub!($c, "Poll<T>", TypeParam<0>, $ab, X => Poll<X>);
    sub!($c, "Bound<T>", TypeParam<0>, $ab, X => Bound<X>);
    sub!($c, "Range<T>", TypeParam<0>, $ab, X => Range<X>);
    sub!($c, "RangeInclusive<T>", TypeParam<0>, $ab, X => RangeInclusive<X>);
    sub!($c, "RangeFrom<T>", TypeParam<0>, $ab, X => RangeFrom<X>);
    sub!($c, "RangeTo<T>", TypeParam<0>, $ab, X => RangeTo<X>);
    sub!($c, "RangeToInclusive<T>", TypeParam<0>, $ab, X => RangeToInclusive<X>);
    sub!($c, "Cell<T>", TypeParam<0>, $ab, X => Cell<X>);
    sub!($c, "RefCell<T>", TypeParam<0>, $ab, X => RefCell<X>);
    sub!($c, "UnsafeCell<T>", TypeParam<0>, $ab, X => UnsafeCell<X>);
    sub!($c, "PhantomData<T>", TypeParam<0>, $ab, X => PhantomData<X>);
    sub!($c, "Box<T>", TypeParam<0>, $ab, X => Box<X>);
    sub!($c, "Vec<T>", TypeParam<0>, $ab, X => Vec<X>);
    sub!($c, "vec::IntoIter<T>", TypeParam<0>, $ab, X => vec::IntoIter<X>);
    sub!($c, "VecDeque<T>", TypeParam<0>, $ab, X => VecDeque<X>);
    sub!($c, "vec_deque::IntoIter<T>", TypeParam<0>, $ab, X => vec_deque::IntoIter<X>);
    sub!($c, "LinkedList<T>", TypeParam<0>, $ab, X => LinkedList<X>);
    sub!($c, "linked_list::IntoIter<T>", TypeParam<0>, $ab, X => linked_list::IntoIter<X>);
    sub!($c, "BinaryHeap<T>", TypeParam<0>, $ab, X => BinaryHeap<X>);
    sub!($c, "binary_heap::IntoIter<T>", TypeParam<0>, $ab, X => binary_heap::IntoIter<X>);
    sub!($c, "BTreeMap<T, _>", TypeParam<0>, $ab, X => BTreeMap<X, Bx>);
    sub!($c, "BTreeMap<_, T>", TypeParam<1>, $ab, X => BTreeMap<By, X>);
    sub!($c, "btree_map::IntoIter<T, _>", TypeParam<0>, $ab, X => btree_map::IntoIter<X, Bx>);
    sub!($c, "btree_map::IntoIter<_, T>", TypeParam<1>, $ab, X => btree_map::IntoIter<Bx, X>);
    sub!($c, "BTreeSet<T>", TypeParam<0>, $ab, X => BTreeSet<X>);
    sub!($c, "btree_set::IntoIter<T>", TypeParam<0>, $ab, X => btree_set::IntoIter<X>);
    sub!($c, "HashMap<T, _>", TypeParam<0>, $ab, X => HashMap<X, Bx>);
    sub!($c, "HashMap<_, T>", TypeParam<1>, $ab, X => HashMap<Bx, X>);
    sub!($c, "hash_map::IntoIter<T, _>", TypeParam<0>, $ab, X => hash_map::IntoIter<X, Bx>);
    sub!($c, "hash_map::IntoIter<_, T>", TypeParam<1>, $ab, X => hash_map::IntoIter<Bx, X>);
    sub!($c, "HashSet<T>", TypeParam<0>, $ab, X => HashSet<X>);
    sub!($c, "hash_set::IntoIter<T>", TypeParam<0>, $ab, X => hash_set::IntoIter<X>);
} }

// ---- derived types

macro_rules! node { ($t:ident $v:literal: $($x:expr),*) => { V::node($v, vec![$($x),*]) } }

#[derive(FuncMap, TryFuncMap)]
pub struct Nested<T, const N: usize> {
    a: [T; N],
    b: Option<[[T; 2]; N]>,
    c: String,
    d: (T, [Box<T>; 3]),
}
impl<T: Make, const N: usize> Make for Nested<T, N> {
    fn make(g: &mut G) -> Self {
        Nested { a: Make::make(g), b: Make::make(g), c: Make::make(g), d: Make::make(g) }
    }
}
impl<T: IntoV, const N: usize> IntoV for Nested<T, N> {
    fn into_v(self, k: &mut Keep) -> V {
        node!(Nested "Nested": self.a.into_v(k), self.b.into_v(k), self.c.into_v(k), self.d.into_v(k))
    }
}
#[derive(FuncMap, TryFuncMap)]
pub enum Many<T, U> {
    A(T, [T; 4], U),
    B { x: [Vec<T>; 2], y: [U; 2], z: Result<T, [T; 3]> },
    C,
    D([Vec<[T; 2]>; 3], [Option<T>; 5], Box<[T; 1]>),
}
impl<T: Make, U: Make> Make for Many<T, U> {
    fn make(g: &mut G) -> Self {
        match g.below(7) {
            0 | 1 => Many::A(Make::make(g), Make::make(g), Make::make(g)),
            2 | 3 => Many::B { x: Make::make(g), y: Make::make(g), z: Make::make(g) },
            4 => Many::C,
            _ => Many::D(Make::make(g), Make::make(g), Make::make(g)),
        }
    }
}
impl<T: IntoV, U: IntoV> IntoV for Many<T, U> {
    fn into_v(self, k: &mut Keep) -> V {
        match self {
            Many::A(a, b, c) => node!(Many "A": a.into_v(k), b.into_v(k), c.into_v(k)),
            Many::B { x, y, z } => node!(Many "B": x.into_v(k), y.into_v(k), z.into_v(k)),
            Many::C => node!(Many "C":),
            Many::D(a, b, c) => node!(Many "D": a.into_v(k), b.into_v(k), c.into_v(k)),
        }
    }
}

macro_rules! derived { ($c:expr, $ab:tt) => {
    sub!($c, "Nested<T, 3>", TypeParam<0>, $ab, X => Nested<X, 3>);
    sub!($c, "Nested<T, 0>", TypeParam<0>, $ab, X => Nested<X, 0>);
    sub!($c, "Many<T, _>", TypeParam<0>, $ab, X => Many<X, Bx>);
    sub!($c, "Many<_, T>", TypeParam<1>, $ab, X => Many<Bx, X>);
} }

/// Target types without values, or for which zero bytes are no value
fn special(c: &mut Cfg) {
    eprintln!("CASE special");
    let e: Result<[Infallible; 0], Er> = <[u8; 0]>::default().try_func_map(|_| Err(Box::new(1)));
    assert!(e.is_ok());
    let e: Result<[Infallible; 3], Er> = [1u8, 2, 3].try_func_map(|x| Err(Box::new(x.into())));
    assert_eq!(*e.err().unwrap(), 1);
    let e: Result<[&'static u32; 0], Infallible> = <[Box<u8>; 0]>::default().try_func_map(|_| Ok(&NUMS[0]));
    assert!(e.unwrap().is_empty());
    let e: [NonZeroU8; 0] = <[Infallible; 0]>::default().func_map(|x| match x {});
    assert!(e.is_empty());
    let e: Result<[NonZeroU8; 2], Infallible> = [1u8, 2].try_func_map(|x| Ok(NonZeroU8::new(x).unwrap()));
    assert_eq!(e.unwrap()[1].get(), 2);
    // a lifetime that is not 'static
    let owned = vec![String::from("a"), String::from("b")];
    let refs = [&owned[0], &owned[1]];
    let r: Result<[&str; 2], Infallible> = refs.try_func_map(|s| Ok(s.as_str()));
    assert_eq!(r.unwrap(), ["a", "b"]);
    c.cases += 6;
}

fn run(c: &mut Cfg) {
    special(c);
    arrays!(c, [Bx, St], 0 1 2 3 8);
    arrays!(c, [St, Wide], 1 3);
    arrays!(c, [By, Bx], 1 2 5);
    arrays!(c, [Bx, By], 2 33);
    arrays!(c, [Bx, Bl], 3);
    arrays!(c, [Al, Bx], 0 1 2);
    arrays!(c, [Bx, Al], 0 1 2);
    arrays!(c, [Unit, Bx], 2);
    arrays!(c, [Bx, Unit], 2);
    arrays!(c, [Zd, Zd], 1 3);
    arrays!(c, [Zd, Bx], 2);
    arrays!(c, [By, Re], 0 2);
    arrays!(c, [Nz, Ch], 0 3);
    arrays!(c, [Wide, Op], 2);
    arrays!(c, [Op, Wide], 2);
    arrays!(c, [By, Big], 2);
    arrays!(c, [Big, By], 2);
    if c.maxlen > 8 {
        // too slow for an interpreter
        arrays!(c, [Bx, St], 17 64 129);
        arrays!(c, [St, Al], 40 300);
        arrays!(c, [Zd, Bx], 65);
        arrays!(c, [By, Bx], 1025);
    }
    arrays!(c, [Bomb, Bx], 1 3);
    arrays!(c, [Bx, Bomb], 1 3 4);
    arrays!(c, [Bx, Bx], 2);
    others!(c, [Bx, St], [Bx]);
    others!(c, [St, By], [Bx]);
    others!(c, [By, Wide], [Bx]);
    others!(c, [Al, Nz], [Bx]);
    others!(c, [Bx, Unit], [Bx]);
    others!(c, [Zd, Bx], [Bx]);
    others!(c, [Bomb, Bomb], [Bx]);
    others!(c, [Q8, U8], [Bx]);
    others!(c, [U8, Q8], [Bx]);
    others!(c, [Op, Bx], [Bx]);
    arrays!(c, [Q8, U8], 1 4);
    arrays!(c, [U8, Q8], 1 4);
    derived!(c, [Bx, St]);
    derived!(c, [Wide, By]);
    derived!(c, [By, Al]);
    derived!(c, [Q8, U8]);
    derived!(c, [Bomb, Bomb]);
}

fn main() {
    let mut c = Cfg {
        reps: 1,
        seed: 1,
        shard: (0, 1),
        counter: 0,
        only: None,
        cases: 0,
        calls: 0,
        ok: 0,
        failed: 0,
        panicked: 0,
        subjects: 0,
        maxlen: 3,
        names: BTreeSet::new(),
        leaks: false,
        balanced: 0,
        leaked: BTreeSet::new(),
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        match a.as_str() {
            "--reps" => c.reps = v.parse().unwrap(),
            "--seed" => c.seed = v.parse().unwrap(),
            "--maxlen" => c.maxlen = v.parse().unwrap(),
            "--leaks" => c.leaks = v == "1",
            "--only" => c.only = Some(v),
            "--shard" => {
                let (a, b) = v.split_once('/').unwrap();
                c.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            _ => (),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<vmon::Boom>() {
            eprintln!("{i}");
        }
    }));
    run(&mut c);
    if c.shard.0 == 0 {
        // the same from several threads at once
        eprintln!("CASE threads");
        let t: Vec<_> = (0..3u32)
            .map(|t| {
                std::thread::spawn(move || {
                    let a: Result<[St; 4], Er> =
                        [1, 2, 3, t].func_map(Bx::mk).try_func_map(|b| Ok(St::mk(b.rd() + t)));
                    let n: Nested<Bx, 2> = Make::make(&mut G::new(t.into()));
                    n.func_map(|b| St::mk(b.rd())).into_v(&mut Keep::default());
                    a.map(|a| a[3].rd())
                })
            })
            .collect();
        for t in t {
            t.join().unwrap().unwrap();
        }
        c.cases += 3;
    }
    println!(
        "SUM\tcases={}\tcalls={}\tsubjects={}\tplain_ok={}\tfailed={}\tpanicked={}\ttypes={}",
        c.cases,
        c.calls,
        c.subjects,
        c.ok,
        c.failed,
        c.panicked,
        c.names.len()
    );
    println!("BAL\t{}", c.balanced);
    for l in &c.leaked {
        println!("LEAK\t{l}");
    }
    for n in &c.names {
        println!("TYPE\t{n}");
    }
    println!("END");
}
