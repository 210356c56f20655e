"""Feature configurations: generated and hand-written programs that have no
more than core, or core and alloc."""

from defs import *
from probes import *
from rgen import *
from runner import *
from stdtab import TABLE

CONFIGS = [("core", ""), ("alloc", "alloc"), ("std", "std")]
LEVEL = {"core": 0, "alloc": 1, "std": 2}

CORE = ["Option", "Poll", "Bound", "Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "Cell", "RefCell",
        "UnsafeCell", "PhantomData", "Result", "ControlFlow", "option::IntoIter", "result::IntoIter"]
ALLOC = [n for n in STD if not n.startswith("Hash")]
CORE_IND = ["u8", "i32", "bool", "char", "&'static str", "u64", "(u8, i16)", "[u8; 3]", "()", "Option<char>", "fn(u8) -> u8",
            "*const u8", "&'static dyn Fn(u8) -> u8", "core::marker::PhantomData<fn(u8)>", "&'static [u8]",
            "<Option<u8> as IntoIterator>::Item"]
CORE_KEY = ["u8", "i32", "bool", "char", "&'static str", "u64", "(u8, i16)", "[u8; 3]"]
ALLOC_IND = CORE_IND + ["alloc::string::String", "alloc::vec::Vec<u16>", "alloc::boxed::Box<dyn Fn(u8) -> u8>"]


def there(config):
    return {"core": CORE, "alloc": ALLOC, "std": list(STD)}[config]


class ConfGen(Gen):
    """Definitions for programs that do have std, over the types of a configuration."""

    def __init__(self, seed, config):
        Gen.__init__(self, seed)
        self.std = there(config)
        self.often = [n for n in self.often if n in self.std]


class BareGen(ConfGen):
    """Definitions for no_std crates."""

    def __init__(self, seed, config):
        ConfGen.__init__(self, seed, config)
        self.config = config
        self.inds = CORE_IND if config == "core" else ALLOC_IND
        self.key_inds = CORE_KEY

    def head(self, name, d):
        path = STD[name][0]
        r = self.r
        root = "core" if name in CORE else "alloc"
        path = root + path[len("std"):]
        opts = [path, "::" + path]
        if root == "alloc":
            # there is none in scope but under another name
            opts = [path.replace("alloc::", "crate::al::")] * 2
        elif name in PRELUDE:
            opts += [name] * 3
        imp = "use %s as Im%s;" % (opts[0], name.replace("::", "_"))
        opts.append("Im" + name.replace("::", "_"))
        h = r.choice(opts)
        if h.startswith("Im") and imp not in d["pre"]:
            d["pre"].append(imp)
        return h

    def ind(self, key, d):
        t = Gen.ind(self, key, d)
        t.text = t.text.replace("alloc::", "crate::al::")
        return t

    def user(self, depth, d):
        if not self.usable or self.r.random() < 0.3:
            return App("crate::support::Manual", [self.ty(depth - 1, False, d)], "u0")
        while True:
            t = Gen.user(self, depth, d)
            if t.user is not None:
                return t

    def draw(self, depth, rich):
        d = Gen.draw(self, depth, rich)
        for v in d.variants:
            for (_, t, _) in v.fields:
                for n in t.nodes():
                    if isinstance(n, App):
                        n.head = n.head.replace("::std::marker", "::core::marker")
        d.derives = d.derives.replace("funcmap::", "::funcmap::").replace("::::", "::")
        return d


SUPPORT = """
pub mod support {
    pub struct Manual<T>(pub T);
    impl<A, B> ::funcmap::FuncMap<A, B> for Manual<A> {
        type Output = Manual<B>;
        fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> Manual<B> { Manual(f(self.0)) }
    }
    impl<A, B> ::funcmap::TryFuncMap<A, B> for Manual<A> {
        type Output = Manual<B>;
        fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, mut f: F) -> Result<Manual<B>, E> { Ok(Manual(f(self.0)?)) }
    }
}
"""

RUNTIME = """
#[link(name = "c")]
extern "C" { fn abort() -> !; %s}
#[panic_handler]
fn panicked(_: &core::panic::PanicInfo<'_>) -> ! { unsafe { abort() } }
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! { unsafe { abort() } }
"""

ALLOCATOR = """
struct LibcAlloc;
unsafe impl core::alloc::GlobalAlloc for LibcAlloc {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        let mut p = core::ptr::null_mut();
        if posix_memalign(&mut p, if l.align() < 16 { 16 } else { l.align() }, l.size()) != 0 { return core::ptr::null_mut(); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) { free(p) }
}
#[global_allocator]
static ALLOC: LibcAlloc = LibcAlloc;
"""


class BareProg(Prog):
    """A no_std program; every definition is used through generic functions."""

    def __init__(self, name, defs, config, edition):
        Prog.__init__(self, name, defs, {}, edition, flags=["-Cpanic=abort"])
        self.config = config

    def render(self, defs):
        al = self.config == "alloc"
        text = "#![no_std]\n#![no_main]\n#![allow(dead_code, unused)]\nextern crate funcmap;\n"
        if al:
            text += "mod al { extern crate alloc; pub use self::alloc::*; }\n"
        rt = RUNTIME % ("fn posix_memalign(p: &mut *mut u8, a: usize, n: usize) -> i32; fn free(p: *mut u8); " if al else "")
        if al:
            rt += ALLOCATOR
        if self.edition == "2024":
            rt = rt.replace("#[no_mangle]", "#[unsafe(no_mangle)]").replace('extern "C" {', 'unsafe extern "C" {')
            rt = rt.replace("posix_memalign(&mut p,", "unsafe { posix_memalign(&mut p,").replace("l.size()) != 0", "l.size()) } != 0")
            rt = rt.replace("{ free(p) }", "{ unsafe { free(p) } }")
            main = '#[unsafe(no_mangle)]\npub extern "C" fn main() -> i32 { 0 }\n'
        else:
            main = '#[no_mangle]\npub extern "C" fn main() -> i32 { 0 }\n'
        text += rt + SUPPORT + main
        ranges = []
        for d in defs:
            a = text.count("\n") + 1
            text += bare_module(d)
            for f in generic_fns(d):
                text += f.replace("::vmon::funcmap", "::funcmap") + "\n"
            ranges.append((a, text.count("\n"), d.idx))
        return text, ranges


def bare_progs(c, config, n, per, salt):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = BareGen(s, config)
        for _ in range(per):
            g.one(3, True)
        out.append(BareProg("bare_%s%d" % (config, i), g.defs, config, ["2021", "2018", "2024", "2015"][i % 4]))
    return out


def conf_progs(c, config, n, per, salt):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = ConfGen(s, config)
        for _ in range(per):
            g.one(3, True)
        r = random.Random(s + 1)
        out.append(Prog("conf_%s%d" % (config, i), g.defs, {d.idx: d.subjects(r) for d in g.defs}))
    return out


class ConfTable(Prog):
    """What is implemented in a configuration: chk lines for the whole table."""

    def __init__(self, config):
        Prog.__init__(self, "table_" + config, [], {})
        self.config = config

    def text_(self):
        out = []
        for n in sorted(TABLE):
            tmpl, ps, need, feature = TABLE[n]
            yes = LEVEL[feature] <= LEVEL[self.config]
            for i, p in enumerate(ps):
                a, b = pe(15), pe(7)
                src = dst = tmpl if tmpl.startswith("[") else "::" + tmpl
                for q in ps:
                    src = src.replace("{%s}" % q, a)
                    dst = dst.replace("{%s}" % q, b if q == p else a)
                for tr in ("FuncMap", "TryFuncMap"):
                    out.append(probe_line(src, a, b, tr, i, yes))
                    if yes:
                        out.append(probe_line(src, a, b, tr, i, yes, dst))
        return ("#![allow(unused)]\nextern crate alloc;\nextern crate vmon;\nfn main() {\n%s\n    vmon::probe::finish()\n}\n" % "\n".join(out))


# every core type mapped in a program without std
CORE_BODY = r"""
#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]
struct S<'a, T, U, const N: usize> { a: T, b: [Option<(T, u8)>; N], c: Result<U, T>, d: &'a str, e: core::marker::PhantomData<T> }
#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]
enum E<T> where T: PartialEq { A, B(T, core::ops::Range<T>), C { x: core::cell::Cell<T>, y: Mine<T> } }
#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]
struct Mine<T>(core::task::Poll<T>, core::ops::ControlFlow<T, u8>);
#[derive(PartialEq, Clone, Copy)]
struct W(u32);
macro_rules! c { ($n:ident, $e:expr) => { $n += 1; if !$e { return $n } } }
fn up(x: u32) -> W { W(x * 2 + 1) }
fn tr(x: u32) -> Result<W, u8> { if x == 13 { Err(13) } else { Ok(W(x * 2 + 1)) } }
macro_rules! m { ($n:ident, $mk:expr, $is:expr) => {
    // mapped, mapped by a fallible closure, and failing
    $n += 1;
    { let mk = $mk; let is = $is;
      if !is(FuncMap::func_map(mk(3), up)) { return $n }
      $n += 1;
      match TryFuncMap::try_func_map(mk(3), tr) { Ok(v) => if !is(v) { return $n }, Err(_) => return $n }
      $n += 1;
      if !matches!(TryFuncMap::try_func_map(mk(13), tr), Err(13)) { return $n } }
} }
fn core_types() -> i32 {
    use core::cell::*; use core::ops::*; use core::task::Poll; use core::marker::PhantomData;
    use funcmap::{FuncMap, TryFuncMap};
    let mut n = 0;
    m!(n, |x: u32| [x, 4, 5], |v: [W; 3]| v == [W(7), W(9), W(11)]);
    m!(n, |x: u32| Bound::Included(x), |v: Bound<W>| matches!(v, Bound::Included(W(7))));
    m!(n, |x: u32| Bound::Excluded(x), |v: Bound<W>| matches!(v, Bound::Excluded(W(7))));
    m!(n, |x: u32| Cell::new(x), |v: Cell<W>| v.into_inner() == W(7));
    m!(n, |x: u32| RefCell::new(x), |v: RefCell<W>| v.into_inner() == W(7));
    m!(n, |x: u32| UnsafeCell::new(x), |v: UnsafeCell<W>| v.into_inner() == W(7));
    m!(n, |x: u32| Some(x), |v: Option<W>| v == Some(W(7)));
    m!(n, |x: u32| Some(x).into_iter(), |mut v: core::option::IntoIter<W>| v.next() == Some(W(7)) && v.next().is_none());
    m!(n, |x: u32| Ok::<u32, ()>(x).into_iter(), |mut v: core::result::IntoIter<W>| v.next() == Some(W(7)) && v.next().is_none());
    m!(n, |x: u32| Poll::Ready(x), |v: Poll<W>| v == Poll::Ready(W(7)));
    m!(n, |x: u32| x..8, |v: Range<W>| v == (W(7)..W(17)));
    m!(n, |x: u32| x.., |v: RangeFrom<W>| v == (W(7)..));
    m!(n, |x: u32| x..=8, |v: RangeInclusive<W>| v == (W(7)..=W(17)));
    m!(n, |x: u32| ..x, |v: RangeTo<W>| v == (..W(7)));
    m!(n, |x: u32| ..=x, |v: RangeToInclusive<W>| v == (..=W(7)));
    m!(n, |x: u32| Mine(Poll::Ready(x), ControlFlow::Continue(2)), |v: Mine<W>| matches!(v, Mine(Poll::Ready(W(7)), ControlFlow::Continue(2))));
    m!(n, |x: u32| Mine(Poll::Pending, ControlFlow::Break(x)), |v: Mine<W>| matches!(v, Mine(Poll::Pending, ControlFlow::Break(W(7)))));
    m!(n, |x: u32| E::B(2, x..4), |v: E<W>| matches!(v, E::B(W(5), r) if r == (W(7)..W(9))));
    m!(n, |x: u32| E::C { x: Cell::new(x), y: Mine(Poll::Pending, ControlFlow::Continue(1)) }, |v: E<W>| matches!(v, E::C { x, .. } if x.get() == W(7)));
    m!(n, |x: u32| S { a: 1, b: [Some((x, 9)), None], c: Ok::<char, u32>('c'), d: "d", e: PhantomData },
       |v: S<'_, W, char, 2>| v.a == W(3) && matches!(v.b, [Some((W(7), 9)), None]) && v.c == Ok('c') && v.d == "d");
    c!(n, matches!(FuncMap::<_, _, funcmap::TypeParam<0>>::func_map(Ok::<u32, u32>(3), up), Ok(W(7))));
    c!(n, matches!(FuncMap::<_, _, _>::func_map_over::<funcmap::TypeParam<1>, _>(Err::<u32, u32>(3), up), Err(W(7))));
    c!(n, matches!(TryFuncMap::<_, _, funcmap::TypeParam<1>>::try_func_map(Err::<u32, u32>(13), tr), Err(13)));
    c!(n, matches!(FuncMap::<_, _, funcmap::TypeParam<1>>::func_map(ControlFlow::<u32, u32>::Continue(3), up), ControlFlow::Continue(W(7))));
    c!(n, matches!(FuncMap::<_, _, funcmap::TypeParam<0>>::func_map(ControlFlow::<u32, u32>::Break(3), up), ControlFlow::Break(W(7))));
    let e = match FuncMap::func_map(E::A, up) { E::A => true, _ => false };
    c!(n, e);
    let p: PhantomData<W> = FuncMap::func_map(PhantomData::<u32>, up);
    let _ = p;
    0
}
"""

ALLOC_BODY = r"""
#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]
struct L<T: Ord> { a: al::vec::Vec<T>, b: al::boxed::Box<[T; 2]>, c: al::collections::BTreeMap<T, T>, d: Option<al::boxed::Box<Mine<T>>> }
fn alloc_types() -> i32 {
    use al::collections::*; use al::vec::Vec; use al::boxed::Box;
    use funcmap::{FuncMap, TryFuncMap};
    let mut n = 100;
    fn v(x: u32) -> Vec<u32> { let mut v = Vec::new(); for y in [4, x, 5] { v.push(y) } v }
    fn is<I: IntoIterator<Item = W>>(i: I, w: &[u32]) -> bool { let v: Vec<W> = i.into_iter().collect(); v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.0 == *b) }
    m!(n, |x: u32| Box::new(x), |v: Box<W>| *v == W(7));
    m!(n, |x: u32| v(x), |v: Vec<W>| is(v, &[9, 7, 11]));
    m!(n, |x: u32| v(x).into_iter(), |v: al::vec::IntoIter<W>| is(v, &[9, 7, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<VecDeque<_>>(), |v: VecDeque<W>| is(v, &[9, 7, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<VecDeque<_>>().into_iter(), |v: vec_deque::IntoIter<W>| is(v, &[9, 7, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<LinkedList<_>>(), |v: LinkedList<W>| is(v, &[9, 7, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<LinkedList<_>>().into_iter(), |v: linked_list::IntoIter<W>| is(v, &[9, 7, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<BTreeSet<_>>(), |v: BTreeSet<W>| is(v, &[7, 9, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<BTreeSet<_>>().into_iter(), |v: btree_set::IntoIter<W>| is(v, &[7, 9, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<BinaryHeap<_>>(), |v: BinaryHeap<W>| is(v.into_sorted_vec(), &[7, 9, 11]));
    m!(n, |x: u32| v(x).into_iter().collect::<BinaryHeap<_>>().into_iter(), |v: binary_heap::IntoIter<W>| { let mut v: Vec<W> = v.collect(); v.sort(); is(v, &[7, 9, 11]) });
    n += 1;
    let b: BTreeMap<u32, u32> = v(3).into_iter().map(|x| (x, x + 1)).collect();
    let k: BTreeMap<W, u32> = FuncMap::<_, _, funcmap::TypeParam<0>>::func_map(b.clone(), up);
    if k.len() != 3 || k.get(&W(7)) != Some(&4) { return n }
    n += 1;
    let k: BTreeMap<u32, W> = FuncMap::<_, _, funcmap::TypeParam<1>>::func_map(b.clone(), up);
    if k.len() != 3 || k.get(&3) != Some(&W(9)) { return n }
    n += 1;
    let k: btree_map::IntoIter<W, u32> = FuncMap::<_, _, funcmap::TypeParam<0>>::func_map(b.into_iter(), up);
    if !is(k.map(|x| x.0), &[7, 9, 11]) { return n }
    n += 1;
    let l = L { a: v(3), b: Box::new([1, 2]), c: v(3).into_iter().map(|x| (x, x)).collect(), d: Some(Box::new(Mine(core::task::Poll::Ready(6), core::ops::ControlFlow::Continue(1)))) };
    let l = l.func_map(up);
    if !is(l.a, &[9, 7, 11]) || *l.b != [W(3), W(5)] || l.c.get(&W(7)) != Some(&W(7)) || !matches!(*l.d.unwrap(), Mine(core::task::Poll::Ready(W(13)), _)) { return n }
    0
}
"""


def proof_program(config):
    al = config == "alloc"
    text = "#![no_std]\n#![no_main]\n#![allow(dead_code, unused)]\nextern crate funcmap;\n"
    if al:
        text += "mod al { extern crate alloc; pub use self::alloc::*; }\n"
    text += RUNTIME % ("fn posix_memalign(p: &mut *mut u8, a: usize, n: usize) -> i32; fn free(p: *mut u8); " if al else "")
    if al:
        text += ALLOCATOR
    text += CORE_BODY.replace("#[derive(PartialEq, Clone, Copy)]\nstruct W", "#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]\nstruct W")
    calls = "let r = core_types(); if r != 0 { return r }"
    if al:
        text += ALLOC_BODY
        calls += " let r = alloc_types(); if r != 0 { return r }"
    return text + '#[no_mangle]\npub extern "C" fn main() -> i32 { %s 0 }\n' % calls
