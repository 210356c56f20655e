"""Definitions with bounds of all forms: what is declared is known by
construction, so that the oracle of the probes applies."""

from defs import *
from probes import *
from rgen import *

V = "::vmon::probe::"

# (text, needs of X, needs of Y, what it is about); {X}, {Y} type parameters, {N} a const
# parameter or a number, {a} a lifetime
INLINE = [
    ("{V}Tr0", ["tr0"], []), ("{V}Tr1", ["tr1"], []), ("{V}Tr0 + {V}Tr1 +", ["tr0", "tr1"], []), ("{V}Tr0 + {V}Tr0", ["tr0"], []),
    ("({V}Tr0) + Sized", ["tr0"], []), ("Sized", [], []), (" ", [], []), ("for<'h> {V}Hr<'h>", ["tr0"], []), ("(for<'h> {V}Hr<'h>) + {V}Tr0", ["tr0"], []),
    ("{V}Conv<{X}>", ["tr0", "tr1"], []), ("{V}Conv<{Y}>", ["tr0"], ["tr1"]), ("{V}Proj<P = {V}Wr<{X}>>", ["tr0"], []), ("{V}Proj<P: {V}Tr1>", ["tr0", "tr1"], []),
    ("{V}Cn<{N}>", ["tr0"], []), ("{V}Cn<{ 1 + 2 }>", ["tr0"], []), ("{V}Gat", ["tr0"], []), ("{a}", [], []), ("'static", [], []), ("{a} + {V}Tr0 + {a}", ["tr0"], []),
    ("{V}Hr<{a}>", ["tr0"], []), ("::core::cmp::Ord", ["ord"], []), ("::core::hash::Hash + Eq", ["hash"], []), ("{V}Conv<(dyn {V}Tr1 + 'static)>", ["tr0"], []),
    ("for<'h> {V}HrConv<'h, {Y}>", ["tr0"], ["tr1"]), ("for<'h> {V}HrConv<'h, {X}> + {V}Tr1", ["tr0", "tr1"], []), ("for<'h> {V}HrAny<'h, (&'h {Y}, {X})>", ["tr0"], []),
    ("{V}Tr0 + for<'h, 'k> {V}HrAny<'h, fn(&'k {Y}) -> &'k {X}>", ["tr0"], []), ("{V}HrAny<'static, dyn Fn(&{Y}) -> {X}>", ["tr0"], []),
    ("{V}Conv::<{Y}>", ["tr0"], ["tr1"]), ("?Sized + Sized", [], []),
]
WHERE = [
    ("{X}: %s" % b, x, y) for (b, x, y) in INLINE if "?Sized" not in b] + [
    ("({X}): {V}Tr0", ["tr0"], []), ("::std::vec::Vec<{X}>: {V}Tr0", ["tr0"], []), ("[{X}; {N}]: {V}Tr0", ["tr0"], []), ("({X}, {Y}): {V}Tr0", ["tr0"], ["tr1"]),
    ("({Y}, {X}): {V}Tr0", ["tr1"], ["tr0"]), ("u8: {V}Of<{X}>", ["tr0"], []), ("{X}: {V}Proj, <{X} as {V}Proj>::P: {V}Tr1", ["tr0", "tr1"], []),
    ("{X}: {V}Proj, {X}::P: {V}Tr1", ["tr0", "tr1"], []), ("u8: {V}Fam<{X}>, <u8 as {V}Fam<{X}>>::Out: {V}Tr1", ["tr0", "tr1"], []),
    ("u8: {V}Fam<{X}, Out = {V}Wr<{X}>>", ["tr0"], []), ("for<'h> &'h {X}: {V}RefTr", ["tr0"], []), ("for<'h> {X}: {V}Hr<'h>", ["tr0"], []), ("for<> {X}: {V}Tr0", ["tr0"], []),
    ("for<'h, 'k> fn(&'h {X}) -> &'k u8: Copy", [], []), ("fn({X}): Copy", [], []), ("u8: Copy", [], []), ("::std::string::String: Clone", [], []),
    ("::std::boxed::Box<dyn Fn({X})>: Sized", [], []), ("::std::marker::PhantomData<{X}>: Copy", [], []), ("::std::marker::PhantomData<({X}, {Y})>: Clone", [], []),
    ("[u8; {N}]: Sized", [], []), ("{X}: {a} , &{a} {X}: {V}RefTr", ["tr0"], []), ("{a} : {b} ", [], []), ("{a} : {a} ", [], []), ("{a} : ", [], []), ("{b} : {a} + {a} ", [], []),
    ("Self: Sized", [], []), ("::std::option::Option<Self>: Sized", [], []), ("{X}: {V}Tr0, {X}: {V}Tr0 + {V}Tr1, {X}: {V}Tr1", ["tr0", "tr1"], []), ("{X}:", [], []),
    ("::std::vec::Vec<::std::vec::Vec<{X}>>: {V}Tr0", ["tr0"], []), ("::std::option::Option<[{X}; 2]>: {V}Tr0", ["tr0"], []), ("{X}: {V}Conv<{Y}> + {V}Conv<{X}>", ["tr0", "tr1"], ["tr1"]),
    ("for<'h> (&'h {X},): Sized", [], []), ("dyn {V}Of<{X}>: {V}NoOne", [], []), ("*const {X}: Copy", [], []), ("for<'h> dyn Fn(&'h {X}) -> &'h {Y}: {V}NoOne", [], []),
    ("::vmon::probe::Pe<15>: {V}Conv<{X}>", ["tr1"], []), ("{X}: {V}Conv<::vmon::probe::Pe<15>>", ["tr0"], []), ("{X}: {V}Conv<[{Y}; 0]>", ["tr0"], ["tr1"]),
    ("(({X})): ({V}Tr0)", ["tr0"], []), ("<{X} as {V}Gat>::G<'static>: Copy, {X}: {V}Gat + 'static", ["tr0"], []),
]


class BoundGen(ProbeGen):
    default_share = 0

    def __init__(self, seed, values=False):
        ProbeGen.__init__(self, seed, special=0 if values else 0.06, bounds=0)
        self.values = values
        self.bounded = []
        self.outer = False

    def params(self, rich):
        while True:
            ps = Gen.params(self, rich)
            if not any(p.name == "O" for p in ps) and len([p for p in ps if p.kind == "t"]) < 9:
                return ps

    def user(self, depth, d):
        r = self.r
        if self.outer and self.bounded and d["types"] and r.random() < 0.7:
            u = r.choice(self.bounded[-8:])
            args = []
            for p in u.params:
                args.append("'static" if p.kind == "l" else r.choice(p.vals) if p.kind == "c" else P(r.choice(d["types"])))
            return App(u.path(), args, "u%d" % u.idx, user=u)
        return ProbeGen.user(self, depth, d)

    def one(self, depth=3, rich=True):
        r = self.r
        self.outer = r.random() < 0.25
        d = Gen.one(self, depth, rich)
        if d in self.usable:
            self.usable.remove(d)
        d.declared = {p.name: set() for p in d.tparams()}
        lifes = [p.name for p in d.params if p.kind == "l"]
        lens = [p.name for p in d.params if p.kind == "c" and p.cty == "usize"]
        bound_life = False
        wh = []

        if not d.enum and r.random() < 0.15 or d.enum and r.random() < 0.1:
            self.relaxed(d, wh, lifes)

        types = [p.name for p in d.tparams() if p.name != "O"]

        def fill(text, x, y, where):
            if "{a}" in text and not lifes:
                return None
            if not where and "{X}" in text and False:
                return None
            t = text.replace("{V}", V).replace("{X}", x).replace("{Y}", y).replace("{N}", r.choice(lens + ["3", "{ 2 }"]))
            if lifes:
                t = t.replace("{a}", r.choice(lifes)).replace("{b}", r.choice(lifes))
            return t

        if self.outer:
            for p in d.tparams():
                if p.name == "O":
                    continue
                d.declared[p.name] = {"tr0", "tr1"}
                p.bounds = V + "Tr0 + " + V + "Tr1"
        for p in d.tparams():
            if r.random() < 0.45 and p.name != "O" and not self.outer:
                text, nx, ny = r.choice(INLINE)
                y = r.choice(types)
                t = fill(text, p.name, y, False)
                if t is None:
                    continue
                bound_life |= "'" in text or "{a}" in text
                p.bounds = t
                d.declared[p.name] |= set(nx)
                if "{Y}" in text:
                    d.declared[y] |= set(ny)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            text, nx, ny = r.choice(WHERE)
            if self.outer and (set(nx) | set(ny)) - {"tr0", "tr1"}:
                continue
            x, y = r.choice(types), r.choice(types)
            t = fill(text, x, y, True)
            if t is None:
                continue
            bound_life |= "{a}" in text or "'static" in text
            wh.append(t)
            d.declared[x] |= set(nx)
            if "{Y}" in text:
                d.declared[y] |= set(ny)
        for q in d.params:
            if q.kind == "l" and r.random() < 0.3:
                q.bounds = r.choice(lifes)
                bound_life = True
        if wh:
            d.where = ", ".join(wh) + ("," if r.random() < 0.3 else "")
        elif r.random() < 0.15:
            d.where = " "
        # defaults, on a suffix of the parameters
        if r.random() < 0.35:
            for q in reversed(d.params):
                if q.kind == "l" or q.bounds == "?Sized" or r.random() < 0.3:
                    break
                if q.kind == "c":
                    q.default = r.choice(q.vals[:1] + ["{ %s }" % q.vals[0]])
                    continue
                before = [x.name for x in d.params[:d.params.index(q)] if x.kind == "t" and x.bounds != "?Sized"]
                if d.declared[q.name] or q.bounds or d.where.strip():
                    q.default = r.choice([V + "Pe<15>", V + "Pe<15>"])
                else:
                    q.default = r.choice(["u8", "()", "[u8; 3]", V + "Pe<15>"] + ["::std::vec::Vec<%s>" % b for b in before] + before)
        for q in d.params:
            if r.random() < 0.08 and not (q.default or q.bounds).rstrip().endswith(">"):
                # (rustc 1.87 panics where a `>>` is to be split after such an attribute)
                q.attrs = r.choice(["#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[allow(clippy::all)] #[cfg(not(any()))]"])
            elif r.random() < 0.05 and q.kind == "t" and not any(x.default for x in d.params):
                q.attrs = "#[cfg(any())] Gone%s: Copy," % q.name
        if not bound_life and d.mapped is None and depth_of(d) <= 0 and weight(d) <= 14 and not any(p.name == "O" for p in d.params) and \
                not any({"ord", "hash"} & x for x in d.declared.values()):
            self.bounded.append(d)
        return d

    def relaxed(self, d, wh, lifes):
        """A further parameter that may be unsized."""
        r = self.r
        p = Param("t", "O")
        ts = [i for i, q in enumerate(d.params) if q.kind != "l"]
        d.params.insert(r.choice(ts + [len(d.params)]), p)
        d.declared["O"] = set()
        o = P("O")
        fs = [App("::std::marker::PhantomData", [o], "p")]
        if not self.values:
            if r.random() < 0.5:
                fs.append(App("::std::boxed::Box", [o], "s"))
            if lifes and r.random() < 0.3:
                # not to be mapped over O, then
                fs.append(Raw("&%s {O}" % r.choice(lifes), ["O"]))
                wh.append("O: " + r.choice(lifes))
                d.mapped = {q.name for q in d.tparams() if q.name != "O"} if d.mapped is None else d.mapped - {"O"}
                d.attrs = ["#[funcmap(params(%s))]" % ", ".join(sorted(d.mapped))]
        for t in fs:
            v = r.choice([v for v in d.variants if v.style != "unit"] or [None])
            if v is None:
                v = d.variants[0]
                v.style = "tuple"
            v.fields.insert(r.randrange(len(v.fields) + 1), ("rel%d" % len(v.fields), t, ""))
        k = r.randrange(4)
        if k == 0:
            p.bounds = "?Sized"
        elif k == 1:
            wh.append("O: ?Sized")
        elif k == 2:
            p.bounds = V + "Tr1 + ?Sized"
            d.declared["O"] = {"tr1"}
        else:
            p.bounds = V + "Tr0"
            wh.append("O: ?Sized + " + V + "Tr1,  O: " + V + "Tr0")
            d.declared["O"] = {"tr0", "tr1"}
        d.others["O"] = "dyn " + V + "Both"
        d.relaxed = True


def relaxed_probes(d):
    """The implementations for the others, where O stands for an unsized type."""
    out = []
    mapped = {q.name for q in d.mapped_params()}
    for i, p in enumerate(d.typish()):
        if p.kind != "t" or p.name == "O" or p.name not in mapped:
            continue
        need = def_need(d, p.name)
        s = {q.name: "'static" if q.kind == "l" else q.vals[0] if q.kind == "c" else pe(15) for q in d.params}
        s["O"] = "dyn " + V + "Both"
        for tr in ("FuncMap", "TryFuncMap"):
            yes = satisfied(need, p.name, 15, 7 | 8, {q.name: 15 for q in d.tparams()}, tr == "TryFuncMap")
            out.append(probe_line(instance(d, s), pe(15), pe(15), tr, i, yes))
    return out


class BoundProbes(ProbeProg):
    def __init__(self, name, defs, seed, edition="2021", limit=8):
        ProbeProg.__init__(self, name, defs, seed, edition, limit)
        for d in defs:
            if getattr(d, "relaxed", False):
                d.hand = relaxed_probes(d)


def bound_progs(c, n, per, salt, values):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = BoundGen(s, values)
        for _ in range(per):
            g.one(2, True)
        if values:
            r = random.Random(s + 1)
            out.append(Prog("bnd%d" % i, g.defs, {d.idx: d.subjects(r) for d in g.defs}))
        else:
            out.append(BoundProbes("bndp%d" % i, g.defs, s, ["2021", "2018", "2024"][i % 3]))
        out[-1].unchecked = True
    return out


def bound_cases():
    """(key, edition, program): values that borrow from others, and bounds that
    need more than the helpers of the monitor."""
    D = "#[derive(FuncMap, TryFuncMap)] "
    H = "#![allow(dead_code)]\nuse funcmap::{FuncMap, TryFuncMap, TypeParam};\n"
    out = []

    def add(key, items, main, eds=("2021",)):
        for e in eds:
            out.append((key + ("" if len(eds) == 1 else "_" + e), e, H + items + "\nfn main() {\n" + main + "\n}\n"))
    add("values_that_borrow", D + """pub struct S<'a, 'b: 'a, T: 'a, const N: usize>(&'a str, [Option<T>; N], &'b [u8], Vec<(T, &'a str)>) where T: PartialEq;
""" + D + """pub enum E<'a, T> { V(T, std::slice::Iter<'a, u8>), W { x: Result<T, &'a std::cell::Cell<u8>> }, U }
""", """
    let owned = String::from("abc");
    let bytes = vec![1u8, 2, 3];
    let other = String::from("xyz");
    let calls = std::cell::Cell::new(0);
    let s = S::<&str, 2>(&owned, [Some(&owned[..1]), None], &bytes, vec![(&owned[1..], &owned)]);
    let t: S<(usize, &std::cell::Cell<i32>), 2> = s.func_map(|x: &str| { calls.set(calls.get() + 1); (x.len(), &calls) });
    assert_eq!((t.1[0].unwrap().0, t.3[0].0 .0, t.3[0].1, t.2.len(), t.0), (1, 2, "abc", 3, "abc"));
    assert_eq!(t.1[0].unwrap().1.get(), 2);
    let e: Result<S<&str, 2>, &String> = t.try_func_map(|(n, _)| if n == 1 { Ok(&other[..n]) } else { Err(&other) });
    assert_eq!(e.err(), Some(&other));
    let cell = std::cell::Cell::new(1u8);
    for (i, e) in [E::V(&owned, bytes.iter()), E::W { x: Ok(&other) }, E::W { x: Err(&cell) }, E::U].map(Some).iter_mut().map(|e| e.take().unwrap()).enumerate() {
        match (i, e.func_map(|x: &String| &x[i..])) {
            (0, E::V(x, it)) => assert_eq!((x, it.as_slice()), ("abc", &bytes[..])),
            (1, E::W { x: Ok(x) }) => assert_eq!(x, "yz"),
            (2, E::W { x: Err(c) }) => c.set(7),
            (3, E::U) => {}
            _ => panic!(),
        }
    }
    assert_eq!(cell.get(), 7);""", ("2021", "2018", "2024"))
    add("mapped_within_a_generic_function", D + """#[funcmap(params(T))] pub struct S<'a, T, U: ?Sized + 'a>(T, Vec<T>, &'a U) where T: Clone;
pub fn up<'a, A: Clone, B: Clone, U: ?Sized>(s: S<'a, A, U>, f: impl Fn(&A) -> B) -> S<'a, B, U> { s.func_map(|a| f(&a)) }
pub fn down<'a, A: Clone, B: Clone, U: ?Sized, E>(s: S<'a, A, U>, mut f: impl FnMut(A) -> Result<B, E>) -> Result<S<'a, B, U>, E> { s.try_func_map(|a| f(a)) }
""", """
    let n = 5u8;
    let s = up(S(&n, vec![&n], "abc" as &str), |x: &&u8| (**x, *x));
    assert_eq!((s.0 .0, s.0 .1, s.1.len(), s.2), (5, &n, 1, "abc"));
    let mut k = 0;
    assert_eq!(down(s, |(x, y)| { k += 1; if k < 2 { Ok(x) } else { Err(y) } }).err(), Some(&n));""")
    add("bounds_by_closures", D + """#[funcmap(params(T))] pub struct S<T, F: Fn(T) -> T>(T, Vec<T>, F);
""" + D + """#[funcmap(params(T))] pub struct W<T, F>(T, F) where F: Fn(&T) -> bool, for<'x> F: Fn(&'x T) -> bool;
pub fn id<T>(t: T) -> T { t }
pub struct Id;
fn map<A, B, F: Fn(A) -> A + Fn(B) -> B>(s: S<A, F>, f: impl FnMut(A) -> B) -> S<B, F> { s.func_map(f) }
fn wap<A, B, F: Fn(&A) -> bool + Fn(&B) -> bool>(s: W<A, F>, f: impl FnMut(A) -> B) -> W<B, F> { s.func_map(f) }
""", "")
    add("bounds_by_the_traits_themselves", D + """pub struct S<T>(T, Vec<T>) where Vec<T>: FuncMap<T, u8, Output = Vec<u8>>, Option<T>: TryFuncMap<T, String>;
""" + D + """pub struct R<T: FuncMap<u8, u16>>(T, Box<T>);
""" + D + """#[funcmap(params(T))] pub struct N<'a, K: Ord, T>(std::collections::BTreeMap<K, T>, &'a K) where std::collections::BTreeMap<K, T>: FuncMap<T, (), TypeParam<1>>;
impl<T> S<T> { fn bytes(self, f: impl Fn(T) -> u8) -> Vec<u8> { self.1.func_map(f) } }
""", """
    assert_eq!(S(1u8, vec![2, 3]).func_map(|x| x as char).bytes(|c| c as u8 + 1), [3, 4]);
    let r: R<Option<u8>> = R(vec![1u8], Box::new(vec![])).func_map(|v: Vec<u8>| v.into_iter().next());
    assert_eq!(r.0, Some(1));
    let k = 1;
    let n = N([(2, 'a')].into_iter().collect(), &k);
    let m = n.func_map_over::<TypeParam<1>, _>(|c: char| c as u32);
    assert_eq!(m.0[&2], 97);""")
    add("one_field_bounded_by_lifetimes", D + """pub struct B<'a, 'b: 'a, T: 'a>(&'a &'b u8, T);
""" + D + """pub struct S<'a, 'b: 'a, T: 'a>(B<'a, 'b, T>, Vec<B<'a, 'b, T>>, T);
""", """
    let n = 1u8;
    let r = &n;
    let s = S(B(&r, &n), vec![], &n);
    let t = s.func_map(|x: &u8| (x, 1));
    assert_eq!(t.0 .1, (&n, 1));""")
    add("two_fields_that_differ_in_lifetimes", D + """pub struct B<'a, T>(&'a u8, T);
""" + D + """pub struct S<'a, 'b, T>(B<'a, T>, B<'b, T>, Vec<(T, &'a u8)>, Vec<(T, &'static u8)>);
""", """
    let n = 1u8;
    fn part<'a, 'b>(s: S<'a, 'b, u32>) -> (&'a u8, &'b u8) { (s.0 .0, s.1 .0) }
    let (x, y) = {
        let z = 2u8;
        let s = S(B(&n, &z), B(&n, &z), vec![(&z, &n)], vec![(&z, &7)]);
        let t = s.func_map(|x: &u8| u32::from(*x));
        assert_eq!((t.2[0], t.3[0]), ((2, &1), (2, &7)));
        part(t)
    };
    assert_eq!((x, y), (&1, &1));""")
    add("two_fields_bounded_by_lifetimes", D + """pub struct B<'a, 'b: 'a, T>(&'a &'b u8, T);
""" + D + """pub struct S<'a, 'b: 'a, T>(B<'a, 'b, T>, B<'b, 'b, T>);
""", """
    let n = 1u8;
    let r = &n;
    let _ = S(B(&r, 1u8), B(&&5, 2)).func_map(|x: u8| u16::from(x));""")
    add("two_fields_bounding_the_elements", D + """pub struct B<'a, T: 'a>(&'a u8, T);
""" + D + """pub struct S<'a, 'b, T: 'a + 'b>(B<'a, T>, B<'b, T>);
""", """
    let n = 1u8;
    let _ = S(B(&n, &n), B(&1, &n)).func_map(|x: &u8| (x, 1));""")
    add("self_in_bounds", D + """pub struct S<T>(T, Vec<T>) where Self: Tr, Option<Self>: Of<Self>, <Self as Tr>::Out: Sized, for<'x> &'x T: Of<Self>;
impl<T> Tr for S<T> { type Out = T; }
pub trait Tr { type Out; }
pub trait Of<X: ?Sized> {} impl<X: ?Sized, Y: ?Sized> Of<X> for Y {}
""" + D + """pub enum R<'a, T, U: Of<Self>, const N: usize> where Vec<Self>: Of<[T; 2]>, T: Of<Self> + Of<Box<dyn Of<Self> + 'a>> { A(T, &'a u8), B([U; N]) }
""" + D + """pub struct C<T: PartialEq>(T) where Self: PartialEq + Sized;
impl<T: PartialEq> PartialEq for C<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
""", """
    let s = S(1u8, vec![2, 3]).func_map(|x| (x, 'c'));
    assert_eq!((s.0, s.1.len()), ((1, 'c'), 2));
    let r: Result<R<u8, &str, 2>, ()> = R::<String, &str, 2>::A("abc".to_string(), &7).try_func_map_over::<TypeParam<0>, _, _>(|x| Ok(x.len() as u8));
    assert!(matches!(r, Ok(R::A(3, 7))));
    assert!(matches!(R::<u8, char, 2>::B(['a', 'b']).func_map_over::<TypeParam<1>, _>(|c| c as u32), R::B([97, 98])));
    assert!(C(1u8).func_map(Some) == C(Some(1)));""", ("2021", "2018", "2024"))
    add("items_in_const_arguments", """pub struct Cn<const N: usize>;
""" + D + """pub struct S<T>([T; { const fn q<T>(x: T) -> T { x } struct T2<T>(T); let x: usize = q(2); 2 }], Cn<{ trait X<T> { const N: T; } 3 }>)
where [u8; { enum T { A = 2 } T::A as usize }]: Sized;
""", """
    let s = S([1u8, 2], Cn).func_map(|x| x as char);
    assert_eq!(s.0, [1 as char, 2 as char]);""", ("2021", "2018", "2024"))
    add("projection_shorthand_with_two_bounds", "pub trait Tr<X> { type Out; } impl<X, Y> Tr<X> for Y { type Out = u8; }\n" + D + """#[funcmap(params(T))] pub struct S<T, U: Tr<T>>(T, U) where U::Out: Sized;
""", "let _ = S(1u8, 2u8).func_map(|x| x as u16);")
    add("associated_type_is_the_parameter", D + """#[funcmap(params(T))] pub struct S<T, U: Iterator<Item = T>>(T, U);
""", "")
    add("elements_bounded_by_a_field", D + """pub struct B<'a, T: 'a>(&'a u8, T);
""" + D + """pub struct S<'a, T>(B<'a, T>);
""", """
    let n = 1u8;
    let _ = S(B(&n, &n)).func_map(|x: &u8| (x, 1));""")
    return out
