"""Definitions with the params and crate options: every subset of the
parameters in many notations, and every way to reach the crate."""

from defs import *
from probes import *
from rgen import *
from runner import *

# what a definition may mention of a parameter that is not listed; the flag:
# only where there are no values
UNLISTED = [
    ("::std::marker::PhantomData<fn({U}) -> {U}>", False), ("::std::marker::PhantomData<*const {U}>", False),
    ("::std::marker::PhantomData<(fn({U}), [{U}; 2])>", False), ("::std::marker::PhantomData<dyn Fn({U}) -> u8>", False),
    ("::std::marker::PhantomData<[{U}]>", False), ("::std::marker::PhantomData<<::std::option::Option<{U}> as ::std::iter::IntoIterator>::Item>", False),
    ("fn({U}) -> {U}", True), ("*const {U}", True), ("::std::vec::Vec<*mut {U}>", True), ("::std::boxed::Box<dyn Fn({U}) -> {U}>", True),
    ("::std::option::Option<fn(&{U})>", True), ("[*const {U}; 2]", True), ("::std::rc::Rc<{U}>", True), ("::std::sync::Arc<::std::vec::Vec<{U}>>", True),
    ("<::std::vec::Vec<{U}> as ::std::iter::IntoIterator>::IntoIter", True), ("::vmon::probe::Opaque<{U}>", True),
    ("::std::borrow::Cow<'static, [u8]>", True),
]

# how to reach the crate: (items in the module, path, editions)
ALL, NEW = ("2015", "2018", "2021", "2024"), ("2018", "2021", "2024")
PATHS = [
    ("", "::renamed", ALL), ("", "renamed", NEW), ("", "crate::facade", ALL), ("", "crate::deep::er::fm", ALL), ("use ::renamed as fm;", "self::fm", ALL),
    ("", "super::fmroot", ALL), ("use ::renamed as fm2;", "fm2", ALL), ("", "::vmon::funcmap", ALL), ("", "vmon::funcmap", NEW),
    ("pub mod own { pub mod r#try { pub use ::renamed::{FuncMap, TryFuncMap, *}; } }", "self::own::r#try", ALL),
    ("use super::deep;", "deep::er::fm", ALL), ("", "super::super::" , ()), ("extern crate renamed as again;", "self::again", ALL),
    ("pub mod T { pub use ::renamed::*; }", "self::T", ALL), ("pub mod value { pub use ::renamed as f; }", "self::value::f", ALL),
    ("use ::renamed as core;", "self::core", ALL), ("use ::renamed as std_;", "std_", ALL), ("pub mod FuncMap_ { pub use ::renamed as TypeParam; }", "self::FuncMap_::TypeParam", ALL),
]
PATHS = [p for p in PATHS if p[2]]
DECOY = "#[allow(dead_code)] pub mod funcmap { pub trait FuncMap {} pub trait TryFuncMap {} pub struct TypeParam; }"
FACADES = "pub mod facade { pub use ::renamed::*; }\npub mod deep { pub mod er { pub use ::renamed as fm; } }\nuse ::renamed as fmroot;\n" + DECOY + "\n"


def arguments(r, names, path):
    """The attributes: parameters and path spread over arguments and attributes."""
    names = list(names)
    r.shuffle(names)
    args = []
    while names:
        k = r.randint(1, len(names))
        some, names = names[:k], names[k:]
        args.append("params(%s%s)" % (", ".join(("r#" if r.random() < 0.15 else "") + n for n in some), "," if r.random() < 0.3 else ""))
    if path:
        args.insert(r.randrange(len(args) + 1), 'crate = %s' % r.choice(['"%s"', '"%s"', 'r"%s"', 'r#"%s"#', '" %s "']) % path)
    out = []
    while args:
        k = r.randint(1, len(args))
        some, args = args[:k], args[k:]
        body = "funcmap(%s%s)" % (", ".join(some), "," if r.random() < 0.3 else "")
        if r.random() < 0.15:
            body = "cfg_attr(all(), %s)" % body
        out.append("#[%s]" % body)
    return out


class OptGen(ProbeGen):
    def __init__(self, seed, edition, values, path=True, styles=None, bounds=0.0):
        ProbeGen.__init__(self, seed, special=0.0 if values else 0.1, bounds=bounds)
        self.edition, self.values, self.path = edition, values, path
        self.styles = styles
        self.subset = {}

    def params(self, rich):
        r = self.r
        nt = r.choice([1, 2, 2, 3, 3, 4, 4, 6])
        names = r.sample([x for x in UP if x != "O"], nt + 2)
        if r.random() < 0.25:
            # names that are hard to tell apart
            names = r.sample(["T", "t", "TT", "T1", "T_", "_T", "Tt", "tT", "tt", "T10", "\u0422"], nt + 2)
        elif r.random() < 0.3:
            names[0] = "T" if "T" not in names else names[0]
        mix = [Param("t", n) for n in names[:nt]] + [Param("c", n, vals=["0", "2"]) for n in names[nt:nt + r.choice([0, 0, 1, 2])]]
        r.shuffle(mix)
        return [Param("l", "'" + n) for n in r.sample("abcxyz", r.choice([0, 0, 1]))] + mix

    def draw(self, depth, rich):
        r = self.r
        df = Gen.draw(self, depth, rich)
        df.attrs = []
        names = [p.name for p in df.tparams()]
        # the subsets in turn, so that all of them come up
        n = self.subset.get(len(names), r.randrange(64))
        self.subset[len(names)] = n + 1
        mask_ = n % (2 ** len(names))
        listed = [x for i, x in enumerate(names) if mask_ >> i & 1]
        if not listed:
            df.mapped = None
        else:
            df.mapped = set(listed)
            un = [x for x in names if x not in listed]
            for _ in range(r.choice([0, 1, 1, 2, 3]) if un else 0):
                f = r.choice([x for x in UNLISTED if not (self.values and x[1])])[0]
                t = Raw(f, [])
                for u in [r.choice(un)]:
                    t = Raw(f.replace("{U}", "{%s}" % u), [u])
                k = r.random()
                if k < 0.25:
                    t = Tup([P(r.choice(listed)), t])
                elif k < 0.35:
                    t = App("::std::option::Option", [Tup([t, P(r.choice(listed)), t])], "s")
                elif k < 0.45:
                    t = App("::std::result::Result", [P(r.choice(listed)), t], "r")
                v = r.choice([v for v in df.variants if v.style != "unit"] or [None])
                if v:
                    v.fields.insert(r.randrange(len(v.fields) + 1), ("un%d" % len(v.fields), t, ""))
        # the path
        pre, path, eds = r.choice([p for p in PATHS if self.edition in p[2] and not any("mod %s " % q.name in p[0] for q in df.params)])
        where = r.choice(["::renamed", "::vmon::funcmap"])
        if not self.path:
            pre, path, where = "", None, "::funcmap"
        imp = []
        if self.path and r.random() < 0.5:
            imp.append("#[allow(dead_code)] pub mod funcmap { pub trait FuncMap {} pub trait TryFuncMap {} }")
        if r.random() < 0.3:
            imp.append("use %s::{FuncMap, TryFuncMap};" % where)
            m, t = "FuncMap", "TryFuncMap"
        elif r.random() < 0.2:
            imp.append("use %s::{FuncMap as Fm, TryFuncMap as Tfm};" % where)
            m, t = "Fm", "Tfm"
        else:
            m, t = where + "::FuncMap", where + "::TryFuncMap"
        attrs = arguments(r, listed, path)
        k = r.random()
        if k < 0.5:
            df.derives = "%s, %s" % (m, t)
        else:
            # between the derives, and before them
            a = r.randint(0, len(attrs))
            mid = attrs[:a]
            attrs = attrs[a:]
            df.derives = "%s)]\n    %s#[derive(%s" % (m, "".join(x + "\n    " for x in mid), t)
        df.attrs = attrs
        df.pre = "\n".join([x for x in [df.pre, pre] + imp if x])
        return df


def without_funcmap(text):
    return text.replace("extern crate funcmap;\n", "extern crate renamed;\n").replace(" funcmap::TypeParam<", " vmon::funcmap::TypeParam<")


class OptProg(Prog):
    def render(self, defs):
        text, ranges = Prog.render(self, defs)
        return without_funcmap(text), ranges


class OptProbes(ProbeProg):
    def render(self, defs):
        text, ranges = ProbeProg.render(self, defs)
        return without_funcmap(text), ranges


def option_progs(c, n, per, salt, values):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        ed = ["2021", "2018", "2024", "2015"][i % 4]
        g = OptGen(s, ed, values, bounds=0.0 if values else 0.2)
        for _ in range(per):
            g.one(2, True)
        if values:
            r = random.Random(s + 1)
            out.append(OptProg("opt%d" % i, g.defs, {d.idx: d.subjects(r) for d in g.defs}, ed, head=FACADES))
        else:
            out.append(OptProbes("optp%d" % i, g.defs, s, ed, extra=FACADES + ("extern crate core;\n" if ed == "2015" else "")))
    return out


class TwoGen(OptGen):
    """Definitions that may belong to either of two instances of the crate."""

    def user(self, depth, d):
        return self.ty(depth - 1, False, d)

    def draw(self, depth, rich):
        df = OptGen.draw(self, depth, rich)
        r = self.r
        own = r.choice(["::second", "::second", "second", "self::fm", "::funcmap", None])
        df.pre = "\n".join([df.pre] + (["use ::second as fm;"] if own == "self::fm" else []))
        df.attrs = arguments(r, sorted(df.mapped or []), own)
        by = "::second" if own in ("::second", "second") and r.random() < 0.5 else "::funcmap"
        df.derives = "%s::FuncMap, %s::TryFuncMap" % (by, by)
        df.second = own not in ("::funcmap", None)
        return df


class TwoProg(ProbeProg):
    """Which instance's traits are implemented."""

    def render(self, defs):
        text = "#![allow(dead_code, unused)]\nextern crate alloc;\nextern crate funcmap;\nextern crate second;\nextern crate vmon;\n"
        ranges, runs = [], ""
        for d in defs:
            a = text.count("\n") + 1
            text += bare_module(d)
            lines = []
            typ = d.typish()
            for i, p in enumerate(typ):
                if p.kind == "c":
                    continue
                sub = {q.name: "'static" if q.kind == "l" else q.vals[0] if q.kind == "c" else pe(15) for q in d.params}
                src = instance(d, sub)
                dst = instance(d, {**sub, p.name: pe(7)})
                for tr in ("FuncMap", "TryFuncMap"):
                    for cr in ("second", "funcmap"):
                        yes = (d.mapped is None or p.name in d.mapped) and d.second == (cr == "second")
                        b = "::%s::%s<%s, %s, ::%s::TypeParam<%d>%s>" % (cr, tr, pe(15), pe(7), cr, i, ", Output = " + dst if yes else "")
                        lines.append('    vmon::probe::chk("%s: %s", %s, vmon::probe!(%s: %s));' % (short(src), short(b), "true" if yes else "false", src, b))
            text += "fn run_%d() {\n%s\n}\n" % (d.idx, "\n".join(lines))
            ranges.append((a, text.count("\n"), d.idx))
        text += "fn main() {\n%s    vmon::probe::finish()\n}\n" % "".join("    run_%d();\n" % d.idx for d in defs)
        return text, ranges


def two_progs(c, n, per, salt):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = TwoGen(s, "2021", False, path=False)
        g.special = 0
        for _ in range(per):
            g.one(2, True)
        out.append(TwoProg("two%d" % i, g.defs, s, ["2021", "2018", "2024"][i % 3]))
    return out


# a crate whose macros derive for its users, who do not have funcmap at all
WRAP_LIB = r"""
pub extern crate funcmap as __fm;
pub mod private { pub use ::__fm_::*; }
#[macro_export]
macro_rules! model {
    ($n:ident, $($f:ty),*) => {
        #[derive($crate::__fm::FuncMap, $crate::__fm::TryFuncMap)]
        #[funcmap(crate = "::wrap::__fm")]
        pub struct $n<T>($(pub $f,)* pub T);
    };
    (enum $n:ident<$($p:ident),*> over $q:ident { $($v:ident($($f:ty),*)),* }) => {
        #[derive($crate::__fm::FuncMap, $crate::__fm::TryFuncMap)]
        #[funcmap(params($q), crate = "::wrap::private")]
        pub enum $n<$($p),*> { $($v($($f),*)),* }
    };
}
#[macro_export]
macro_rules! with_attr {
    ($c:literal $i:item) => { #[derive($crate::__fm::FuncMap, $crate::__fm::TryFuncMap)] #[funcmap(crate = $c)] $i };
}
""".replace("::__fm_::*", "__fm::*").replace("pub use __fm", "pub use super::__fm")
WRAP_USE = r"""
extern crate wrap;
mod funcmap { }
mod inner {
    model!(M, Vec<u8>, [u16; 2]);
    model!(enum E<T, U> over U { A(T, fn(T)), B(Vec<U>), C(Option<U>, Box<U>) });
    with_attr! { "::wrap::private" pub struct L<T> { pub a: Vec<T> } }
    with_attr! { "wrap_::__fm" pub struct K<'a, T> { pub a: &'a str, pub b: (T, T) } }
    use ::wrap as wrap_;
}
fn main() {
    use wrap::__fm::{FuncMap, TryFuncMap, TypeParam};
    let m: inner::M<String> = inner::M(vec![1], [2, 3], 4u8).func_map(|x| x.to_string());
    assert_eq!((m.0, m.1, &m.2[..]), (vec![1], [2, 3], "4"));
    let e: inner::E<u8, u16> = FuncMap::<_, _, TypeParam<1>>::func_map(inner::E::<u8, u8>::B(vec![1, 2]), |x: u8| u16::from(x) + 1);
    assert!(match e { inner::E::B(v) => v == [2, 3], _ => false });
    let l: Result<inner::L<u16>, u8> = inner::L { a: vec![1u8, 2, 3] }.try_func_map(|x| if x < 3 { Ok(u16::from(x)) } else { Err(x) });
    assert_eq!(l.err(), Some(3));
    let k = inner::K { a: "a", b: (1, 2) }.func_map(|x| x + 1);
    assert_eq!(k.b, (2, 3));
}
"""
WRAP_USE = "#[macro_use]" + WRAP_USE
