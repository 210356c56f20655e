"""Definitions from a wide grammar of what the compiler accepts, valid or not:
each is accepted or rejected by the derive macros for a reason, and never makes
them panic."""

import os
import random
import re
import shutil

from runner import *

PRE = """pub mod pre {
pub trait Em {} impl<Y: ?Sized> Em for Y {}
pub trait Tr<X: ?Sized> { type Out; const N: usize; } impl<X: ?Sized, Y: ?Sized> Tr<X> for Y { type Out = Pj<X, Y>; const N: usize = 2; }
pub struct Pj<X: ?Sized, Y: ?Sized>(::std::marker::PhantomData<X>, ::std::marker::PhantomData<Y>);
pub trait Lt<'x> {} impl<'x, Y: ?Sized> Lt<'x> for Y {}
pub trait Ga { type G<'x> where Self: 'x; } impl<Y> Ga for Y { type G<'x> = &'x u8 where Y: 'x; }
pub struct Cn<const N: usize>; pub struct Cb<const N: bool>; pub struct Ci<const N: i8>; pub struct Cc<const N: char>;
#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct G1<Y>(pub Y);
#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct G2<const N: usize, Y, const M: bool, W = u8>(pub [Y; N], pub W);
#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct G3<'x, Y, W>(pub &'x u8, pub Y, pub W);
#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[funcmap(params(W))] pub enum G4<Y, W> { A(W), B(Y) }
pub const LEN: usize = 2;
pub const fn len<Y>() -> usize { 2 }
pub type Al<Y> = ::std::vec::Vec<Y>; pub type Alr<'x, Y> = ::std::result::Result<Y, &'x u8>;
}
macro_rules! id { ($($t:tt)*) => { $($t)* } }
"""
TN = ["T", "U", "V", "A", "F", "E", "B", "Item", "r#type", "T0", "Foo", "r#U", "__FUNCMAP_A"]
CNS = ["N", "M", "r#C", "K0"]
EVERYTHING = "*"


def raw(s):
    return s[2:] if s.startswith("r#") else s


def in_macros(text):
    """The names mentioned in arguments of macros."""
    out = set()
    for m in re.finditer(r"\bid!.", text):
        depth, i = 1, m.end()
        while depth:
            depth += (text[i] in "([{") - (text[i] in ")]}")
            i += 1
        out |= {raw(x) for x in re.findall(r"(?:r#)?\w+", text[m.end():i])}
    return out


class Fuzz:
    """One definition. `bad` sets hold the parameters for which it is not supported."""

    def __init__(self, r, idx, clean=False):
        self.r, self.idx, self.clean = r, idx, clean
        self.lifes = r.sample(["'a", "'b", "'r#a", "'_x"][:2] + ["'c"], r.choice([0, 0, 1, 1, 2]))
        self.types = r.sample(TN, r.choice([1, 1, 1, 2, 2, 3, 4] if clean or r.random() < 0.96 else [0]))
        seen = set()
        self.types = [t for t in self.types if not (raw(t) in seen or seen.add(raw(t)))]
        self.consts = [(n, r.choice(["usize", "usize", "usize", "bool", "i8", "char"])) for n in r.sample(CNS, r.choice([0, 0, 0, 1, 1, 2]))]
        self.recursive = self.in_bound = False

    def flip(self, p):
        return self.r.random() < p

    def life(self):
        return self.r.choice(self.lifes + ["'static"])

    def length(self):
        r = self.r
        ns = [n for n, t in self.consts if t == "usize"]
        if ns and self.flip(0.4):
            return r.choice([n for n in ns] + ["{ %s }" % n for n in ns])
        return r.choice(["2", "2", "3", "0", "1usize", "0x2", "{ 2 }", "{ 1 + 1 }", "1 + 2", "LEN", "LEN + 1", "{ LEN }", "len::<u8>()", "<u8 as Tr<u8>>::N", "if true { 2 } else { 3 }", "b'c' as usize",
                         "{ const X: usize = 3; X }", "{ struct Q; 2 }", "(2, 3).1", "\"ab\".len()", "1 << 2", "{ let x = 2; x }", "match LEN { 0 => 1, x => x }", "[1, 2][0]", "-(-2isize) as usize",
                         "id!(2)", "{ id!(2 + 1) }", "u8::MAX as usize - 254", "!(!2)", "{ fn q<T>(x: T) -> T { x } 2 }", "{ loop { break 2 } }", "size_of::<[u8; 2]>()", "*&2", "(2)", "crate::pre::LEN", "2_usize",
                         "{ #[allow(unused)] let y = 1; 2 }", "unsafe { 2 }", "{ use crate::pre::LEN as Z; Z }", "'a' as usize - 96", "true as usize", "{ mod q {} 2 }"])

    def carg(self, ty):
        r = self.r
        ns = [n for n, t in self.consts if t == ty]
        if ns and self.flip(0.4):
            return r.choice(ns + ["{ %s }" % n for n in ns])
        return r.choice({"usize": ["2", "{ 1 + 1 }", "{ LEN }", "LEN", "{ if true { 2 } else { 3 } }", "{ len::<u8>() }", "0b10", "{ id!(2) }"], "bool": ["true", "false", "{ 1 < 2 }", "{ !true }"],
                         "i8": ["-1", "1", "{ -1 }", "{ 1 - 2 }", "-0"], "char": ["'c'", "'\\''", "{ 'a' }", "'\\u{61}'"]}[ty])

    def ty(self, depth):
        """(text, parameters in it, parameters for which it is not supported)"""
        r = self.r
        if depth <= 0 or self.flip(0.25):
            if self.types and self.flip(0.6):
                p = r.choice(self.types)
                return p, {raw(p)}, set()
            return r.choice(["u8", "()", "String", "bool", "&'static str", "f32", "std::string::String", "Cn<2>", "::std::primitive::u8", "char", "Cn<{ LEN }>", "[u8; 2]", "fn()", "Box<str>", "Box<dyn Em>",
                             "core::cmp::Ordering", "Cb<true>", "Ci<-1>", "Cc<'c'>", "*const u8", "(u8,)", "std::marker::PhantomPinned", "fn() -> !", "crate::pre::Cn<0>", "(u8)"]), set(), set()
        k = r.randrange(100)
        sub = lambda: self.ty(depth - 1)
        one = lambda f, un=False: (lambda x: (f.replace("$", x[0], 1), x[1], set(x[1]) if un else x[2]))(sub())

        def two(f):
            none = ("", set(), set())
            x, y = sub() if "$" in f else none, sub() if "@" in f else none
            return f.replace("$", x[0], 1).replace("@", y[0], 1), x[1] | y[1], x[2] | y[2]

        def twou(f):
            t, d, b = two(f)
            return t, d, set(d)
        if k < 20:
            return one(r.choice(["Vec<$>", "Option<$>", "Box<$>", "::std::vec::Vec<$,>", "std::cell::Cell<$>", "crate::pre::G1<$>", "G1::<$>", "self::G1<$>", "Result<$, u8>", "Result<u8, $>", "core::option::Option<$>",
                                 "super::pre::G1<$>", "std::collections::VecDeque<$>", "std::ops::Range<$>", "PhantomData<$>", "std::marker::PhantomData<$,>", "alloc::vec::Vec<$>", "Al<$>", "std::task::Poll<$>"]))
        if k < 28:
            return two(r.choice(["Result<$, @>", "($, @)", "($, @,)", "(u8, $, @)", "(($), @)", "std::ops::ControlFlow<$, @>", "(($, @), ())", "::core::result::Result<$, @>", "(u8, ($, u16, @), u32)"]))
        if k < 33:
            return one(r.choice(["($,)", "($)", "(($))", "(u8, $)", "($, u8, u16)", "((((($)))),)"]))
        if k < 43:
            x = sub()
            return "[%s; %s]" % (x[0], self.length()), x[1], x[2]
        if k < 50:
            x, y = sub(), sub()
            c = r.randrange(4)
            if c == 0:
                return "G2<%s, %s, %s, %s>" % (self.carg("usize"), x[0], self.carg("bool"), y[0]), x[1] | y[1], x[2] | y[2]
            if c == 1:
                return "G2<%s, %s, %s>" % (self.carg("usize"), x[0], self.carg("bool")), x[1], x[2]
            if c == 2:
                l = self.life()
                return "G3<%s, %s, %s>" % (l, x[0], y[0]) if x[1] == set() or True else "", x[1] | y[1], x[2] | y[2]
            # (implemented for the second only, which is nothing the macro could know)
            return "G4<%s, %s>" % (x[0], y[0]), x[1] | y[1], x[2] | y[2]
        if k < 56:
            return one(r.choice(["&'static $", "&%s $" % self.life(), "&%s mut $" % self.life(), "&%s [$]" % self.life(), "&%s dyn Tr<$, Out = u8>" % self.life(), "&%s (dyn Fn($) + Send)" % self.life(), "&%s &%s ($, u8)" % (self.life(), self.life())]), True)
        if k < 60:
            return one(r.choice(["*const $", "*mut $", "*const [$]", "*mut *const $", "*const dyn Fn($)", "*const ($, u8)"]), True)
        if k < 68:
            return twou(r.choice(["fn($) -> @", "fn($, @)", "fn(x: $, _: @)", "unsafe fn($) -> @", "extern \"C\" fn($, @)", "unsafe extern \"C\" fn($, ...) -> @", "for<'x> fn(&'x $) -> @", "fn(&$) -> Option<@>", "fn($,) -> (@)",
                                  "for<'x, 'y> fn(&'x $, &'y @) -> &'x u8", "extern fn($) -> @", "fn(fn($) -> @)", "unsafe extern \"system\" fn(a: $, b: @)", "for<> fn($, @)", "fn(#[allow(unused)] $, @)", "fn([@; 2], $) -> !"]))
        if k < 76:
            return twou(r.choice(["Box<dyn Fn($) -> @>", "Box<dyn FnMut($, @) + Send>", "Box<dyn Tr<$, Out = @>>", "Box<dyn for<'x> Fn(&'x $) -> &'x u8 + 'static>", "Box<dyn for<'x> Tr<&'x $, Out = @>>", "Box<dyn (Em) + Send>",
                                  "Box<dyn Iterator<Item = ($, @)> + 'static>", "Box<dyn ::core::ops::FnOnce($) -> @ + Send + Sync>", "Box<dyn std::ops::Fn() -> ($, @)>", "Box<dyn 'static + Tr<$, Out = u8>>", "Box<dyn Tr<[$; 2], Out = u8,>>",
                                  "Box<dyn AsRef<$> + %s>" % self.life(), "Box<(dyn Fn($) -> @ + Send)>"]))[:3] if True else None
        if k < 80:
            return one(r.choice(["Box<[$]>", "Box<[Vec<$>]>", "std::rc::Rc<[$]>", "Box<[($, u8)]>"]), True)
        if k < 86:
            return twou(r.choice(["<$ as Tr<@>>::Out", "<$ as crate::pre::Tr<@>>::Out", "<u8 as Tr<($, @)>>::Out", "<Vec<$> as IntoIterator>::Item", "<[$; 2] as Tr<@>>::Out", "<($) as ::std::ops::Add<@>>::Output", "<<$ as Tr<u8>>::Out as Tr<@>>::Out"]))
        if k < 88 and self.types and not self.in_bound:
            # (ambiguous if there are bounds on p for the source and for the target)
            p = r.choice(self.types)
            return "%s::%s" % (p, r.choice(["Item", "Out"])), {raw(p)}, {raw(p)}
        if k < 92:
            return one(r.choice(["Vec<id!($)>", "(id!($), u8)", "Option<id![$]>", "[id!{$}; 2]", "Vec<id!([$])>", "Vec<id!(Vec<$>)>"]), True)
        if k < 94:
            return one(r.choice(["PhantomData<fn($)>", "PhantomData<*const $>", "PhantomData<&'static $>", "std::marker::PhantomData<(fn() -> $, u8)>"]), True)
        if k < 96:
            t = r.choice(["PhantomData<Self>", "fn(Self)", "fn(&Self) -> u8", "Box<dyn Fn(Self)>", "*const Self", "PhantomData<fn(Self) -> Self>", "&'static Self", "<Self as Tr<u8>>::Out", "Option<*const Self>"])
            ps = {raw(p) for p in self.types}
            # (supported as such, but the type is recursive then)
            self.recursive |= t == "PhantomData<Self>"
            return t, ps, set() if t == "PhantomData<Self>" else ps
        if k < 98 and self.lifes:
            x = sub()
            return "Alr<%s, %s>" % (self.life(), x[0]), x[1], x[2]
        return one(r.choice(["Al<$>", "Option<(($,),)>", "G1<G1<$>>", "Vec<[($, u8); 2]>"]))

    def bound(self, p):
        r = self.r
        x = self.ty(1)[0]
        # (no lifetimes can be elided where Self stands for some)
        s = x if "Self" not in x else "u8"
        return r.choice(["Em", "Em", "crate::pre::Em", "::std::marker::Sized", "?Sized" if p else "Em", "(Em)", "Tr<%s>" % x, "Tr<%s>" % x, "for<'x> Lt<'x>", "for<'x> Tr<&'x u8>", "for<'x,> Tr<fn(&'x u8)>", "'static",
                         self.life(), "Fn(%s) -> u8" % x, "Lt<%s>" % self.life(), "Lt<'static>", "Ga", "std::marker::Send", "(?Sized)" if p else "Em", "for<> Em", "Iterator<Item = u8>", "Clone", "(for<'x> Lt<'x>)",
                         "FnMut(&%s) -> &u8" % s if "dyn" not in s else "Em", "Tr<[u8; %s]>" % self.length(), "self::Em", "std::ops::Fn()", "Copy"])

    def bounds(self, p=True):
        r = self.r
        if self.flip(0.5):
            return ""
        was, self.in_bound = self.in_bound, True
        bs = [self.bound(p) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        self.in_bound = was
        # a parameter is relaxed once at most
        rel = [b for b in bs if "?Sized" in b]
        for b in rel[1:]:
            bs.remove(b)
        return ": " + " + ".join(bs) + (" +" if bs and self.flip(0.1) else "")

    def predicate(self):
        r = self.r
        if self.lifes and self.flip(0.12):
            return "%s: %s" % (r.choice(self.lifes), r.choice(["", "'static", r.choice(self.lifes), " + ".join(self.lifes)]))
        x = self.ty(2)[0]
        if self.types and self.flip(0.5):
            x = r.choice(self.types)
        b = self.bounds(False)
        k = r.randrange(12)
        if k == 0:
            return "for<'x> &'x %s: Lt<'x>" % x
        if k == 1:
            return "for<'x> %s: Tr<&'x u8>" % x
        if k == 2:
            return "for<> %s%s" % (x, b or ": Em")
        if k == 3:
            return "%s: Tr<%s>" % (x, self.ty(1)[0])
        if k == 4:
            return "<%s as Tr<%s>>::Out: Em" % (x, self.ty(1)[0])
        if k == 5:
            return "for<'x> fn(&'x %s): Em" % x
        if k == 6:
            return "%s: for<'x> Lt<'x>" % x
        if k == 7:
            return r.choice(["u8: Em", "Self: Sized", "Self: Em", "str: Em", "[%s; %s]: Sized" % (x, self.length()), "dyn Em: Em", "[%s]: Em" % x, "(): Tr<%s>" % x, "Self: Tr<%s>" % x, "Vec<Self>: Em"])
        if k == 8 and self.types:
            return "%s: ?Sized" % r.choice(self.types) if self.flip(0.3) else "%s: Ga" % r.choice(self.types)
        if x not in self.types and re.search(r"[:+] *\(?'", b):
            # (bounds of a type that only imply those of its parameters: not implied where that is
            # the target)
            b = ": Em"
        if x.startswith("for<") and not b.strip(": +"):
            # (implied bounds of a predicate without bounds: nothing can be implemented for that)
            b = ": Em"
        return "%s%s" % (x, b or ":")

    def where(self):
        self.in_bound = True
        w = self.where_()
        self.in_bound = False
        return w

    def where_(self):
        r = self.r
        self.preds = ""
        if self.flip(0.55):
            return ""
        ps = [self.predicate() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        self.preds = ", ".join(ps)
        return " where " + ", ".join(ps) + ("," if ps and self.flip(0.3) else "")

    def attrs(self):
        r = self.r
        out = ""
        while self.flip(0.15):
            out += r.choice(["/** doc */ ", "#[doc = \"x\"] ", "#[allow(unused)] ", "#[cfg(all())] ", "#[cfg_attr(all(), allow(dead_code))] ", "#[doc(hidden)] ", "#[cfg_attr(any(), nonsense)] ", "#[expect(unused)] " if False else "#[deny(unused)] "])
        return out

    def vis(self):
        return self.r.choice(["", "", "pub ", "pub(crate) ", "pub(self) ", "pub(super) ", "pub(in crate) ", "crate::" if False else "pub "])

    def tokens(self, depth=2):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.randrange(10)
            if k < 3 and depth:
                o, c = r.choice(["()", "[]", "{}"])
                out.append(o + self.tokens(depth - 1) + c)
            elif k < 7:
                out.append(r.choice(["params", "crate", "params", "crate", "self", "super", "fn", "_", "T", "r#params", "r#type", "U", "funcmap", "as", "dyn", "Self", "mut", "'a", "'static", "r#T"]))
            elif k < 8:
                out.append(r.choice(["\"funcmap\"", "1", "1.5", "'c'", "b\"x\"", "r\"funcmap\"", "\"\"", "\"a::\"", "true", "-1", "r#\"funcmap\"#", "c\"x\"", "\"::funcmap\"", "\"T\"", "0xff_u8"]))
            else:
                out.append(r.choice([",", "=", "::", ";", "<", ">", "..", "+", "#", "!", "?", "&", "->", "=>", "$", "@", ":", "|", "~", "^", "==", "&&", "..="]))
        return " ".join(out)

    def option(self):
        """Options of the derives: (text, mapped parameters or None for all, whether malformed or None)"""
        r = self.r
        k = r.random()
        if k < (0.8 if self.clean else 0.62) or not self.types:
            return "", None, False
        if k < (0.97 if self.clean else 0.85):
            ps = r.sample(self.types, r.randrange(1, len(self.types) + 1))
            m = {raw(p) for p in ps}
            cr = r.choice(["", "", "", ", crate = \"funcmap\"", ", crate = r\"::funcmap\"", ", crate = r#\"funcmap\"#"])
            k = r.randrange(4)
            if k == 0:
                return "".join("#[funcmap(params(%s))] " % p for p in ps) + ("#[funcmap(%s)] " % cr[2:] if cr else ""), m, False
            if k == 1:
                return "#[funcmap(%s%s,)] " % (", ".join("params(%s)" % p for p in ps), cr), m, False
            if k == 2 and cr:
                return "#[funcmap(%s, params(%s,))] " % (cr[2:], ", ".join(ps)), m, False
            return "#[funcmap(params(%s)%s)] " % (", ".join(ps), cr), m, False
        t = self.tokens()
        if self.flip(0.5):
            t = "params(%s)" % t
        if "$" in t:
            t = t.replace("$", "")
        return r.choice(["#[funcmap(%s)] ", "#[funcmap(%s)] ", "#[funcmap(params(T), %s)] ", "#[funcmap[%s]] ", "#[funcmap{%s}] "]) % t if self.flip(0.93) else r.choice(["#[funcmap = \"x\"] ", "#[funcmap] ", "#[funcmap = 1] "]), None, None

    def text(self):
        r = self.r
        opt, mapped, malformed = self.option()
        names = {raw(t) for t in self.types}
        mapped = names if mapped is None else mapped
        misplaced = False
        gs, gb = [], []
        for l in self.lifes:
            gb.append(l + r.choice(["", "", "", ":", ": 'static"] + [": " + x for x in self.lifes if x != l and x < l]))
        rest = []
        for t in self.types:
            b = self.bounds()
            rest.append([t + b, ""])
        for n, t in self.consts:
            rest.append(["const %s: %s" % (n, t), ""])
        r.shuffle(rest)
        # defaults come last
        if self.flip(0.25):
            for x in rest[-r.randrange(0, len(rest) + 1):] if rest else []:
                x[1] = " = " + ({"usize": "2", "bool": "true", "i8": "-1", "char": "'c'"}[x[0].split(": ")[1]] if x[0].startswith("const ") else r.choice(["u8", "Vec<u8>", "fn(u8) -> u8", "[u8; 2]", "(u8, u8)"]))
            k = len(rest)
            while k and rest[k - 1][1]:
                k -= 1
            for x in rest[:k]:
                x[1] = ""
        gs = gb + [a + b for a, b in rest]
        # an attribute of the derives where it does not belong
        place = r.choice(["param", "field", "variant"]) if not self.clean and self.flip(0.05) else None
        kind = r.choice(["enum", "enum", "tuple", "tuple", "named", "named", "unit" if self.flip(0.1) else "tuple", "union" if not self.clean and self.flip(0.3) else "named"])
        if place == "param" and gs:
            k = r.randrange(len(gs))
            gs[k] = "#[funcmap(params(T))] " + gs[k]
            misplaced = True
        for k in range(len(gs)):
            if self.flip(0.04):
                # (cfg on a parameter that ends with >> makes rustc 1.87 crash)
                gs[k] = r.choice(["#[cfg(all())] " if ">>" not in gs[k] else "", "#[allow(unused)] ", "/** doc */ "]) + gs[k]
        gen = "<%s%s>" % (", ".join(gs), "," if gs and self.flip(0.15) else "") if gs or self.flip(0.3) else ""
        bad = set()

        def fields(style, n):
            nonlocal misplaced
            out = []
            for i in range(n):
                t, d, b = self.ty(r.choice([0, 1, 2, 2, 3]))
                if self.clean and b & mapped:
                    t, d, b = r.choice([("Vec<u8>", set(), set()), (r.choice(self.types) if self.types else "u8", set(), set())])
                bad.update(b)
                a = self.attrs()
                if place == "field" and not misplaced:
                    a += "#[funcmap(params(T))] "
                    misplaced = True
                v = self.vis() if kind != "enum" else ""
                t = "std::mem::ManuallyDrop<%s>" % t if kind == "union" else t
                out.append(a + v + ("%s: " % (["f", "value", "r#fn", "x", "self_", "_y", "r#async", "T", "field_f"][i] if i < 9 else "f%d" % i) if style == "named" else "") + t)
            c = "," if out and self.flip(0.4) else ""
            return {"named": " { %s%s }", "tuple": "(%s%s)"}[style] % (", ".join(out), c)
        nf = r.choice([0, 1, 1, 2, 2, 3, 5])
        # type parameters have to be used
        used = ", ".join("PhantomData<%s>" % t for t in self.types)
        ph = "PhantomData<(%s%s)>" % (", ".join(["fn() -> u8"] + ["&%s u8" % l for l in self.lifes] + ["PhantomData<%s>" % t for t in self.types]), "")
        # (that would not be supported, for tuples within PhantomData are types like others)
        phs = ["PhantomData<&%s u8>" % l for l in self.lifes] + ["PhantomData<%s>" % t for t in self.types]
        if kind == "enum":
            vs = []
            for i in range(r.choice([1, 1, 2, 3, 6])):
                a = self.attrs()
                if place == "variant" and not misplaced:
                    a += "#[funcmap(params(T))] "
                    misplaced = True
                st = r.choice(["named", "tuple", "tuple", "unit"])
                vs.append(a + ["V", "Output", "r#fn", "Some", "T", "Ok"][i] + ("" if st == "unit" else fields(st, r.choice([0, 1, 1, 2, 3]))))
            if phs:
                vs.append("Ph(%s)" % ", ".join(phs))
            w = self.where()
            body = w + " { %s%s }" % (", ".join(vs), "," if vs and self.flip(0.4) else "")
            kw = "enum"
        elif kind == "unit":
            body, kw = self.where() + ";", "struct"
            if self.types or self.lifes:
                body = "(%s)%s;" % (", ".join(phs), self.where())
        elif kind == "tuple":
            f = fields("tuple", nf)
            inner = f[1:-1].rstrip().rstrip(",")
            f = "(%s)" % ", ".join([x for x in [inner] if x] + phs)
            body, kw = f + self.where() + ";", "struct"
        else:
            f = fields("named", nf)
            inner = f.strip()[1:-1].strip().rstrip(",")
            f = " { %s }" % ", ".join([x for x in [inner] if x] + ["ph%d: %s" % (i, "std::mem::ManuallyDrop<%s>" % x if kind == "union" else x) for i, x in enumerate(phs)] + (["un: u8"] if kind == "union" else []))
            body, kw = self.where() + f, "union" if kind == "union" else "struct"
        head = ""
        while self.flip(0.12):
            head += r.choice(["/// doc\\n" if False else "/** doc */ ", "#[allow(unused)] ", "#[cfg(all())] ", "#[must_use] ", "#[non_exhaustive] ", "#[doc(hidden)] "])
        item = "%s%s%s D%s%s" % (head, self.vis(), kw, gen, body)
        self.item, self.opt = item, opt
        if kind == "union" or not self.types or misplaced or malformed:
            self.expect = "reject"
        elif malformed is None:
            self.expect = None
        elif self.recursive and not bad & mapped:
            self.expect = None
        else:
            named = in_macros(", ".join(gs) + self.preds)
            self.expect = "reject" if bad & mapped or named & (mapped | {"Self"}) else "accept"
            if self.expect == "accept" and in_macros(body) & (mapped | {"Self"}):
                # (whatever is named like the parameter within a macro may or may not be the parameter)
                self.expect = None
        return self


def line_of(d, derives):
    der = "#[derive(%s)] " % ", ".join("::funcmap::" + t for t in derives) if derives else ""
    item = d.item if derives else underived(d.item)
    return "pub mod d%d { use crate::pre::*; use std::marker::PhantomData; %s%s%s }" % (d.idx, der, d.opt if derives else "", item)


class FuzzProgram:
    def __init__(self, c, vm, name, defs, edition):
        self.c, self.vm, self.name, self.defs, self.edition = c, vm, name, defs, edition
        self.d = os.path.join(c.dir, name)
        os.makedirs(self.d, exist_ok=True)

    def compile(self, defs, derives, what):
        head = "#![allow(warnings)]\n#![recursion_limit = \"256\"]\nextern crate alloc; extern crate core; extern crate funcmap;\n" + PRE
        src = os.path.join(self.d, what + ".rs")
        n0 = head.count("\n") + 1
        text = head + "\n".join(line_of(d, derives) for d in defs) + "\nfn main() {}\n"
        with open(src, "w") as f:
            f.write(text)
        rc, diags, err = self.vm.rustc(src, os.path.join(self.d, what), self.edition, ["--emit=metadata"], ("funcmap",), timeout=120)
        out, stray = {}, []
        for e in errors(diags):
            ls, _ = lines_of(e, what + ".rs")
            ls = [x - n0 for x in ls if 0 <= x - n0 < len(defs)]
            if ls:
                out.setdefault(ls[0], []).append(e)
            else:
                stray.append(e)
        return rc, out, stray, text, err

    def settle(self, defs, derives, what, keep, rounds=12):
        """Leaves out definitions with errors until it compiles; yields (definition, errors)."""
        gone = []
        for k in range(rounds):
            if not defs:
                return [], gone
            rc, out, stray, text, err = self.compile(defs, derives, "%s%d" % (what, k))
            if rc is None:
                return None, gone + [(d, None) for d in defs]
            if rc == 0:
                return defs, gone
            if not out and "compiler unexpectedly panicked" in err:
                # rather than the macros, which give an error when they panic
                alone = [d for d in defs if "compiler unexpectedly panicked" not in self.compile([d], derives, what + "ice")[4]]
                self.c.count("fuzzed_definitions_crashing_the_compiler", len(defs) - len(alone))
                if len(alone) < len(defs):
                    defs = alone
                    continue
            if not out:
                if stray:
                    return None, gone + [(None, stray)]
                return None, gone + [(None, [dict(message=err[-1500:], rendered=err[-1500:], spans=[])])]
            # what the macros say comes first
            own = {i for i, es in out.items() if any(not (e.get("code") or {}).get("code") for e in es)} if keep else set()
            hit = own or set(out)
            gone += [(defs[i], out[i]) for i in sorted(hit)]
            defs = [d for i, d in enumerate(defs) if i not in hit]
        return None, gone + [(d, []) for d in defs]


def at_derive(e, fname):
    """Whether an error points at the derive attribute as a whole, or into its list."""
    for s in e["spans"]:
        if s.get("is_primary"):
            t = (s.get("text") or [{}])[0]
            x = t.get("text", "")
            k = x.find("#[derive(")
            end = x.find(")]", k)
            if k >= 0 and k <= s["column_start"] - 1 <= end:
                return True
    return False


def fuzz_monitor(c, vm, n, per, salt, clean=False, want=("panic", "reject", "accept")):
    """Definitions of a wide grammar, with and without the derives."""
    def go(k):
        r = random.Random(c.seed * 100003 + salt * 1009 + k)
        ed = ["2021", "2018", "2024", "2021"][k % 4]
        defs = [Fuzz(r, i, clean).text() for i in range(per)]
        p = FuzzProgram(c, vm, "fuzz%d_%d" % (salt, k), defs, ed)
        valid, gone = p.settle(defs, [], "alone", False)
        if valid is None:
            valid = []
        ok = {d.idx for d in valid}
        c.count("fuzzed_definitions", len(defs))
        c.count("fuzzed_definitions_valid", len(ok))
        derives = r.choice([["FuncMap", "TryFuncMap"], ["FuncMap"], ["TryFuncMap"]])
        # what is not valid may still not make the macros panic
        for d, es in gone:
            if d is None or es is None:
                continue
        rest = [d for d in defs if d.idx not in ok]

        def report(kind, key, d, es, what):
            if kind not in want:
                return
            c.violation("fuzz:%s:%s" % (kind, key), "derive(%s), edition %s: %s\n\n%s\n\n%s" % (
                ", ".join(derives), ed, what, line_of(d, derives), "\n".join(e.get("rendered") or e["message"] for e in (es or [])[:3])),
                {"main.rs": "#![allow(warnings)]\nextern crate alloc; extern crate core; extern crate funcmap;\n" + PRE + line_of(d, derives) + "\nfn main() {}\n"})

        def panics(es):
            return [e for e in es or [] if "panicked" in e["message"]]
        # those first, each round without what cannot be parsed
        if "panic" in want:
            left = rest
            for k2 in range(12):
                if not left:
                    break
                rc, out, stray, text, err = p.compile(left, derives, "rest%d" % k2)
                if rc is None:
                    for d in left:
                        rc2, o2, _, _, _ = p.compile([d], derives, "hang")
                        if rc2 is None:
                            report("panic", "hang", d, None, "the compiler does not come to an end")
                    break
                for i, es in out.items():
                    if panics(es):
                        report("panic", "panic", left[i], panics(es), "the macro panics")
                if rc == 0 or not out:
                    break
                # syntax errors hide all else
                own = any(any("funcmap" in str(s.get("expansion") or "") for s in e["spans"]) for es in out.values() for e in es)
                if own or len(out) > 1 or any((e.get("code") or {}).get("code") for es in out.values() for e in es):
                    break
                left = [d for i, d in enumerate(left) if i not in out]
            c.count("fuzzed_definitions_invalid_tried", len(rest))
        left, gone = p.settle(valid, derives, "derived", True)
        if left is None:
            for d, es in gone:
                if es is None and d is not None:
                    rc2, _, _, _, _ = p.compile([d], derives, "hang")
                    if rc2 is None:
                        report("panic", "hang", d, None, "the compiler does not come to an end")
                if d is None:
                    raise EnvError("stray errors: " + "\n".join(e["message"] for e in es[:3]))
            left = []
        for d in left:
            c.count("fuzzed_definitions_accepted")
            if d.expect == "reject":
                report("reject", "accepted", d, None, "accepted, though it contains what is not supported")
        for d, es in gone:
            if not es:
                continue
            own = [e for e in es if not (e.get("code") or {}).get("code")]
            if panics(es):
                report("panic", "panic", d, panics(es), "the macro panics")
            elif own:
                c.count("fuzzed_definitions_rejected")
                if d.expect == "accept":
                    report("accept", "rejected:" + re.sub("[^a-z]+", "_", own[0]["message"].lower())[:50], d, own, "rejected without reason")
                elif all(at_derive(e, "") for e in own):
                    report("reject", "place", d, own, "the errors do not point to the place")
            else:
                c.count("fuzzed_definitions_with_coded_errors")
                if d.expect == "reject":
                    report("reject", "coded:" + code_of(es), d, es, "rejected by errors in generated code only")
                elif d.expect == "accept":
                    report("accept", "compile:" + code_of(es), d, es, "what is derived does not compile")
        with c.lock:
            c.evals += len(defs)
            c.nontrivial += len(ok)
        for kind in ("accept", "reject"):
            c.count("fuzzed_expected_" + kind, sum(d.expect == kind for d in valid))
        shutil.rmtree(p.d, ignore_errors=True)
    pool(JOBS, go, range(n))
