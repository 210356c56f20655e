"""Definitions with hostile names, in hostile scopes, written through macros."""

import re

from rgen import *
from probes import HandDef, pe

LOCALS = ["f", "value", "field_0", "field_f", "field_f0", "field_x", "self_", "result"]
PARAM_NAMES = ["A", "B", "E", "F", "A", "B", "E", "F", "C", "G", "T", "Z", "__FUNCMAP_A", "__FUNCMAP_B", "__FUNCMAP_E", "__FUNCMAP_F", "__FUNCMAP_F2",
               "Self_", "Output", "FuncMap", "TryFuncMap", "TypeParam", "FnMut", "Result", "Ok", "Err", "Some", "Sized", "Option", "Vec", "Box", "r#continue",
               "r#type", "r#A", "t", "core", "std", "alloc", "funcmap", "i128", "f32", "Drop", "\u00dc", "func_map", "Iterator", "r#fn", "r#B", "r#F"] + LOCALS
LIFES = ["a", "static_", "A", "T", "f", "r", "_x", "value"]
TYPE_NAMES = ["Option", "Result", "Vec", "Box", "Ok", "FuncMap", "TryFuncMap", "TypeParam", "Output", "FnMut", "A", "B", "E", "F", "r#match", "r#struct", "core",
              "Sized", "__FUNCMAP_A", "__FUNCMAP_F", "funcmap", "std", "D", "T", "PhantomData", "r#box", "Drop", "f", "value"]
FIELD_NAMES = ["f", "value", "self_", "field_f", "field_0", "r#fn", "r#type", "r#match", "A", "B", "F", "FuncMap", "TypeParam", "Output", "Ok", "core", "std",
               "funcmap", "func_map", "try_func_map", "Err", "result", "r#mut", "r#struct", "\u00fc", "r#f", "r#value", "_x", "__", "r#async", "r#dyn", "field_field_f"]
VARIANT_NAMES = ["Some", "None", "Ok", "Err", "A", "B", "E", "F", "FuncMap", "TypeParam", "r#fn", "r#match", "f", "value", "Vec", "Self_", "FnMut", "Result", "r#type",
                 "core", "T", "__FUNCMAP_A", "func_map", "Sized", "Option", "r#struct", "\u00dc", "Output", "Output", "r#Output", "Self_"]


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def pick_names(r, pool_, n, taken=()):
    out, seen = [], set(taken)
    pool_ = list(pool_)
    r.shuffle(pool_)
    for x in pool_:
        if unraw(x) not in seen and len(out) < n:
            seen.add(unraw(x))
            out.append(x)
    k = 0
    while len(out) < n:
        x = "N%d" % k
        k += 1
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


ABS = [(re.compile(r"(?<![\w:])(Vec|Box|Option|String)\b(?!\w)"), lambda m: "::std::" + {"Vec": "vec", "Box": "boxed", "Option": "option", "String": "string"}[m.group(1)] + "::" + m.group(1)),
       (re.compile(r"(?<![\w:])IntoIterator\b"), lambda m: "::std::iter::IntoIterator"),
       (re.compile(r"\bdyn Fn\("), lambda m: "dyn (::std::ops::Fn)("),
       (re.compile(r"(?<![\w:])(std|vmon)::"), lambda m: "::" + m.group(1) + "::")]


def absolute(t):
    for rx, f in ABS:
        t = rx.sub(f, t)
    return t.replace("(::std::ops::Fn)(", "::std::ops::Fn(")


# things in scope of a definition; none of them may change what it means
SCOPES = {
    "types": "pub struct Option; pub struct Vec; pub struct Box; pub struct Result; pub struct Sized; pub struct TypeParam; pub struct FuncMap; pub struct TryFuncMap; pub struct FnMut; pub struct PhantomData;",
    "variants": "#[derive(Clone, Copy)] pub enum Hostile { Some, None, Ok, Err } pub use self::Hostile::*;",
    "functions": "pub fn Ok<X>(_: X) -> X { loop {} } pub fn Err<X>(_: X) -> X { loop {} } pub fn Some() {} pub fn None() {} pub fn func_map() {} pub fn try_func_map() {}",
    "modules": "pub mod core {} pub mod std {} pub mod funcmap {} pub mod alloc {} pub mod Result {} pub mod vmon {}",
    "traits": "pub trait FuncMap { type Output; fn func_map(self); } pub trait TryFuncMap { fn try_func_map(self); } pub trait FnMut { type Output; } pub trait Sized {} pub trait Try {}"
              " pub trait Fn {} pub trait FnOnce {} pub trait Drop { fn drop(self); }",
    "methods": "pub trait Evil: ::std::marker::Sized { fn func_map<F>(self, _: F) -> u8 { 0 } fn func_map_over<M, F>(self, _: F) -> u8 { 0 } fn try_func_map<F>(self, _: F) -> u8 { 0 }"
               " fn try_func_map_over<M, F>(self, _: F) -> u8 { 0 } fn map<F>(self, _: F) -> u8 { 0 } fn into_iter(self) -> u8 { 0 } fn into(self) -> u8 { 0 } fn branch(self) -> u8 { 0 }"
               " fn call_mut(self) -> u8 { 0 } fn call(self) -> u8 { 0 } fn from(x: u8) -> Self { loop {} } fn collect(self) -> u8 { 0 } fn clone(self) -> u8 { 0 } fn drop(self) {} }"
               " impl<X> Evil for X {} pub trait EvilRef { fn func_map(&self) {} fn map(&self) {} fn func_map_over(&self) {} fn try_func_map(&mut self) {} } impl<X: ?::std::marker::Sized> EvilRef for X {}",
    "letters": " ".join("pub struct %s;" % c for c in UP),
    "consts": " ".join("pub const %s: u8 = 0;" % c for c in UP) + " pub static SELF_: u8 = 0; pub const FIELD_0: u8 = 1;",
    "aliases": "pub type A = u8; pub type B = A; pub type E = u16; pub type F = E; pub type __FUNCMAP_A = u8; pub type Output = u8; pub type Self_ = u8; pub type bool = u16; pub type usize = u8; pub type str = u8;",
    "macros": "macro_rules! vec { () => {} } macro_rules! panic { () => {} } macro_rules! matches { () => {} } macro_rules! assert { () => {} } macro_rules! unreachable { () => {} } macro_rules! funcmap { () => {} }"
              " macro_rules! FuncMap { () => {} }",
    "imports": "pub use ::std::result::Result::{Err as Ok, Ok as Err}; pub use ::std::option::Option as Result; pub use ::std::vec as core; pub use ::std::ops::Fn as FnMut; pub use ::std::clone::Clone as Sized;",
    "globs": "pub mod g1 { pub struct A; pub struct TypeParam; pub mod core {} pub fn Ok() {} } pub mod g2 { pub struct A; pub trait FuncMap {} pub mod core {} pub struct Result; } pub use self::g1::*; pub use self::g2::*;",
    "noprelude": None,
    "inherent": None,
}


class Hostile(Gen):
    default_share = 0
    allows = True   # lint attributes on fields

    def __init__(self, seed, first=2, edition="2021"):
        Gen.__init__(self, seed, first)
        self.edition = edition

    def head(self, name, d):
        opts = ["::" + STD[name][0]]
        if name in CORE_PATHS:
            opts.append("::" + CORE_PATHS[name])
        return self.r.choice(opts)

    def ind(self, key, d):
        t = Gen.ind(self, key, d)
        while self.edition == "2015" and "dyn " in t.text:
            # there, a path may not follow it
            t = Gen.ind(self, key, d)
        t = absolute(t.text)
        # primitive types may be shadowed
        t = re.sub(r"(?<![\w:'])(usize|str|bool)\b", r"::std::primitive::\1", t)
        return Ind(t)

    def ty(self, depth, key, d):
        t = Gen.ty(self, depth, key, d)
        if isinstance(t, App):
            # a const parameter's name may be taken for that of a type
            t.args = ["{ %s }" % x if isinstance(x, str) and x in d["lens"] else x for x in t.args]
        return t

    def params(self, rich):
        r = self.r
        ps = Gen.params(self, rich)
        names = pick_names(r, PARAM_NAMES, len(ps))
        lifes = pick_names(r, LIFES, len(ps))
        for p, n, l in zip(ps, names, lifes):
            if p.kind == "l":
                p.name = p.text = "'" + l
            else:
                p.name = p.text = n
        return ps

    def draw(self, depth, rich):
        r = self.r
        df = Gen.draw(self, depth, rich)
        for p in df.params:
            if p.kind == "c" and not p.cty.startswith("::"):
                p.cty = "::std::primitive::" + p.cty
        # the model has "Rest" among the variants
        names = pick_names(r, VARIANT_NAMES, len(df.variants))
        for v, n in zip(df.variants, names):
            if r.random() < 0.8:
                v.name = n
            fn = pick_names(r, FIELD_NAMES, len(v.fields))
            v.fields = [(m if v.style == "named" else n0, t, p) for (n0, t, p), m in zip(v.fields, fn)]
        vs = [unraw(v.name) for v in df.variants]
        for i, v in enumerate(df.variants):
            if vs.count(unraw(v.name)) > 1:
                v.name = "V%d" % i
                vs[i] = v.name
        return df

    def one(self, depth=3, rich=True):
        r = self.r
        df = Gen.one(self, depth, rich)
        df.braces = True
        if df.derives.startswith("funcmap"):
            df.derives = df.derives.replace("funcmap::", "::funcmap::")
        taken = {unraw(p.name) for p in df.params}
        kinds = r.sample(sorted(SCOPES), r.choice([0, 1, 1, 2, 3]))
        if self.edition == "2015":
            # there, :: starts at the crate's root, in definitions and scopes
            kinds = [k for k in kinds if k not in ("imports",)]
        pre, names = [], set()
        for k in kinds:
            if k == "noprelude":
                df.inner.append("no_implicit_prelude")
                continue
            if k == "inherent":
                continue
            ns = set(re.findall(r"(?:struct|enum|mod|trait|type|fn|const|static|as|macro_rules!) (\w+)", re.sub(r"\{[^{}]*(\{[^{}]*\}[^{}]*)*\}", "", SCOPES[k])))
            if k == "imports":
                ns |= {"Ok", "Err"}
            if k == "variants":
                ns |= {"Some", "None", "Ok", "Err"}
            if ns & names:
                continue
            names |= ns
            pre.append("#[allow(unused)] " + SCOPES[k] if k == "macros" else SCOPES[k])
        df.scopes = kinds
        if r.random() < 0.5:
            free = [n for n in TYPE_NAMES if unraw(n) not in taken | names]
            if "methods" in kinds:
                pass
            df.name = r.choice(free or [df.name])
        if "inherent" in kinds:
            # in scope of the expansion: methods of the type itself
            g = ", ".join(p.decl() for p in df.params)
            df.post += "    impl<%s> %s%s { pub fn func_map(self) -> u8 { 0 } pub fn try_func_map(self) -> u8 { 0 } pub fn func_map_over(self) {} pub fn try_func_map_over(self) {} }\n" % (g, df.name, df.args())
        df.pre = "\n".join([x for x in [df.pre] if x] + ["#[allow(unused)] " + p if not p.startswith("#") else p for p in pre])
        self.decorate(df)
        return df

    def decorate(self, df):
        """Attributes, doc comments, cfg'd parts."""
        r = self.r
        for v in df.variants:
            out = []
            for (n, t, p) in v.fields:
                if r.random() < 0.1:
                    p += r.choice([x for x in ["/// about \"this\"\n", "#[cfg(all())] ", "#[allow(unused)] ", "#[doc(hidden)] ", "#[cfg_attr(all(), allow(unused))] ", "/** block */ ", "#[cfg_attr(any(), nonsense)] "] if self.allows or "allow" not in x])
                if df.enum is False and v.style != "unit" and r.random() < 0.05:
                    p += "#[deprecated] "
                out.append((n, t, p))
            if df.enum and r.random() < 0.1:
                v.attrs = r.choice(["/// a variant\n", "#[allow(unused)] ", "#[cfg(not(any()))] ", "#[doc = \"x\"] ", "#[non_exhaustive] "])
            v.fields = out
        df.gone = {}
        if r.random() < 0.15:
            v = r.choice(df.variants)
            df.gone[id(v)] = ("#[cfg(any())] gone: No<Such, T>", "#[cfg(any())] No<Such, T>")
        if r.random() < 0.3:
            df.attrs.append(r.choice(["#[repr(C)]", "#[must_use]", "/// a type", "#[doc(hidden)]", "#[non_exhaustive]", "#[cfg(all())]", "#[allow(clippy::all)]", "#[cfg_attr(all(), must_use)]"]))
        if not df.enum and r.random() < 0.08:
            df.attrs.append("#[repr(C, packed)]")
            df.attrs = [a for a in df.attrs if a != "#[repr(C)]"]
        if df.enum and df.variants and r.random() < 0.1:
            df.attrs = [a for a in df.attrs if a != "#[repr(C)]"] + ["#[repr(u8)]"]
            for k, v in enumerate(df.variants):
                v.disc = str(100 + k)
        k = r.random()
        if k < 0.08:
            df.derives = "::funcmap::FuncMap, ::funcmap::TryFuncMap,"
        elif k < 0.16:
            df.derives = "::funcmap::FuncMap)]\n    #[cfg_attr(all(), derive(::funcmap::TryFuncMap))]\n    #[cfg_attr(any(), derive(Nothing))]\n    #[derive("
        elif k < 0.2:
            df.derives = ")]\n    #[cfg_attr(all(), derive(::funcmap::FuncMap), derive(::funcmap::TryFuncMap))]\n    #[derive("


# ---- definitions produced by macros

def split_frags(df, r):
    """The item, written as the expansion of a macro."""
    text = df.item_text()
    der = "#[derive(%s)]" % df.derives
    k = r.randrange(6)
    if df.gone or "cfg" in text and k in (2, 3):
        k = r.randrange(2)
    if k == 0:
        return "macro_rules! mac { ($($t:tt)*) => { $($t)* } }\n    mac! { %s %s }" % (der, text)
    if k == 1:
        return "macro_rules! mac { ($i:item) => { $i } }\n    mac! { %s %s }" % (der, text)
    if k in (2, 3, 4):
        # field types, names, parameters and const types as fragments of their own
        params = []
        body_attrs = "\n    ".join(df.attrs)
        pats, ins = ["$n:ident"], [df.name]
        for i, p in enumerate(df.params):
            if p.kind == "l":
                pats.append("$p%d:lifetime" % i)
                params.append("$p%d" % i)
                ins.append(p.text)
            elif p.kind == "t":
                pats.append("$p%d:ident" % i)
                params.append("$p%d" % i)
                ins.append(p.text)
            else:
                pats += ["$p%d:ident" % i, "$c%d:ty" % i]
                params.append("const $p%d: $c%d" % (i, i))
                ins += [p.text, p.cty]
        nf = [0]

        def frag(v):
            out = []
            for (n, t, pre) in v.fields:
                j = nf[0]
                nf[0] += 1
                pats.append("$f%d:ty" % j)
                ins.append(t.render({}))
                if v.style == "named":
                    if r.random() < 0.5:
                        pats.append("$m%d:ident" % j)
                        ins.append(n)
                        out.append("%s%s$m%d: $f%d" % (pre, "" if df.enum else "pub ", j, j))
                    else:
                        out.append("%s%s%s: $f%d" % (pre, "" if df.enum else "pub ", n, j))
                else:
                    out.append("%s%s$f%d" % (pre, "" if df.enum else "pub ", j))
            return out
        gen = "<%s>" % ", ".join(params) if params else ""
        if df.enum:
            vs = []
            for v in df.variants:
                f = frag(v)
                b = {"named": " { %s }" % ", ".join(f), "tuple": "(%s)" % ", ".join(f), "unit": ""}[v.style]
                vs.append("%s%s%s%s" % (v.attrs, v.name, b, " = " + v.disc if v.disc else ""))
            item = "%s enum $n%s { %s }" % (df.vis, gen, ", ".join(vs))
        else:
            v = df.variants[0]
            f = frag(v)
            item = "%s struct $n%s %s" % (df.vis, gen, "{ %s }" % ", ".join(f) if v.style == "named" else "(%s);" % ", ".join(f))
        out = "macro_rules! mac { (%s) => { %s\n    %s\n    %s } }" % ("; ".join(pats), der, body_attrs, item)
        call = "; ".join(ins)
        if k == 4:
            # through another macro
            names = [x.split(":")[0] for x in pats]
            return out + "\n    macro_rules! outer { (%s) => { mac! { %s } } }\n    outer! { %s }" % ("; ".join(pats), "; ".join(names), call)
        return out + "\n    mac! { %s }" % call
    # attributes, visibility and the rest
    kw = df.vis + (" enum" if df.enum else " struct")
    head, _, rest = text.partition(kw)
    return "macro_rules! mac { ($(#[$a:meta])* $v:vis enum $n:ident $($t:tt)*) => { $(#[$a])* $v enum $n $($t)* }; ($(#[$a:meta])* $v:vis struct $n:ident $($t:tt)*) => { $(#[$a])* $v struct $n $($t)* } }\n    mac! { %s %s %s%s }" % (
        der, head, kw, rest)


class Macroed(Hostile):
    def one(self, depth=3, rich=True):
        df = Hostile.one(self, depth, rich)
        df.expansion = split_frags(df, self.r)
        return df


class InFnGen(Hostile):
    """Puts definition and runs into a function, method or constant."""

    FORMS = [
        "pub fn run(e: &mut ::vmon::Engine) { %s }",
        "pub struct Host; impl Host { pub fn go(e: &mut ::vmon::Engine) { %s } } pub fn run(e: &mut ::vmon::Engine) { Host::go(e) }",
        "pub trait Host { fn go(e: &mut ::vmon::Engine) { %s } } impl Host for u8 {} pub fn run(e: &mut ::vmon::Engine) { <u8 as Host>::go(e) }",
        "pub const RUN: fn(&mut ::vmon::Engine) = { fn go(e: &mut ::vmon::Engine) { %s } go }; pub fn run(e: &mut ::vmon::Engine) { RUN(e) }",
        "pub fn run(e: &mut ::vmon::Engine) { let c = |e: &mut ::vmon::Engine| { %s }; c(e) }",
        "pub fn gener<T, A, B, F, const N: usize>(e: &mut ::vmon::Engine) { %s } pub fn run(e: &mut ::vmon::Engine) { gener::<u8, u8, u8, u8, 2>(e) }",
        "pub fn run(e: &mut ::vmon::Engine) { if true { { %s } } else { let _ = [0u8; { struct T; 3 }]; } }",
    ]

    def user(self, depth, d):
        k, self.usable = self.usable, []
        try:
            return Gen.user(self, depth, d)
        finally:
            self.usable = k

    def one(self, depth=3, rich=True):
        df = Hostile.one(self, depth, rich)
        df.infn = self.r.choice(self.FORMS)
        # the runs have to find their way in this scope
        df.pre = ""
        df.inner = []
        df.post = ""
        df.scopes = ["function"]
        df.name = self.r.choice(["D%d" % df.idx, "A", "F", "__FUNCMAP_A", "TypeParam", "Output", "r#match", "f", "value", "field_0"])
        if unraw(df.name) in {unraw(p.name) for p in df.params} or df.name == "f" and not df.enum:
            # (the runs have a local variable f)
            df.name = "D%d" % df.idx
        return df


# ---- whole programs of their own: (key, edition, text)

B = "::funcmap::FuncMap, ::funcmap::TryFuncMap"
CASES = []
for name, item in (("const", "pub const %s: u8 = 1;"), ("static", "pub static %s: u8 = 1;"), ("unit_struct", "pub struct %s;"), ("tuple_struct", "pub struct %s(pub u8);"),
                   ("const_fn", "pub const fn %s() {}"), ("module", "pub mod %s {}"), ("type_alias", "pub type %s = u8;"), ("macro", "macro_rules! %s { () => {} }"),
                   ("trait", "pub trait %s {}"), ("named_struct", "pub struct %s {}"), ("union", "pub union %s { pub a: u8 }")):
    for local, ty in (("f", "Vec<T>"), ("value", "Vec<Vec<T>>"), ("field_0", "Vec<T>")):
        CASES.append(("%s_named_%s" % (name, local), "2021", "#![allow(warnings)]\nextern crate funcmap;\n%s\n#[derive(%s)] pub struct D<T>(pub %s);\nfn main() {}\n" % (item % local, B, ty)))
for lint in ("absolute_paths_not_starting_with_crate", "bare_trait_objects", "deprecated", "drop_bounds", "dyn_drop", "non_camel_case_types", "trivial_bounds", "unused_qualifications",
             "warnings", "unused", "nonstandard_style", "rust_2018_idioms", "future_incompatible", "unsafe_code", "non_snake_case", "missing_docs", "unused_variables", "single_use_lifetimes",
             "clippy::all", "clippy::pedantic", "unreachable_pub", "non_upper_case_globals", "unused_parens", "unused_braces", "elided_lifetimes_in_paths", "rust_2018_compatibility"):
    CASES.append(("forbid_%s" % lint.replace("::", "_"), "2021", "//! a\n#![forbid(%s)]\n#![allow(unknown_lints)]\nextern crate funcmap;\n/// b\n#[derive(%s)] pub struct D<T> {\n/// c\npub x: T }\n/// e\npub fn main() {}\n" % (lint, B)))
for lint in ("absolute_paths_not_starting_with_crate", "bare_trait_objects", "deprecated", "drop_bounds", "dyn_drop", "non_camel_case_types", "trivial_bounds", "unused_qualifications"):
    CASES.append(("deny_%s" % lint, "2015", "#![deny(%s)]\nextern crate funcmap;\n#[derive(%s)] pub struct D<T> { pub x: T, pub y: Vec<T> }\npub fn main() {}\n" % (lint, B)))
CASES += [
    ("output_in_all_roles", "2021", "#![deny(warnings)]\n#[derive(%s)] pub enum Output<T> { Output { output: T }, Input(T) }\n#[derive(%s)] pub enum Other<Output> { Output(Output), None }\n"
     "pub fn main() { let _ = funcmap::FuncMap::func_map(Output::Output { output: 1u8 }, |x: u8| x as u16); match funcmap::FuncMap::func_map(Other::Output(1u8), |x: u8| x as u16) { Other::Output(1u16) => {} _ => panic!() } let _: Other<u8> = Other::None; let _ = Output::Input(1u8); }\n" % (B, B)),
    ("no_main_prelude_crate", "2021", "#![no_implicit_prelude]\n#[derive(%s)] pub struct D<T>(pub ::std::vec::Vec<T>, pub [T; 2], pub (T, u8));\nfn main() { let _ = ::funcmap::FuncMap::func_map(D(::std::vec![1u8], [1, 2], (3, 4)), |x: u8| x); }\n" % B),
    ("no_core_macros_crate", "2018", "#![no_std]\nextern crate std;\n#[derive(%s)] pub enum D<T> { A(T), B([T; 3], core::option::Option<T>) }\nfn main() { let _ = funcmap::FuncMap::func_map(D::A(1u8), |x: u8| x); let _ = D::B([1u8; 3], None); }\n" % B),
    ("renamed_core_and_std", "2021", "extern crate core as kore; extern crate std as stdx;\nmod core {} mod std {}\n#[derive(%s)] pub struct D<T>(pub kore::option::Option<T>, pub stdx::vec::Vec<T>);\nfn main() { let _ = funcmap::FuncMap::func_map(D(Some(1u8), vec![2]), |x: u8| x); }\n" % B),
    ("edition_2015_without_extern_crate_core", "2015", "extern crate funcmap;\nmod m { #[derive(%s)] pub struct D<T>(pub Option<T>); }\nfn main() { let _ = funcmap::FuncMap::func_map(m::D(Some(1u8)), |x: u8| x); }\n" % B),
    ("bare_fn_object_edition_2015", "2015", "extern crate funcmap;\n#[derive(%s)] pub struct D<T>(pub T, pub Box<Fn(u8)>);\nfn main() {}\n" % B),
    ("bare_fn_object_edition_2018", "2018", "#![allow(bare_trait_objects)]\n#[derive(%s)] pub struct D<'a, T>(pub T, pub &'a Fn(u8) -> u8);\nfn main() {}\n" % B),
    ("bare_objects_edition_2015", "2015", "extern crate funcmap;\n#[derive(%s)] pub struct D<'a, T>(pub T, pub Box<Send + 'static>, pub &'a ::std::any::Any, pub Box<Iterator<Item = u8> + 'a>);\nfn main() {}\n" % B),
    ("bare_objects_edition_2018", "2018", "#![allow(bare_trait_objects)]\n#[derive(%s)] pub struct D<'a, T>(pub T, pub Box<Send + 'static>, pub &'a ::std::any::Any, pub Box<Iterator<Item = u8> + 'a>);\nfn main() {}\n" % B),
]
