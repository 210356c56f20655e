"""Items with the names that generated parameters would like to have, each
mentioned in one place of a definition only."""

from probes import HandDef, pe

NAMES = ["A", "B", "E", "F", "__FUNCMAP_A", "__FUNCMAP_B", "__FUNCMAP_E", "__FUNCMAP_F"]
LETTERS = "ABCDEFGHIJKLMNOPQRSVWXYZ"

# what, items in scope, definition ($D: derives and `pub struct D`; L: the name; X: a container of T)
ITEM = "pub struct L; "
TR = "pub trait Tr<Y> {} "
CN = "pub struct Cn<const N: usize>; "
PLACES = [
    ("type in a where clause", ITEM + TR + "impl<Y> Tr<L> for Y {}", "$D<T>(pub T, pub X) where T: Tr<L>;"),
    ("type bounded in a where clause", ITEM + TR + "impl<Y> Tr<Y> for L {}", "$D<T>(pub T, pub X) where L: Tr<T>;"),
    ("type in a where clause, deep", ITEM + TR + "impl<Y, W> Tr<Y> for (W, u8) {}", "$D<T>(pub T, pub X) where (::std::vec::Vec<[L; 2]>, u8): Tr<T>;"),
    ("trait in a where clause", "pub trait L {} impl<Y> L for Y {}", "$D<T>(pub T, pub X) where T: L;"),
    ("trait in a higher-ranked where clause", "pub trait L<'x, Y> {} impl<'x, Y> L<'x, Y> for Y {}", "$D<T>(pub T, pub X) where for<'x> T: L<'x, T>;"),
    ("trait of an inline bound", "pub trait L {} impl<Y> L for Y {}", "$D<T: L>(pub T, pub X);"),
    ("argument of an inline bound", ITEM + TR + "impl<Y> Tr<L> for Y {}", "$D<T: Tr<L>>(pub T, pub X);"),
    ("higher-ranked inline bound", "pub trait L<'x> {} impl<'x, Y> L<'x> for Y {}", "$D<T: for<'x> L<'x>>(pub T, pub X);"),
    ("binding of an inline bound", ITEM + "pub trait Tr { type Out; } impl<Y> Tr for Y { type Out = L; }", "$D<T: Tr<Out = L>>(pub T, pub X);"),
    ("bound of the other parameter", ITEM + "impl ::std::convert::From<u8> for L { fn from(_: u8) -> L { L } }", "$D<T, U: ::std::convert::Into<L> = u8>(pub T, pub U, pub X);"),
    ("function bound", ITEM, "#[funcmap(params(T))] $D<T, U: ::std::ops::Fn(L) -> L = fn(L) -> L>(pub T, pub X, pub U);"),
    ("bound of an unmapped parameter by a projection", "pub trait L { type Out; } impl L for u8 { type Out = u16; }", "#[funcmap(params(T))] $D<T, U: L = u8>(pub T, pub X, pub <U as L>::Out);"),
    ("projection in a where clause", "pub trait L { type Out; } impl<Y> L for Y { type Out = u8; }", "$D<T>(pub T, pub X) where <T as L>::Out: ::std::marker::Sized;"),
    ("module", "pub mod L { pub struct S; pub trait Tr {} impl<Y> Tr for Y {} }", "$D<T: L::Tr>(pub T, pub X, pub L::S) where L::S: L::Tr;"),
    ("module of a field's type", "pub mod L { #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct S<Y>(pub Y); }", "$D<T>(pub T, pub L::S<T>, pub X);"),
    ("field's type", "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct L<Y>(pub Y);", "$D<T>(pub T, pub L<T>, pub X);"),
    ("type in a field", ITEM, "$D<T>(pub T, pub X, pub L);"),
    ("type in a tuple", ITEM, "$D<T>(pub (T, L), pub X);"),
    ("other argument of a mapped type", ITEM, "$D<T>(pub ::std::result::Result<T, L>, pub X);"),
    ("argument within a mapped type", ITEM, "$D<T>(pub ::std::vec::Vec<(L, ::std::option::Option<T>)>, pub X);"),
    ("trait object", "pub trait L {}", "$D<T>(pub T, pub X, pub ::std::boxed::Box<dyn L + ::std::marker::Send>);"),
    ("argument of a trait object", ITEM, "$D<T>(pub T, pub X, pub ::std::boxed::Box<dyn ::std::ops::Fn(&L) -> u8>);"),
    ("binding of a trait object", ITEM, "$D<T>(pub T, pub X, pub ::std::boxed::Box<dyn ::std::iter::Iterator<Item = L>>);"),
    ("function pointer", ITEM, "$D<T>(pub T, pub X, pub fn(u8) -> L);"),
    ("higher-ranked function pointer", ITEM, "$D<T>(pub T, pub X, pub for<'x> fn(&'x L) -> &'x u8);"),
    ("reference", ITEM, "$D<T>(pub T, pub X, pub &'static L);"),
    ("pointer", ITEM, "$D<T>(pub T, pub X, pub *const [L]);"),
    ("self of a projection", ITEM + "pub trait Tr { type Out; } impl Tr for L { type Out = u8; }", "$D<T>(pub T, pub X, pub <L as Tr>::Out);"),
    ("trait of a projection", "pub trait L { type Out; } impl L for u8 { type Out = u8; }", "$D<T>(pub T, pub X, pub <u8 as L>::Out);"),
    ("argument of a projection", ITEM + "pub trait Tr<Y> { type Out; } impl Tr<L> for u8 { type Out = u8; }", "$D<T>(pub T, pub X, pub <u8 as Tr<L>>::Out);"),
    ("array of it", ITEM, "$D<T>(pub T, pub X, pub [L; 2]);"),
    ("length of an array", "pub struct L; impl L { pub const N: usize = 2; }", "$D<T>(pub [T; L::N], pub X);"),
    ("length of an unmapped array", "pub struct L; impl L { pub const N: usize = 2; }", "$D<T>(pub T, pub [u8; { L::N + 1 }], pub X);"),
    ("length from a trait's constant", "pub trait L { const N: usize; } impl L for u8 { const N: usize = 2; }", "$D<T>(pub [T; <u8 as L>::N], pub X);"),
    ("length from a module", "pub mod L { pub const N: usize = 2; pub const fn n() -> usize { 3 } }", "$D<T>(pub [T; L::N], pub [u8; L::n()], pub X);"),
    ("length by a cast", "pub type L = usize;", "$D<T>(pub [T; 2u8 as L], pub X);"),
    ("length by a call", "pub struct L; pub const fn n<Y>() -> usize { 2 }", "$D<T>(pub [T; n::<L>()], pub X);"),
    ("length by a struct", "pub struct L { pub n: usize }", "$D<T>(pub [T; L { n: 2 }.n], pub X);"),
    ("length by a match", "pub enum L { V }", "$D<T>(pub [T; match L::V { L::V => 2 }], pub X);"),
    ("constant as a length", "pub const L: usize = 2;", "$D<T>(pub [T; L], pub X);"),
    ("constant as an argument", "pub const L: usize = 2; " + CN, "$D<T>(pub T, pub X, pub Cn<L>);"),
    ("block as an argument", "pub struct L; impl L { pub const N: usize = 2; } " + CN, "$D<T>(pub T, pub X, pub Cn<{ L::N }>);"),
    ("constant argument of a mapped type", "pub const L: usize = 2; #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct Cm<const N: usize, Y>(pub Y);", "$D<T>(pub Cm<L, T>, pub X);"),
    ("type of a const parameter", "pub type L = usize;", "$D<T, const N: L = 2>(pub [T; N], pub X);"),
    ("default of a parameter", ITEM, "$D<T, U = L>(pub T, pub X, pub U);"),
    ("default of a const parameter", "pub struct L; impl L { pub const N: usize = 2; }", "$D<T, const N: usize = { L::N }>(pub [T; N], pub X);"),
    ("argument of a macro", ITEM + "macro_rules! id { ($t:ty) => { $t } }", "$D<T>(pub T, pub X, pub ::std::vec::Vec<id!(L)>);"),
    ("token of a macro", ITEM + "macro_rules! id { ([$($t:tt)*]) => { ($($t)*, u8) } }", "$D<T>(pub T, pub X, pub ::std::vec::Vec<id!([(u8, L)])>);"),
    ("macro as a length", "pub struct L; impl L { pub const N: usize = 2; } macro_rules! id { ($t:expr) => { $t } }", "$D<T>(pub T, pub X, pub [u8; id!(L::N)], pub [T; id!(L::N)]);"),
    ("macro's name", "macro_rules! L { () => { u8 } }", "$D<T>(pub T, pub X, pub ::std::vec::Vec<L!()>);"),
    ("crate path", "pub use ::funcmap as L;", "#[funcmap(crate = \"L\")] $D<T>(pub T, pub X);"),
    ("crate path's module", "pub mod L { pub use ::funcmap as f; }", "#[funcmap(crate = \"L::f\")] $D<T>(pub T, pub X);"),
    ("type's own name", "", "$D<T>(pub T, pub X, pub ::std::vec::Vec<L>);"),
    ("name of a variant", "", "$E<T> { L(T, X), V }"),
    ("other parameter", "", "$D<T, L = u8>(pub T, pub X, pub L, pub ::std::vec::Vec<L>);"),
    ("const parameter", "", "$D<T, const L: usize = 2>(pub T, pub X, pub [T; L]);"),
    ("unmapped parameter", "", "#[funcmap(params(T))] $D<T, L = u8>(pub T, pub X, pub L, pub ::std::vec::Vec<L>) where L: ::std::marker::Sized;"),
    ("Self and it", ITEM + TR + "impl<Y, W> Tr<Y> for ::std::boxed::Box<W> {}", "$D<T>(pub T, pub X) where ::std::boxed::Box<L>: Tr<T>, L: ::std::marker::Send;"),
    ("fragments of a macro", ITEM + TR + "impl<Y> Tr<L> for Y {}", "macro_rules! mk { ($t:ty, $b:path, $p:ident) => { $D<$p: $b>(pub $p, pub $t, pub ::std::vec::Vec<$p>); } } mk! { [L; 2], Tr<L>, T }"),
    ("where clause through a macro", ITEM + TR + "impl<Y> Tr<Y> for L {}", "macro_rules! mk { ($t:ty) => { $D<T>(pub T, pub X) where $t: Tr<T>; } } mk! { L }"),
    ("length through a macro", "pub struct L; impl L { pub const N: usize = 2; }", "macro_rules! mk { ($t:expr) => { $D<T>(pub [T; $t], pub X); } } mk! { L::N }"),
]


def letter_defs(first, r, raw=0.15):
    out = []
    for (what, items, d) in PLACES:
        for n in NAMES:
            # with all single letters in use, others are taken
            full = n.startswith("_") or r.random() < 0.1
            x = r.choice(["::std::vec::Vec<T>", "::std::option::Option<[T; 2]>", "(T, u8)", "T"])
            pre = ""
            used = [c for c in LETTERS if c != n]
            if full:
                if r.random() < 0.5 or what.startswith("name of") or "macro_rules! mk" in d:
                    pre = "".join("pub struct %s; " % c for c in used)
                    # (mentioned in one place or another)
                    x = "(%s, fn(%s))" % (x, ", ".join(used)) if r.random() < 0.5 and "U" not in d else "(%s, (%s))" % (x, ", ".join("(%s,)" % c if k % 7 == 3 else c for k, c in enumerate(used[:12])) + ", (" + ", ".join(used[12:]) + ")")
                else:
                    pre = "pub mod letters { %s } use self::letters::*; " % "".join("pub struct %s; " % c for c in used)
                    x = "(%s, fn((%s)))" % (x, ", ".join(used))
            own = what == "type's own name"
            name = n if own else "Def"
            item = d.replace("$D", DER_ + "pub struct " + name).replace("$E", DER_ + "pub enum " + name)
            if own:
                item = item.replace("Vec<L>", "Vec<u8>")
            l = "r#" + n if r.random() < raw else n
            sub = lambda s: __import__("re").sub(r"\bL\b", l, s)
            item = pre + sub(items) + " " + sub(item).replace("X", x, 1) if "X" in d else pre + sub(items) + " " + sub(item)
            i = first + len(out)
            t = "crate::d%d::%s<%s>" % (i, name, pe(0))
            to = "crate::d%d::%s<%s>" % (i, name, pe(3))
            pr = []
            for tr in ("FuncMap", "TryFuncMap"):
                b = "::vmon::funcmap::%s<%s, %s" % (tr, pe(0), pe(3))
                pr += [("%s as %s: %s" % (n, what, tr), True, t, b + ">"), ("%s as %s: %s, output" % (n, what, tr), True, t, "%s, Output = %s>" % (b, to))]
            out.append(HandDef(i, item, pr, tag="names:%s:%s" % (n, what.replace(" ", "_"))))
    return out


DER_ = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] "
