"""Definitions written out, for cases a grammar does not reach."""

from probes import *

FM = "::vmon::funcmap::FuncMap"
TF = "::vmon::funcmap::TryFuncMap"
DER = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] "


def mk(i):
    return "::vmon::funcmap::TypeParam<%d>" % i


# field types that the crate does not promise to map: whatever it does with
# them, the derived implementation exists exactly if the field's does
FIELDS = {
    "::std::rc::Rc<%s>": "rc", "::std::sync::Arc<%s>": "arc", "::std::sync::Mutex<%s>": "mutex", "::std::sync::RwLock<%s>": "rwlock",
    "::std::rc::Weak<%s>": "weak", "::std::cell::OnceCell<%s>": "oncecell", "::std::sync::OnceLock<%s>": "oncelock",
    "::std::ptr::NonNull<%s>": "nonnull", "::std::mem::ManuallyDrop<%s>": "manuallydrop", "::std::mem::MaybeUninit<%s>": "maybeuninit",
    "::std::num::Wrapping<%s>": "wrapping", "::std::cmp::Reverse<%s>": "reverse", "::std::pin::Pin<::std::boxed::Box<%s>>": "pin",
    "::std::iter::Once<%s>": "once", "::std::iter::Empty<%s>": "empty", "::std::iter::Repeat<%s>": "repeat",
    "::std::slice::Iter<'static, %s>": "sliceiter", "::std::array::IntoIter<%s, 2>": "arrayiter", "::std::sync::mpsc::Sender<%s>": "sender",
    "::std::collections::HashMap<u8, %s, ::vmon::probe::OtherState>": "otherhash", "::std::boxed::Box<::std::rc::Rc<%s>>": "boxrc",
    "::std::vec::Vec<::vmon::probe::Opaque<%s>>": "opaque", "::std::panic::AssertUnwindSafe<%s>": "unwind", "::std::num::Saturating<%s>": "saturating",
    "::std::thread::JoinHandle<%s>": "joinhandle", "::std::task::Poll<::std::sync::Arc<%s>>": "pollarc", "::std::iter::Rev<::std::vec::IntoIter<%s>>": "rev",
}


def hand_defs(first=2):
    out = []
    i = first
    for f, n in sorted(FIELDS.items(), key=lambda x: x[1]):
        if "'static" in f:
            life, f2 = "", f
        else:
            life, f2 = "", f
        bound = ": 'static" if "'static" in f else ""
        item = DER + "pub struct D<T%s> { pub a: T, pub b: %s, pub c: u8 }" % (bound, f2 % "T")
        pr = []
        for a, b in ((0, 0), (3, 15), (15, 3)):
            for tr in (FM, TF):
                bd = "%s<%s, %s>" % (tr, pe(a), pe(b))
                fb = "%s<%s, %s, %s, Output = %s>" % (tr, pe(a), pe(b), mk(1 if n == "otherhash" else 0), f2 % pe(b))
                if n in ("boxrc", "pollarc", "opaque"):
                    inner = {"boxrc": "::std::rc::Rc<%s>", "pollarc": "::std::sync::Arc<%s>", "opaque": "::vmon::probe::Opaque<%s>"}[n]
                    e = "vmon::probe!(%s: %s<%s, %s, %s, Output = %s>)" % (inner % pe(a), tr, pe(a), pe(b), mk(0), inner % pe(b))
                elif n in ("pin", "rev"):
                    inner = {"pin": "::std::boxed::Box<%s>", "rev": "::std::vec::IntoIter<%s>"}[n]
                    e = "vmon::probe!(%s: %s<%s, %s, %s, Output = %s>)" % (f2 % pe(a), tr, inner % pe(a), inner % pe(b), mk(0), f2 % pe(b))
                else:
                    e = "vmon::probe!(%s: %s)" % (f2 % pe(a), fb)
                pr.append(("field %s: %s<%s, %s>" % (n, tr.split("::")[-1], short(pe(a)), short(pe(b))), e, "crate::d%d::D<%s>" % (i, pe(a)), bd))
        out.append(HandDef(i, item, pr))
        i += 1

    def both(what, e, t, a, b, m=0, out_=None):
        return [("%s, %s" % (what, tr.split("::")[-1]), e, t, "%s<%s, %s, %s%s>" % (tr, a, b, mk(m), ", Output = " + out_ if out_ else "")) for tr in (FM, TF)]

    def add(item, probes, fns=""):
        nonlocal i
        pr = [(w, e, t.replace("$", "crate::d%d::" % i), b.replace("$", "crate::d%d::" % i)) for (w, e, t, b) in probes]
        out.append(HandDef(i, DER + item, pr, fns.replace("$", "crate::d%d::" % i)))
        i += 1

    A, B = pe(0), pe(3)
    # unsized other parameter: behind a pointer, and in the field itself
    add("pub struct D<T, U: ?Sized> { pub a: T, pub c: ::std::boxed::Box<U>, pub d: ::std::marker::PhantomData<U> }",
        both("boxed unsized parameter", True, "$D<%s, str>" % A, A, B) + both("boxed slice parameter", True, "$D<%s, [u8]>" % A, A, B, 0, "$D<%s, [u8]>" % B) +
        both("boxed sized parameter", True, "$D<%s, u8>" % A, A, B) + both("mapping the boxed parameter", True, "$D<u8, %s>" % A, A, B, 1) +
        both("boxed dyn parameter", True, "$D<%s, dyn Fn(u8) -> u8>" % A, A, B))
    add("pub struct D<T, U: ?Sized> { pub a: T, pub u: U }",
        both("unsized field", False, "$D<%s, str>" % A, A, B) + both("sized field", True, "$D<%s, u8>" % A, A, B) +
        both("unsized slice field", False, "$D<%s, [u8]>" % A, A, B) + both("over the field", True, "$D<u8, %s>" % A, A, B, 1))
    add("pub struct D<T, U>(pub T, pub U) where U: ?Sized;",
        both("unsized field by where", False, "$D<%s, str>" % A, A, B) + both("sized field by where", True, "$D<%s, u8>" % A, A, B) +
        both("over the field by where", True, "$D<u8, %s>" % A, A, B, 1))
    add("pub struct D<T, U: ?Sized>(pub ::std::vec::Vec<T>, pub ::vmon::probe::Tail<U>);",
        both("unsized tail", False, "$D<%s, str>" % A, A, B) + both("sized tail", True, "$D<%s, u8>" % A, A, B))
    add("pub struct D<T: ?Sized> { pub n: u8, pub c: ::std::boxed::Box<T> }",
        both("relaxed mapped parameter", True, "$D<%s>" % A, A, B))
    add("pub struct D<T> where T: ?Sized { pub n: u8, pub c: ::std::boxed::Box<T> }",
        both("relaxed mapped parameter by where", True, "$D<%s>" % A, A, B))
    add("pub struct D<T: ?Sized + ::vmon::probe::Tr0> { pub n: ::std::marker::PhantomData<T> }",
        both("relaxed and bounded", True, "$D<%s>" % pe(4), pe(4), pe(4)) + both("relaxed and bounded, target without", False, "$D<%s>" % pe(4), pe(4), pe(11)))
    add("pub struct D<T>(pub T, pub [u8]);", both("unsized last field", False, "$D<%s>" % A, A, B)) if False else None
    # never-inhabited and empty
    add("pub enum D<T> { V(T, ::std::convert::Infallible), W }", both("uninhabited variant", True, "$D<%s>" % A, A, B))
    # elements that are references, functions, borrowed, never cloned
    add("pub struct D<T>(pub T, pub ::std::vec::Vec<T>);",
        both("references", True, "$D<&'static str>", "&'static str", A) + both("functions", True, "$D<fn(u8)>", "fn(u8)", "&'static [u8]") +
        both("boxed dyn", True, "$D<::std::boxed::Box<dyn Fn()>>", "::std::boxed::Box<dyn Fn()>", "()") +
        both("unsized element", False, "$D<u8>", "u8", "u16", 1) + both("itself", True, "$D<$D<u8>>", "$D<u8>", "u8") +
        both("not Send", True, "$D<::std::rc::Rc<u8>>", "::std::rc::Rc<u8>", "*const u8"),
        """
pub fn g%(i)d_local<'x>(s: &'x str, n: &'x ::std::cell::Cell<u8>) {
    let d = $D(s, vec![s]);
    let e = ::vmon::funcmap::FuncMap::func_map(d, |t| { n.set(1); (t, n) });
    let _: ::core::result::Result<$D<&'x str>, &'x str> = ::vmon::funcmap::TryFuncMap::try_func_map(e, |(t, _)| ::core::result::Result::Err(t));
}
""".replace("%(i)d", str(i)))
    return out


def clash_defs(first, tr):
    """Fields that differ only in lifetimes; the last two are known findings."""
    out = []
    foo = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct Foo<'a, T>(pub &'a u8, pub T); "
    bar = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct Bar<'a, 'b, 'c, T>(pub &'a u8, pub &'b u8, pub &'c u8, pub T); "
    d = "#[derive(::funcmap::%s)] pub struct D<'a, 'b, T>" % tr
    for tag, item in (
            ("user_type_with_two_lifetimes", foo + d + "(pub Foo<'a, T>, pub Foo<'b, T>);"),
            ("two_results_with_references", d + "(pub ::std::result::Result<T, &'a u8>, pub ::std::result::Result<T, &'b u8>);"),
            ("two_vecs_of_pairs", d + "(pub ::std::vec::Vec<(T, &'a u8)>, pub ::std::vec::Vec<(T, &'b u8)>);"),
            ("static_and_named", d + "(pub ::std::result::Result<T, &'a u8>, pub ::std::result::Result<T, &'static u8>, pub &'b u8);"),
            ("three_ways", bar + d + "(pub Bar<'a, 'b, 'a, T>, pub Bar<'b, 'a, 'b, T>, pub Bar<'a, 'static, 'a, T>, pub ::std::vec::Vec<Bar<'a, 'a, 'a, T>>);"),
            ("names_in_use", bar + "#[derive(::funcmap::%s)] pub struct D<'funcmap_0, 'funcmap_1, T>(pub Bar<'funcmap_0, 'funcmap_1, 'static, T>, pub Bar<'static, 'funcmap_1, 'funcmap_0, T>);" % tr),
            ("with_binders", d + "(pub ::std::result::Result<T, ::std::boxed::Box<dyn for<'x> Fn(&'x u8, &'a u8) -> &'x u8>>, "
             "pub ::std::result::Result<T, ::std::boxed::Box<dyn for<'x> Fn(&'x u8, &'b u8) -> &'x u8>>, pub ::std::vec::Vec<(T, fn(&u8) -> &u8, ::vmon::probe::Pe<1>, &'a u8)>, "
             "pub ::std::vec::Vec<(T, fn(&u8) -> &u8, ::vmon::probe::Pe<1>, &'b u8)>);"),
            ("unmapped_projections", "pub trait Tr<'x> { type P; } impl<'x> Tr<'x> for u8 { type P = &'x u8; } #[derive(::funcmap::%s)] #[funcmap(params(T))] "
             "pub struct Q<'a, 'b, T, U: for<'x> Tr<'x>>(pub T, pub <U as Tr<'a>>::P, pub <U as Tr<'b>>::P, pub ::std::vec::Vec<<U as Tr<'b>>::P>, pub <U as Tr<'static>>::P); pub type D<'a, 'b, T> = Q<'a, 'b, T, u8>;" % tr),
            ("unmapped_family", "pub trait Ga { type G<'x> where Self: 'x; } impl Ga for u8 { type G<'x> = &'x u8; } #[derive(::funcmap::%s)] #[funcmap(params(T))] "
             "pub enum Q<'a, 'b, T, U: Ga + 'a + 'b> { V(T, U::G<'a>), W(U::G<'b>, T, (U::G<'a>, u8), (U::G<'b>, u8)) } pub type D<'a, 'b, T> = Q<'a, 'b, T, u8>;" % tr),
            ("user_type_in_bounds_of_the_definition", foo + d + "(pub Foo<'a, T>, pub Foo<'b, T>) where Foo<'a, T>: Sized, for<'x> ::std::vec::Vec<Foo<'x, T>>: Sized;"),
            ("written_in_two_ways", d + "(pub ::std::result::Result<T, &'a u8>, pub ::core::result::Result<T, &'b u8>);"),
            ("an_alias", "pub type Al<T> = ::std::result::Result<T, &'static u8>; " + d + "(pub ::std::result::Result<T, &'a u8>, pub Al<T>, pub &'b u8);")):
        i = first + len(out)
        b = "::vmon::funcmap::%s<%s, %s>" % (tr, pe(0), pe(3))
        out.append(HandDef(i, item, [("fields differing in lifetimes: " + tag, True, "crate::d%d::D<'static, 'static, %s>" % (i, pe(0)), b)], tag="lifetimes:" + tag))
    for tag, item in (
            ("pointer_to_function", d.replace("'a, 'b, ", "") + "(pub T, pub *const fn(), pub &'static fn(u8), pub *mut *const unsafe extern \"C\" fn(), pub fn());"),
            ("pointer_to_function_by_macro", "macro_rules! mk { ($t:ty, $u:ty) => { #[derive(::funcmap::%s)] pub struct D<T>(pub T, pub $t, pub *const $u, pub *const $t, pub $u); } } mk! { *const fn(), fn(u8) }" % tr)):
        i = first + len(out)
        b = "::vmon::funcmap::%s<%s, %s>" % (tr, pe(0), pe(3))
        out.append(HandDef(i, item, [(tag, True, "crate::d%d::D<%s>" % (i, pe(0)), b)], tag="field:" + tag))
    return out
