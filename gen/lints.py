"""Warnings that a definition causes only if the derives are there."""

import re

from rgen import *
from hostile import Hostile
from probes import bare_module

# definitions that touch on lints, in their own words
HAND = [
    "#[derive(D)] pub struct t<x>(pub x);",
    "#[derive(D)] pub struct CamelT<a_b, const n: usize> { pub CamelField: a_b, pub Arr: [a_b; n] }",
    "#[derive(D)] pub enum bad_case<T> { lower_case(T), UPPER_CASE { Field: T }, Unit_ }",
    "#[deprecated] #[derive(D)] pub struct Dep<T>(pub T);",
    "#[deprecated(note = \"no\")] #[derive(D)] pub enum DepE<T> { A(T), B }",
    "#[derive(D)] pub enum DepV<T> { #[deprecated] A(T), #[deprecated] B { a: T }, C }",
    "#[derive(D)] pub struct DepF<T> { #[deprecated] pub a: T, pub b: u8 }",
    "#[derive(D)] pub struct DepTF<T>(#[deprecated] pub T, #[deprecated] pub u8);",
    "#[deprecated] pub struct Old<T>(pub T); #[derive(D)] pub struct UseOld<T>(#[allow(deprecated)] pub Option<T>, #[allow(deprecated)] pub Old<u8>);",
    "#[deprecated] #[derive(D)] pub struct Old<T>(pub T); #[allow(deprecated)] #[derive(D)] pub struct UseOld<T>(pub Old<T>, pub Vec<Old<Vec<T>>>);",
    "#[deprecated] pub trait OldTr {} impl<X> OldTr for X {} #[allow(deprecated)] #[derive(D)] pub struct Bounded<T: OldTr>(pub T) where Vec<T>: OldTr;",
    "#[deprecated] pub const N: usize = 2; #[allow(deprecated)] #[derive(D)] pub struct Len<T>(pub [T; N], pub [u8; N]);",
    "#[deprecated] pub type Al<T> = Vec<T>; #[allow(deprecated)] #[derive(D)] pub struct Ali<T>(pub Al<T>, pub Al<u8>);",
    "#[derive(D)] pub struct Dr<T>(pub T) where T: Drop;",
    "#[derive(D)] pub struct Dr2<T: Drop>(pub T);",
    "#[derive(D)] pub struct Dr3<T, U: Drop>(pub T, pub U);",
    "#[derive(D)] pub struct Dd<T>(pub T, pub Box<dyn Drop>);",
    "#[derive(D)] pub struct Dd2<T>(pub T) where for<'a> &'a dyn Drop: Copy;",
    "#[derive(D)] pub struct Tb<T>(pub T) where u8: Copy, Vec<u8>: Clone, i32: Into<i32>;",
    "#[derive(D)] pub struct Par<T>((T), pub Vec<(T)>, pub (Option<(T)>)) where (T): Clone;",
    "#[derive(D)] pub struct Q<T>(pub std::option::Option<T>, pub std::vec::Vec<T>, pub std::primitive::u8);",
    "#[derive(D)] pub struct ParF<T>(#[allow(unused_parens)] pub Vec<(T)>, #[allow(unused_parens)] pub Box<(u8)>);",
    "#[derive(D)] pub struct FldAllow<T>(#[allow(unused_qualifications, elided_lifetimes_in_paths, bare_trait_objects, dyn_drop, dead_code)] pub std::option::Option<T>, #[allow(dyn_drop)] pub Box<dyn Drop>, #[allow(dead_code)] T);",
    "pub mod m { pub struct X; } use self::m::X; #[derive(D)] pub struct Q2<T>(pub T, pub self::m::X, pub Option<m::X>);",
    "#[derive(D)] pub struct L<'a, T>(pub &'a u8, pub T);",
    "#[derive(D)] pub struct L2<'a, T: 'a>(pub &'a u8, pub T);",
    "#[derive(D)] pub struct L3<'a, 'b: 'a, T, U: 'a>(pub &'a &'b u8, pub T, pub &'a U);",
    "#[derive(D)] pub struct L4<'a, T>(pub std::borrow::Cow<'a, str>, pub T) where T: 'a, 'a: 'a;",
    "#[derive(D)] pub struct L5<'long_name, T>(pub Vec<T>, pub &'long_name str);",
    "#[derive(D)] pub struct L6<'a, T>(pub T, pub std::marker::PhantomData<fn(&'a u8) -> &'a u8>);",
    "#[derive(D)] pub struct Hr<T>(pub T, pub Box<dyn for<'x> Fn(&'x u8) -> &'x u8>) where for<'x> &'x T: Sized;",
    "mod private { #[derive(D)] pub(super) struct P<T>(pub T); pub struct Hidden; pub trait Tr {} impl<X> Tr for X {} } #[derive(D)] pub struct Pub<T>(private::P<T>, private::Hidden);",
    "mod private { pub(super) struct Hidden; pub(super) trait Tr {} impl<X> Tr for X {} } #[allow(private_bounds)] #[derive(D)] pub struct Pub2<T: private::Tr>(T, private::Hidden);",
    "struct Secret; trait SecretTr {} impl<X> SecretTr for X {} #[allow(private_bounds)] #[derive(D)] pub struct Pub3<T>(T, Secret) where T: SecretTr, Vec<T>: SecretTr;",
    "#[allow(dead_code)] #[derive(D)] struct Unused<T>(T, u8);",
    "#[allow(dead_code)] #[derive(D)] enum UnusedE<T> { A(T), B { x: u8, y: T }, C }",
    "#[derive(D)] pub struct Uninh<T>(pub T, pub std::convert::Infallible);",
    "pub enum Never {} #[derive(D)] pub enum UninhE<T> { A(T, Never), B(T), C { n: Never, t: T } }",
    "pub enum Never {} #[derive(D)] pub enum UninhAll<T> { A(T, Never) }",
    "#[derive(D)] pub struct Unit<T>(pub (), pub T, pub [T; 0], pub ((), T));",
    "#[derive(D)] pub struct Empty<T> { pub p: std::marker::PhantomData<T> }",
    "#[derive(D)] pub enum Mixed<T> { Small(T), Big([u64; 200], T), None }",
    "#[must_use] #[derive(D)] pub struct Must<T>(pub T); #[derive(D)] pub struct Musts<T>(pub Must<T>, pub Vec<Must<T>>);",
    "#[non_exhaustive] #[derive(D)] pub enum NonEx<T> { A(T), #[non_exhaustive] B { t: T } }",
    "#[repr(C, packed)] #[derive(D)] pub struct Packed<T>(pub u8, pub T, pub [T; 2]);",
    "#[repr(C, packed(2))] #[derive(D)] pub struct Packed2<T> { pub a: u8, pub t: T }",
    "#[repr(u8)] #[derive(D)] pub enum Rep<T> { A(T) = 3, B = 7 }",
    "#[derive(D)] pub struct \u00c4<\u00d6>(pub \u00d6);",
    "#[derive(D)] pub struct Ascii<T> { pub \u00fcber: T, pub \u03b1: Vec<T> }",
    "#[derive(D)] pub struct Raw<T> { pub r#fn: T, pub r#gen: T, pub r#async: T, pub r#x: T }",
    "#[derive(D)] pub struct Und<T> { pub _a: T, pub __: T, pub a__b: T, pub aB: T }",
    "#[derive(D)] pub struct Cst<T, const lower: usize, const UP: bool>(pub [T; lower]);",
    "#[derive(D)] pub struct Brc<T, const N: usize>(pub [T; { N }], pub Option<[u8; { 3 }]>);",
    "pub struct W<T, const N: usize>(pub [T; N]); #[derive(D)] pub struct Brc2<T, U, const N: usize>(pub T, pub W<u8, { N }>, pub W<u8, { 3 }>, pub U);",
    "#[derive(D)] pub struct Bx<T>(pub Box<Vec<T>>, pub Vec<Box<T>>, pub Option<Option<T>>, pub std::rc::Rc<u8>, pub Box<&'static str>);",
    "#[derive(D)] pub struct Cmplx<T>(pub Vec<Option<Result<(T, Vec<T>), Box<dyn Fn(u8) -> Vec<Option<u8>>>>>>);",
    "#[derive(D)] pub struct Ptr<T>(pub T, pub *const u8, pub *mut [u8], pub fn(u8), pub unsafe extern \"C\" fn(u8));",
    "#[derive(D)] pub struct Cellish<T>(pub std::cell::Cell<T>, pub std::cell::RefCell<Vec<T>>, pub std::cell::UnsafeCell<T>);",
    "#[derive(D)] pub struct Maybe<T: ?Sized>(pub u8, pub Box<T>);",
    "#[derive(D)] pub struct Wide<T, U: Clone + Clone, V>(pub T, pub U, pub V) where U: Clone, V: Clone + Send, Vec<V>: Clone;",
    "#[derive(D)] pub struct Dfl<T = u8, U = Vec<u8>, const N: usize = 3>(pub T, pub U, pub [u8; N]);",
    "#[derive(D)] pub struct WithIo<T>(pub Vec<T>, pub std::io::Result<u8>);",
    "#[derive(D)] pub struct Proj<T>(pub Vec<T>, pub <Vec<u8> as IntoIterator>::Item);",
    "#[derive(D)] pub struct Itr<T, I: Iterator<Item = u8>>(pub T, pub I, pub I::Item, pub <I as Iterator>::Item);",
    "#[derive(D)] #[funcmap(params(T))] pub struct Prm<T, U>(pub T, pub U, pub fn(U));",
    "#[derive(D)] #[funcmap(params(T))] #[funcmap(params(U))] pub struct Prm2<T, U>(pub T, pub U);",
    "#[doc(hidden)] #[derive(D)] pub struct Hid<T>(#[doc(hidden)] pub T);",
    "/// doc\n    #[derive(D)] pub struct Doc<T> { /// doc\n    pub a: T }",
    "#[derive(D)] pub struct NoDoc<T> { pub a: T, b: u8 }",
    "#[cold] pub fn c() {} #[derive(D)] pub struct AfterFn<T>(pub T);",
    "pub fn inner() { #[allow(dead_code)] #[derive(D)] struct InFn<T>(T, Vec<T>); }",
    "#[derive(D)] pub struct Lots<A, B, C, E, F, G, H>(pub A, pub B, pub C, pub E, pub F, pub G, pub H);",
    "#[derive(D)] #[allow(unused_lifetimes, single_use_lifetimes)] pub struct Lt<'a, 'b, T: Fn(&'a u8)>(pub T, pub &'a u8, pub &'b u8);",
    "#[derive(D)] pub struct Atr<#[cfg(all())] T, #[allow(non_upper_case_globals)] const n: usize>(pub [T; n]);",
    "#[derive(D)] pub struct AtrW<T>(pub T) where T: Sized, Vec<T>: Sized;",
    "#[derive(D)] pub struct Ptr2<T>(pub std::marker::PhantomData<*const T>, pub std::marker::PhantomData<T>) where T: Sized;" if False else "#[derive(D)] pub struct Ph<T>(pub std::marker::PhantomData<T>);",
]
OLD = [   # editions 2015 and 2018
    "#[derive(D)] pub struct Bare<T>(pub T, pub Box<Fn(u8) -> u8>, pub std::marker::PhantomData<Send>);",
    "#[derive(D)] pub struct BareW<T>(pub T) where Box<Send>: Sized, T: Into<Box<Fn(u8)>>;",
    "#[derive(D)] pub struct BareB<T: Into<Box<Send>>, U: Into<Box<Fn(u8)>>>(pub T, pub U);",
]
ROOT = [   # edition 2015: :: is the crate's root
    "#[derive(D)] pub struct Root<T>(pub T, pub ::Top, pub Vec<::Top>) where ::Top: Sized;",
    "#[derive(D)] pub struct Root2<T>(pub ::Gen<T>, pub Vec<::Gen<T>>);",
    "#[derive(D)] pub struct Root3<T: ::TopTr, U: ::TopTr>(pub T, pub U) where ::Gen<T>: ::TopTr;",
]
BOTH = "::funcmap::FuncMap, ::funcmap::TryFuncMap"


class Text:
    """A written-out definition, for lint comparison."""

    def __init__(self, idx, text):
        self.idx, self.text = idx, text

    def label(self):
        return re.search(r"derive\(D\)\].*?(?:struct|enum) (\w+)", self.text, re.S).group(1)

    def module(self, with_):
        return "pub mod l%d {\n    %s\n}\n" % (self.idx, self.text.replace("#[derive(D)]", "#[derive(%s)]" % BOTH))


class FromDef:
    def __init__(self, d):
        self.d, self.idx = d, d.idx

    def label(self):
        return "generated"

    def module(self, with_):
        return bare_module(self.d).replace("#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals, unused_parens)]", "")


def strip(text):
    """The same without the derives, line by line."""
    text = re.sub(r"\bderive\((?=[^()]*FuncMap)[^()]*\)", "derive()", text)
    return re.sub(r"#\[funcmap\([^\]]*\)\]", "", text)


def lint_program(items, edition, attrs, on):
    out = attrs + "\nextern crate alloc;\nextern crate funcmap;\nextern crate vmon;\npub struct Top;\npub trait TopTr {}\nimpl<X> TopTr for X {}\n#[derive(%s)]\npub struct Gen<T>(pub T);\n" % BOTH
    ranges = []
    for it in items:
        a = out.count("\n") + 1
        t = it.module(on)
        out += t if on else strip(t)
        ranges.append((a, out.count("\n"), it))
    return out + "pub fn main() {}\n", ranges
