"""Definitions that are not supported, with every offending place marked, and
the same constructs where they are supported."""

import os
import random
import re

from probes import HandDef, pe
from runner import *

# what cannot be mapped over: name -> (type with the parameter P and a lifetime 'a,
# what the message has to name, bounds on P, needs 'a, edition, concrete P)
BAD = {
    "ref": ("&'a {P}", "reference", "", True, None, "u8"),
    "refmut": ("&'a mut {P}", "reference", "", True, None, "u8"),
    "refvec": ("&'a Vec<{P}>", "reference", "", True, None, "u8"),
    "refslice": ("&'a [{P}]", "reference", "", True, None, "u8"),
    "reftuple": ("&'a (u8, {P})", "reference", "", True, None, "u8"),
    "refstatic": ("&'static {P}", "reference", "'static", False, None, "u8"),
    "refstaticmut": ("&'static mut Vec<{P}>", "reference", "'static", False, None, "u8"),
    "refrefstatic": ("&'a &'static {P}", "reference", "'static", True, None, "u8"),
    "refdyn": ("&'a dyn Fn({P})", "reference", "", True, None, "u8"),
    "ptr": ("*const {P}", "pointer", "", False, None, "u8"),
    "ptrptr": ("*mut *const {P}", "pointer", "", False, None, "u8"),
    "ptrmut": ("*mut Vec<{P}>", "pointer", "", False, None, "u8"),
    "fnarg": ("fn({P})", "function", "", False, None, "u8"),
    "fnret": ("fn() -> {P}", "function", "", False, None, "u8"),
    "fnboth": ("fn({P}) -> Vec<{P}>", "function", "", False, None, "u8"),
    "fnhr": ("for<'x> fn(&'x {P}) -> &'x u8", "function", "", False, None, "u8"),
    "fnextern": ("unsafe extern \"C\" fn(*const {P})", "function", "", False, None, "u8"),
    "boxslice": ("Box<[{P}]>", "slice", "", False, None, "u8"),
    "boxvecslice": ("Box<[Vec<{P}>]>", "slice", "", False, None, "u8"),
    "dynfn": ("Box<dyn Fn({P})>", "trait object", "", False, None, "u8"),
    "dynfnret": ("Box<dyn FnMut() -> {P} + Send>", "trait object", "", False, None, "u8"),
    "dyniter": ("Box<dyn Iterator<Item = {P}>>", "trait object", "", False, None, "u8"),
    "dynhr": ("Box<dyn for<'x> Fn(&'x {P}) -> u8>", "trait object", "", False, None, "u8"),
    "dynarg": ("Box<dyn AsRef<{P}> + 'a>", "trait object", "", True, None, "u8"),
    "qself": ("<{P} as IntoIterator>::Item", "associated", "IntoIterator", False, None, "Vec<u8>"),
    "qselfvec": ("<Vec<{P}> as IntoIterator>::Item", "associated", "", False, None, "u8"),
    "qselfarg": ("<u8 as crate::Tr<{P}>>::Out", "associated", "", False, None, "u8"),
    "short": ("{P}::Item", "associated", "IntoIterator", False, None, "Vec<u8>"),
    "shortiter": ("{P}::IntoIter", "associated", "IntoIterator", False, None, "Vec<u8>"),
    "phantomfn": ("std::marker::PhantomData<fn({P})>", "function", "", False, None, "u8"),
    "optfn": ("Option<fn({P}) -> u8>", "function", "", False, None, "u8"),
    "parenfn": ("(fn({P}))", "function", "", False, None, "u8"),
    "macrovec": ("Vec<crate::id!({P})>", "type macro", "", False, None, "u8"),
    "macroopt": ("Option<(u8, crate::id!(Vec<{P}>))>", "type macro", "", False, None, "u8"),
    "macrofn": ("Option<fn(crate::id!([{P}; 2])) -> u8>", "type macro|function", "", False, None, "u8"),
    "macroref": ("Vec<&'a crate::id!(({P}))>", "type macro|reference", "", True, None, "u8"),
    "macroarg": ("Result<{P}, crate::id!({P})>", "type macro", "", False, None, "u8"),
}
MACRO = ("crate::id!({P})", "type macro")
# around a type X
WRAP = ["{X}", "{X}", "{X}", "Vec<{X}>", "Option<{X}>", "[{X}; 2]", "(u8, {X})", "({X},)", "(({X}), u8)", "Result<u8, {X}>", "Vec<Option<{X}>>", "crate::Pair<u8, {X}>",
        "std::marker::PhantomData<{X}>", "[({X}, u8); N_]"]
GOOD = ["{P}", "Vec<{P}>", "Option<[{P}; 2]>", "({P}, u8)", "std::marker::PhantomData<{P}>", "Result<{P}, u8>", "Box<{P}>"]
NEUTRAL = ["u8", "String", "&'static str", "Vec<fn(u8)>", "Box<dyn Fn(u8)>", "*const u8", "<Vec<u8> as IntoIterator>::Item", "Box<[u8]>", "Vec<crate::id!(u8)>", "*const fn()", "&'static *mut fn(u8)", "&'static fn()"]

EXPECT_PARENS = "parenthes|argument"
# malformed options: text, message
OPTS1 = [
    ("#[funcmap]", EXPECT_PARENS), ("#[funcmap()]", "at least one argument"), ("#[funcmap = \"x\"]", EXPECT_PARENS), ("#[funcmap(foo)]", "expected one of"),
    ("#[funcmap(foo = 1)]", "expected one of"), ("#[funcmap(\"x\")]", "expected one of"), ("#[funcmap(param({P}))]", "expected one of"), ("#[funcmap({P})]", "expected one of"),
    ("#[funcmap(params)]", "parenthes"), ("#[funcmap(params = \"{P}\")]", "parenthes"), ("#[funcmap(params[{P}])]", "parenthes"), ("#[funcmap(params())]", "name of generic"),
    ("#[funcmap(params(1))]", "name of generic"), ("#[funcmap(params(\"{P}\"))]", "name of generic"), ("#[funcmap(params({P}, 2))]", "name of generic"),
    ("#[funcmap(params({P}, fn))]", "name of generic"), ("#[funcmap(params(crate))]", "name of generic"), ("#[funcmap(params({P} U0))]", "expected `,`"),
    ("#[funcmap(params({P}::X))]", "expected `,`"), ("#[funcmap(params(..))]", "name of generic"), ("#[funcmap(params(*))]", "name of generic"), ("#[funcmap(params(,))]", "name of generic"),
    ("#[funcmap(crate)]", "expected `=`"), ("#[funcmap(crate(\"funcmap\"))]", "expected `=`"), ("#[funcmap(crate = 1)]", "string literal"), ("#[funcmap(crate = funcmap)]", "string literal"),
    ("#[funcmap(crate = )]", "string literal"), ("#[funcmap(crate = \"\")]", "path"), ("#[funcmap(crate = \"1a\")]", "path"), ("#[funcmap(crate = \"a::\")]", "path"),
    ("#[funcmap(crate = \"a b\")]", "path"), ("#[funcmap(crate = \"a-b\")]", "path"), ("#[funcmap(crate = \"::\")]", "path"), ("#[funcmap(crate = \"fn\")]", "path"), ("#[funcmap(crate = b\"funcmap\")]", "string literal"),
    ("#[funcmap(params({P}) crate = \"funcmap\")]", "expected `,`"), ("#[funcmap(params({P}),, )]", "expected one of"), ("#[funcmap(Params({P}))]", "expected one of"),
    ("#[funcmap(crates = \"funcmap\")]", "expected one of"), ("#[funcmap(skip)]", "expected one of"), ("#[funcmap(crate = \"&\")]", "path"), ("#[funcmap(crate = \"\\\"\")]", "path"), ("#[funcmap(crate = \"(\")]", "path"), ("#[funcmap(crate = \"a /*\")]", "path"), ("#[funcmap(crate = r#\"a \"b\"#)]", "path"), ("#[funcmap(r#params({P}))]", "expected one of|name"),
]
MISPLACED = ["#[funcmap]", "#[funcmap()]", "#[funcmap(skip)]", "#[funcmap(params({P}))]", "#[funcmap(crate = \"::funcmap\")]", "#[funcmap = \"x\"]"]


class Neg:
    """One definition: its lines, and the places that offend."""

    def __init__(self, idx, r, edition, trait):
        self.idx, self.r, self.edition, self.trait = idx, r, edition, trait
        self.lines = []
        self.places = []     # (first line, last line, message, stage, what)
        self.build()

    def put(self, text):
        self.lines.append(text)
        return len(self.lines)

    def bad(self, a, b, rx, stage, what):
        self.places.append((a, b, rx, stage, what))

    def attr(self, text, rx=None, stage=1, what=""):
        """An attribute, now and then spread over several lines."""
        if rx is None or self.r.random() < 0.7:
            n = self.put(text)
            if rx:
                self.bad(n, n, rx, stage, what)
            return
        a = self.put("#[")
        self.put(text[2:-1])
        b = self.put("]")
        self.bad(a, b, rx, stage, what)

    def build(self):
        r = self.r
        ntypes = r.choice([0, 1, 1, 2, 2, 3])
        types = r.sample(["T", "U", "V", "r#type"], ntypes)
        life = r.random() < 0.6
        consts = ["N"] if r.random() < 0.3 else []
        union = r.random() < 0.06 and ntypes > 0
        # how many things of each kind go wrong
        mood = r.choice(["opts", "input", "fields", "fields", "fields", "any", "any"])
        listed = None
        ser = {"union": union}
        self.put("#[derive(%s)]" % self.trait)
        p = r.choice(types) if types else "X"
        # options
        params, crate_seen = [], False
        if r.random() < (0.5 if mood != "fields" else 0.35):
            cand = list(types)
            k = r.randint(1, max(1, len(cand))) if cand else 0
            params = r.sample(cand, k) if cand else []
        entries = [[x if r.random() < 0.85 or x == "r#type" else "r#" + x, None, 0, ""] for x in params]
        if mood in ("input", "any") and r.random() < 0.6:
            for kind in r.sample(["life", "const", "unknown", "unknownlife"], r.randint(1, 2)):
                if kind == "life" and life:
                    entries.append(["'a", "lifetime", 2, "lifetime in params"])
                elif kind == "const" and consts:
                    entries.append(["N", "const", 2, "const in params"])
                elif kind == "unknown":
                    entries.append([r.choice(["X", "D%d" % self.idx, "u8", "t", "TT", "T_", "_T", "v"]), "unknown", 2, "unknown parameter"])
                elif kind == "unknownlife":
                    entries.append([r.choice(["'b", "'static"]), "unknown", 2, "unknown lifetime"])
            r.shuffle(entries)
        if mood in ("opts", "any") and entries and r.random() < 0.5:
            for e in r.sample(entries, r.randint(1, min(2, len(entries)))):
                # a second time, later
                k = r.randint(entries.index(e) + 1, len(entries))
                e = [e[0].replace("r#", "") if e[0] != "r#type" else e[0]] + e[1:]
                entries.insert(k, [r.choice([e[0], "r#" + e[0]]) if e[0] in types and e[0] != "r#type" else e[0], "duplicate param", 1, "duplicate parameter"])
        attrs = []
        if entries:
            # spread over attributes and arguments
            groups = [[]]
            for e in entries:
                if groups[-1] and r.random() < 0.4:
                    groups.append([])
                groups[-1].append(e)
            arglists = [[]]
            for g in groups:
                if arglists[-1] and r.random() < 0.5:
                    arglists.append([])
                arglists[-1].append(("params", g))
            attrs += [("args", a) for a in arglists]
        ncrate = 1 if r.random() < 0.25 else 0
        if mood in ("opts", "any") and r.random() < 0.25:
            ncrate += r.randint(1, 2)
        for _ in range(ncrate):
            path = r.choice(["::funcmap", "funcmap", "self::fm"] if self.edition != "2015" else ["::funcmap", "self::fm"])
            if attrs and r.random() < 0.5:
                k = r.randrange(len(attrs))
                attrs[k][1].append(("crate", path))
            else:
                attrs.append(("args", [("crate", path)]))
        if mood in ("opts", "any") and r.random() < (0.9 if mood == "opts" else 0.3):
            for _ in range(r.randint(1, 3)):
                attrs.insert(r.randint(0, len(attrs)), ("raw", r.choice(OPTS1)))
        # (which of two equal parameters is the second is decided by their order)
        crate_seen = False
        for kind, x in attrs:
            if kind == "raw":
                self.attr(x[0].replace("{P}", p), x[1], 1, "option " + x[0])
                continue
            one = r.random() < 0.4 and not any(e[1] for k, g in x if k == "params" for e in g) and not (sum(k == "crate" for k, _ in x) and ncrate > 1)
            if one:
                t = ", ".join("params(%s)" % ", ".join(e[0] for e in g) if k == "params" else 'crate = "%s"' % g for k, g in x)
                self.attr("#[funcmap(%s%s)]" % (t, r.choice(["", ","])))
                crate_seen |= any(k == "crate" for k, _ in x)
                continue
            self.put("#[funcmap(")
            for k, g in x:
                if k == "crate":
                    n = self.put('crate = "%s",' % g)
                    if crate_seen:
                        self.bad(n, n, "duplicate crate", 1, "duplicate crate path")
                    crate_seen = True
                else:
                    self.put("params(")
                    for e in g:
                        n = self.put(e[0] + ",")
                        if e[1]:
                            self.bad(n, n, e[1], e[2], e[3])
                    self.put("),")
            self.put(")]")
        good_types = [x for x in types if any(e[0] in (x, "r#" + x) and not e[1] for e in entries)]
        mapped = good_types or types
        # the fields, so that it is known which parameters need what
        kind = "union" if union else r.choice(["named", "named", "tuple", "enum", "enum", "enum"])
        bounds = {t: set() for t in types}
        nv = r.randint(1, 4) if kind == "enum" else 1
        variants = []
        used_life = False
        for v in range(nv):
            style = r.choice(["named", "tuple", "unit"]) if kind == "enum" else "named" if union else kind
            fs = []
            for _ in range(0 if style == "unit" else r.randint(1, 5)):
                x = r.random()
                q = r.choice(types) if types else None
                bads = []
                if x < (0.45 if mood in ("fields", "any") else 0.15) and q and not union:
                    if r.random() < 0.12:
                        t, rx, what = MACRO[0].format(P=r.choice([q, "u8"])), MACRO[1], "macro"
                        w = "{X}"
                        if q in mapped and r.random() < 0.3:
                            # one of a tuple that has to be taken apart
                            w = "(%s, {X})" % q
                        bads = [(rx, "type macro")]
                        t = w.replace("{X}", t)
                        if not mapped:
                            bads = []
                    else:
                        name = r.choice(sorted(BAD))
                        f, rx, bd, nl, ed, conc = BAD[name]
                        if ed and ed != self.edition or nl and not life:
                            continue
                        t = r.choice(WRAP if name not in ("parenfn",) else ["{X}"]).replace("{X}", f.replace("{P}", q)).replace("N_", "3")
                        if bd:
                            bounds[q].add(bd)
                        if q in mapped:
                            bads = [(rx, name)]
                elif x < 0.75 and q:
                    t = r.choice(GOOD).replace("{P}", q)
                else:
                    t = r.choice(NEUTRAL)
                if union:
                    t = "std::mem::ManuallyDrop<%s>" % t
                elif mood in ("input", "any") and r.random() < 0.12:
                    # an attribute on a field hides what else is wrong with it, for the time being
                    fs.append((t, [r.choice(MISPLACED).replace("{P}", p) for _ in range(r.choice([1, 1, 2, 3]))], bads))
                    continue
                fs.append((t, None, bads))
            variants.append((style, fs))
        # (a type parameter has to be used)
        tail = ["std::marker::PhantomData<%s>" % t for t in types]
        if life:
            tail.append("std::marker::PhantomData<&'a ()>")
        if union:
            tail = ["std::mem::ManuallyDrop<%s>" % t for t in tail]
        # header
        self.generics_and_name(kind, types, life, consts, bounds, mood, p)
        if kind == "enum":
            for v, (style, fs) in enumerate(variants):
                if mood in ("input", "any") and r.random() < 0.15:
                    for _ in range(r.choice([1, 1, 2])):
                        self.attr(r.choice(MISPLACED).replace("{P}", p), "not supported.*variants", 2, "attribute on a variant")
                self.put("V%d%s" % (v, {"named": " {", "tuple": "(", "unit": ","}[style]))
                self.fields(style, fs)
                if style != "unit":
                    self.put("}," if style == "named" else "),")
            self.put("Tail(")
            self.fields("tuple", [(t, None, []) for t in tail])
            self.put("),")
            self.put("}")
        elif kind == "tuple":
            self.fields("tuple", variants[0][1] + [(t, None, []) for t in tail])
            self.put(");")
        else:
            self.fields("named", variants[0][1] + [(t, None, []) for t in tail], union)
            self.put("}")

    def generics_and_name(self, kind, types, life, consts, bounds, mood, p):
        r = self.r
        kw = {"enum": "enum", "union": "union"}.get(kind, "struct")
        a = self.put("pub %s" % kw)
        if kind == "union":
            self.bad(a, a, "union", 2, "union")
        name = self.put("D%d" % self.idx)
        gs = [("'a", "")] if life else []
        order = [(t, "") for t in types] + [(c, "c") for c in consts]
        r.shuffle(order)
        gs += order
        first = last = None
        if gs:
            first = self.put("<")
            for g, k in gs:
                if mood in ("input", "any") and r.random() < 0.08:
                    for _ in range(r.choice([1, 1, 2])):
                        self.attr(r.choice(MISPLACED).replace("{P}", p), "not supported.*generic parameters", 2, "attribute on a parameter")
                bd = bounds.get(g) or set()
                self.put(("const %s: usize" % g if k else g + (": " + " + ".join(sorted(bd)) if bd else "")) + ",")
            last = self.put(">")
        if not types:
            self.bad(first or name, last or name, "type parameter", 2, "no type parameter")
        self.put("(" if kind == "tuple" else "{")

    def fields(self, style, fs, union=False):
        r = self.r
        for i, (t, attr, bads) in enumerate(fs):
            for attr in attr or []:
                if r.random() < 0.15:
                    self.put(r.choice(["/// text", "#[allow(unused)]", "#[cfg(all())]"]))
                self.attr(attr, None if union else "not supported.*fields", 2, "attribute on a field")
            if style == "named":
                self.put("pub f%d:" % i if style == "named" and not getattr(self, "in_enum", False) else "f%d:" % i)
            n = self.put(t + ",")
            for rx, what in bads:
                self.bad(n, n, rx, 3, what)

    def text(self):
        # enum fields bear no visibility
        ls = list(self.lines)
        if any(l == "pub enum" for l in ls):
            ls = [re.sub(r"^pub (f\d+:)$", r"\1", l) for l in ls]
        return ls


HEAD = """#![allow(dead_code, unused, bare_trait_objects)]
extern crate funcmap; extern crate core;
#[macro_export] macro_rules! id { ($t:ty) => { $t } }
#[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct Pair<A, B>(pub A, pub B);
pub trait Tr<X> { type Out; }
impl<X> Tr<X> for u8 { type Out = u16; }
"""


def neg_program(defs):
    """The text and for each definition its first line."""
    out = HEAD.rstrip("\n").split("\n")
    at = {}
    for d in defs:
        out.append("pub mod d%d { use funcmap::{FuncMap, TryFuncMap}; use funcmap as fm;" % d.idx)
        at[d.idx] = len(out)
        out += d.text()
        out.append("}")
    out.append("fn main() {}")
    return "\n".join(out) + "\n", at


def neg_monitor(c, vm, n, per, salt):
    jobs = []
    for i in range(n):
        r = random.Random(c.seed * 100003 + salt * 1009 + i)
        ed = ["2021", "2018", "2015", "2024"][i % 4]
        defs = []
        while len(defs) < per:
            d = Neg(len(defs) + 1, r, ed, r.choice(["FuncMap", "TryFuncMap", "FuncMap", "TryFuncMap", "FuncMap, TryFuncMap"]))
            if d.places:
                defs.append(d)
        jobs.append((i, ed, defs))

    def go(job):
        i, ed, defs = job
        d = os.path.join(c.dir, "neg%d" % i)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "main.rs")
        text, at = neg_program(defs)
        with open(src, "w") as f:
            f.write(text)
        rc, diags, err = vm.rustc(src, os.path.join(d, "prog"), ed, ["-Awarnings"], ("funcmap",))
        if rc is None:
            raise EnvError("rustc timed out")
        return ed, defs, text, at, errors(diags), err

    for ed, defs, text, at, errs, err in pool(JOBS, go, jobs):
        c.count("programs")
        where = []
        for e in errs:
            ls, _ = lines_of(e)
            where.append((ls[:1] or [0], e))
        for k, d in enumerate(defs):
            a = at[d.idx]
            b = a + len(d.lines)
            mine = [(ls[0] - a, e) for ls, e in where if a < ls[0] <= b]
            judge_neg(c, d, mine, ed)
        inside = {id(e) for d in defs for ls, e in where if at[d.idx] < ls[0] <= at[d.idx] + len(d.lines)}
        for ls, e in where:
            if id(e) not in inside and not code(e):
                c.violation("neg:elsewhere:" + e["message"][:60].replace(" ", "_"), "an error that points to none of the definitions (edition %s):\n%s" % (ed, e.get("rendered")), {"main.rs": text})


def code(e):
    return (e.get("code") or {}).get("code")


def judge_neg(c, d, errs, ed):
    text = "\n".join("%3d  %s" % (i + 1, l) for i, l in enumerate(d.text()))
    shown = "\n".join("line %d: %s%s" % (ln, "[%s] " % code(e) if code(e) else "", e["message"].split("\n")[0]) for ln, e in errs) or "(none)"
    files = {"main.rs": "\n".join(HEAD.rstrip("\n").split("\n") + ["pub mod d%d { use funcmap::{FuncMap, TryFuncMap}; use funcmap as fm;" % d.idx] + d.text() + ["}", "fn main() {}"])}
    own = [(ln, e) for ln, e in errs if not code(e)]
    stage = min(p[3] for p in d.places)
    with c.lock:
        c.evals += 1
        c.nontrivial += 1
    for p in d.places:
        if p[3] != stage:
            continue
        c.count("offending_places")
        c.count("stage_%d_places" % stage)
        c.count("place_" + re.sub(r"[^A-Za-z0-9]+", "_", p[4]).strip("_"))
        if any(p[0] <= ln <= p[1] and re.search(p[2], e["message"]) for ln, e in own):
            continue
        # (one error is enough for several things wrong with a single field or attribute)
        if stage == 3 and any(p[0] <= ln <= p[1] and any(q[3] == 3 and q[0] == p[0] and re.search(q[2], e["message"]) for q in d.places) for ln, e in own):
            continue
        c.violation("neg:unreported:%s" % p[4].replace(" ", "_"),
                    "derive(%s), edition %s: no error naming the problem at line %d (%s; the message should match /%s/)\n%s\n\nerrors:\n%s" % (
                        d.trait, ed, p[0], p[4], p[2], text, shown), files)
    for ln, e in own:
        c.count("errors_judged")
        if any(p[0] <= ln <= p[1] and re.search(p[2], e["message"]) for p in d.places):
            continue
        what = "panic" if "panicked" in e["message"] else "unfounded"
        c.violation("neg:%s:%s" % (what, re.sub(r"[^a-z]+", "_", e["message"].lower())[:60]),
                    "derive(%s), edition %s: an error at line %d for which there is no reason there: %s\n%s\n\nerrors:\n%s" % (
                        d.trait, ed, ln, e["message"], text, shown), files)


# ---- definitions that rustc itself rejects, or nothing else than they

def single_negatives():
    """(key, text, line, code or None, message): one error there is enough."""
    out = []
    for tr in ("FuncMap", "TryFuncMap"):
        use = "use funcmap::%s;\n" % tr
        for k, (item, ln, imp) in enumerate([
                ("#[derive(%s)]\nstruct\nD<T>(T);\n", 4, "impl<T> Drop for D<T> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\nenum\nD<T> { A, B(T) }\n", 4, "impl<T> Drop for D<T> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\n#[funcmap(params(T))]\npub struct\nD<'a, T: Clone + 'a, const N: usize, U>(pub [T; N], &'a U) where U: Clone;\n", 5,
                 "impl<'a, T: Clone + 'a, const N: usize, U> Drop for D<'a, T, N, U> where U: Clone { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\npub struct\nD<T>(pub std::marker::PhantomData<T>);\n", 4, "impl<T> Drop for D<T> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\n#[funcmap(crate = \"crate::a::b::c::d\")]\npub struct\nD<T>(pub T);\npub mod a { pub mod b { pub mod c { pub use ::funcmap as d; } } }\n", 5, "impl<T> Drop for D<T> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\n#[funcmap(crate = \"fm\", params(U, T))] use funcmap as fm;\n".replace(" use funcmap as fm;", "") + "pub enum\nD<U, T, V> { A(U), B { t: T, v: V } }\nuse funcmap as fm;\n", 5, "impl<U, T, V> Drop for D<U, T, V> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\npub struct\nD<T, U = u8, const N: usize = 3>(pub [T; N], pub U);\n", 4, "impl<T, U, const N: usize> Drop for D<T, U, N> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\npub struct\nr#D<T>(pub T);\n", 4, "impl<T> Drop for D<T> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\npub enum\nD<'a, 'b: 'a, T: 'b> { Output(&'a &'b T, std::marker::PhantomData<T>) }\n".replace("&'a &'b T", "&'a &'b u8"), 4, "impl<'a, 'b: 'a, T: 'b> Drop for D<'a, 'b, T> { fn drop(&mut self) {} }"),
                ("#[derive(%s)]\npub struct\nD<T: ?Sized>(pub u8, pub Box<T>);\n", 4, "impl<T: ?Sized> Drop for D<T> { fn drop(&mut self) {} }"),
        ]):
            out.append(("drop%d:%s" % (k, tr), use + (item % tr) + imp + "\nfn main() {}\n", ln, "E0119", "Drop"))
        for k, (item, ln) in enumerate([
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nstruct D<T>(\nVec<m!(T)>,\n);\n", 5),
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nenum D<T> {\nA(T),\nB(Option<(u8, m!(Vec<T>))>),\n}\n", 6),
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nstruct D<T> {\nx: T,\ny: [m!(T); 2],\n}\n", 6),
        ]):
            out.append(("macro%d:%s" % (k, tr), use + (item % tr) + "fn main() {}\n", ln, None, ""))
        for k, (body, arg, rx) in enumerate([
                ("struct D<'a, T: 'a>(T, $t, &'a u8);", "&'a T", "reference"), ("enum D<'a, T: 'a> { A(&'a u8), B { x: Vec<$t> } }", "fn(T)", "function"),
                ("struct D<'a, T: 'a>((u8, $t), &'a u8);", "Box<[T]>", "slice"), ("struct D<'a, T: 'a>(Option<$t>, [$t; 2], &'a u8);", "(T, *const T)", "pointer"),
                ("enum D<'a, T: 'a> { A(&'a T, $t) }", "Box<dyn Fn(T)>", "trait object"), ("struct D<'a, T: 'a>(&'a u8, $t);", "<Vec<T> as IntoIterator>::Item", "associated")]):
            out.append(("viamacro%d:%s" % (k, tr), use + "macro_rules! mk { ($t:ty) => {\n#[derive(%s)] %s\n} }\nmk! {\n%s\n}\nfn main() {}\n" % (tr, body, arg), 6, None, rx))
        # (a type that contains itself is accepted, but then there is no implementation to use)
        for k, (item, ln, rx) in enumerate([
                ("#[derive(%s)]\nstruct D<T>(\nT,\nfn(Self),\n);\n", 5, "function"),
                ("#[derive(%s)]\nenum D<T> {\nA(T),\nB(\nOption<*const Self>),\n}\n", 6, "pointer"),
                ("#[derive(%s)]\nstruct D<'a, T: 'a>(\nT, std::marker::PhantomData<&'a T>,\n(u8, &'a Self),\n);\n".replace("std::marker::PhantomData<&'a T>", "&'a u8"), 5, "reference"),
                ("#[derive(%s)]\nstruct D<T, const N: usize> {\nx: [T; N],\ny: Box<dyn Fn(&Self) -> Box<Self>>,\n}\n", 5, "trait object"),
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nstruct D<T>(\nT,\nstd::marker::PhantomData<m!(Self)>,\n);\n", 6, "type macro"),
                ("#[derive(%s)]\n#[funcmap(params(U))]\nstruct D<T, U>(\nT,\nU,\nfn(Self) -> u8,\n);\n", 7, "function"),
        ]):
            out.append(("self%d:%s" % (k, tr), use + (item % tr) + "fn main() {}\n", ln, None, rx))
        for k, (item, ln) in enumerate([
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nstruct D<T>(T)\nwhere\nVec<m!(T)>: Sized;\n", 6),
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nstruct D<T,\nU: Into<m!(Vec<T>)>>(T, U);\n", 5),
                ("macro_rules! m { ($t:ty) => { $t } }\n#[derive(%s)]\nenum D<T>\nwhere u8: Sized,\n for<'x> &'x (u8, m!(Self)): Sized { V(T) }\n", 6),
        ]):
            out.append(("macrobound%d:%s" % (k, tr), use + (item % tr) + "fn main() {}\n", ln, None, "type macros"))
        out.append(("crategen:" + tr, use + "#[derive(%s)]\n#[funcmap(crate = \n\"funcmap<u8>\")]\nstruct D<T>(T);\nfn main() {}\n" % tr, 4, "E0109", ""))
        out.append(("cratemissing:" + tr, use + "#[derive(%s)]\n#[funcmap(crate = \n\"nowhere\")]\nstruct D<T>(T);\nfn main() {}\n" % tr, 4, "E0433", "nowhere"))
        out.append(("cratewrong:" + tr, use + "#[derive(%s)]\n#[funcmap(crate = \n\"::std\")]\nstruct D<T>(T);\nfn main() {}\n" % tr, None, None, ""))
        # not a definition at all, or attributes without a derive
        out.append(("stray:" + tr, use + "#[funcmap(params(T))]\nstruct D<T>(T);\nfn main() {}\n", 2, None, "funcmap"))
        out.append(("fn:" + tr, use + "#[derive(%s)]\nfn f() {}\nfn main() {}\n" % tr, None, "E0774", ""))
    return out


# (there, ::core is not in scope; what the macros generate otherwise can do without)
OLD2015 = [
    ("reference", "pub struct D<'a, T: 'a>(\n&'a T\n);", 4, "reference"),
    ("option", "#[funcmap(\nfoo)] pub struct D<T>(\nT\n);", 4, "expected one of"),
    ("union", "pub\nunion D<T: Copy> { a: T }", 4, "union"),
    ("bare_trait_object_with_associated_type", "pub struct D<T>(\nBox<Iterator<Item = T>>\n);", 4, "trait object"),
    ("bare_trait_object_with_parameter", "pub struct D<T>(\nBox<AsRef<T>>\n);", 4, "trait object"),
    ("no_type_parameter", "pub struct D\n<'a>(&'a u8);", 4, "type parameter"),
]


def single_monitor(c, vm):
    olds = [("edition_2015_without_extern_crate_core:%s:%s" % (k, tr), "extern crate funcmap;\n#[derive(funcmap::%s)]\n%s\nfn main() {}\n" % (tr, item), ln, None, rx)
            for k, item, ln, rx in OLD2015 for tr in ("FuncMap", "TryFuncMap")]

    def go(x):
        key, text, ln, cd, rx = x
        d = os.path.join(c.dir, "neg_" + key.replace(":", "_"))
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "main.rs")
        with open(src, "w") as f:
            f.write(text)
        rc, diags, err = vm.rustc(src, os.path.join(d, "prog"), "2015" if x in olds else "2021", ["-Awarnings"], ("funcmap",))
        if rc is None:
            raise EnvError("rustc timed out")
        return x, errors(diags)
    for (key, text, ln, cd, rx), errs in pool(JOBS, go, single_negatives() + olds):
        c.count("programs_of_their_own")
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        if (key, text, ln, cd, rx) in olds and errs and all(code(e) == "E0433" and ln in lines_of(e)[0] or "bare" in key and code(e) and "panicked" not in e["message"] for e in errs):
            c.violation("neg:%s:%s" % (key, "coded" if "bare" in key else "E0433"), "instead of the error naming the problem there is\n%s\n\n%s" % (errs[0].get("rendered"), text), {"main.rs": text})
            continue
        ok = [e for e in errs if (cd is None or code(e) == cd) and re.search(rx, e.get("rendered") or e["message"]) and (ln is None or ln in lines_of(e)[0])]
        panicked = [e for e in errs if "panicked" in e["message"]]
        if not ok or panicked:
            c.violation("neg:single:" + key, "%s\n%s\n\nerrors:\n%s" % (
                "the derive macro panics" if panicked else "no error%s%s%s" % (" " + cd if cd else "", " naming " + rx if rx else "", " at line %d" % ln if ln else ""),
                text, "\n".join(e.get("rendered") or e["message"] for e in errs) or "(none)"), {"main.rs": text})


# ---- the same constructs where they do not involve the mapped parameter

def positive_defs(r, first, n, edition):
    out = []
    for k in range(n):
        i = first + k
        names = sorted(x for x in BAD if BAD[x][4] in (None, edition) and not x.startswith("old"))
        pick = r.sample(names, r.randint(1, 4))
        tr = r.choice(["FuncMap, TryFuncMap", "FuncMap", "TryFuncMap"])
        mode = r.choice(["concrete", "unlisted", "unlisted", "both"])
        bounds, fs = set(), []
        conc = "Vec<u8>"
        for x in pick:
            f, rx, bd, nl, ed, cc = BAD[x]
            over = "U" if mode == "unlisted" or mode == "both" and r.random() < 0.5 or x.startswith("short") else cc
            w = r.choice([x for x in WRAP if "Pair" not in x]).replace("N_", "3")
            if bd and over == "U":
                bounds.add(bd)
            fs.append(w.replace("{X}", f.replace("{P}", over)))
        if r.random() < 0.4:
            fs.append("Vec<crate::id!(%s)>" % ("u8" if mode == "concrete" else "U"))
        if r.random() < 0.5:
            fs.append(r.choice(["Box<dyn Fn(u8) -> Vec<u8> + 'a>", "&'a [u8]", "*const [u8]", "fn(&u8) -> &u8"]))
        good = [g.replace("{P}", "T") for g in r.sample(GOOD, r.randint(1, 2))]
        fs += good
        r.shuffle(fs)
        fs = [f.replace("crate::Tr<", "crate::d%d::Tr<" % i).replace("crate::id!", "id!") for f in fs]
        order = ["T", "U"]
        r.shuffle(order)
        gen = ", ".join(["'a"] + [g + (": 'a" + "".join(" + " + b for b in sorted(bounds)) if g == "U" else "") for g in order])
        fs.append("std::marker::PhantomData<&'a U>")
        params = "#[funcmap(params(T))] "
        derive = "#[derive(%s)] " % ", ".join("::funcmap::" + t for t in tr.split(", "))
        body = "(%s);" % ", ".join("pub " + f for f in fs)
        if r.random() < 0.4:
            cut = r.randint(0, len(fs))
            item = "enum D<%s> { A(%s), B { %s } }" % (gen, ", ".join(fs[:cut]), ", ".join("x%d: %s" % (j, f) for j, f in enumerate(fs[cut:])))
        else:
            item = "struct D<%s>%s" % (gen, body)
        text = "macro_rules! id { ($t:ty) => { $t } } pub trait Tr<X> { type Out; } impl<X> Tr<X> for u8 { type Out = u16; } " + derive + params + "pub " + item
        def inst(t, uu):
            return "crate::d%d::D<'static, %s>" % (i, ", ".join(t if g == "T" else uu for g in order))
        pr = []
        A, B = pe(0), pe(15)
        for t in ("FuncMap", "TryFuncMap"):
            has = t in tr.split(", ")
            ti, ui = order.index("T"), order.index("U")
            b = "::vmon::funcmap::%s<%s, %s, ::vmon::funcmap::TypeParam<%d>%s>"
            pr.append(("%s over T" % t, has, inst(A, conc), b % (t, A, B, ti, ", Output = " + inst(B, conc) if has else "")))
            pr.append(("%s over U, not listed" % t, False, inst(A, conc), b % (t, conc, conc, ui, "")))
        out.append(HandDef(i, text, pr))
    return out
