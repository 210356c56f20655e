"""Expansions of the derive macros, recorded and compared over compilations."""

import os
import random
import re
import tempfile

from runner import *
from rgen import Gen
from probes import bare_module
from hostile import Hostile, Macroed, InFnGen
from negative import Neg, HEAD
from lints import HAND, Text
from bounds import BoundGen
from options import OptGen

# plenty of everything that has an order
MANY = [
    "pub struct D<'a, 'b, 'c, 'd, 'e, T>(&'a &'b &'c &'d &'e u8, Vec<T>) where 'b: 'a, 'c: 'b, 'd: 'c, 'e: 'd + 'c + 'b + 'a, 'd: 'a + 'b, 'c: 'a;",
    "pub struct D<'a: 'b + 'c, 'b: 'd, 'c: 'd, 'd, T: 'a + 'b + 'c + 'd + Clone + Send + Sync + PartialEq + Eq>(&'a u8, &'b u8, &'c u8, &'d u8, T);",
    "pub struct D<T, U, V, W>(Vec<T>, Option<U>, Box<V>, Vec<W>, (T, U, V, W)) where T: Clone + Copy + PartialEq + Eq, U: Clone + From<T>, V: From<U> + From<T> + From<W>, W: Into<T> + Into<U> + Into<V>;",
    "pub enum D<'a, 'b, 'c, T> { A(Result<T, &'a u8>, Result<T, &'b u8>, Result<T, &'c u8>), B(Vec<(T, &'a u8)>, Vec<(T, &'b u8)>), C(Result<&'c T, u8>, Result<u8, T>, Result<u16, T>, Result<u32, T>) }".replace("Result<&'c T, u8>, ", ""),
    "pub struct D<T>(Vec<T>, Box<T>, Option<T>, [T; 1], [T; 2], [T; 3], ::std::rc::Rc<u8>, Result<T, u8>, Result<T, u16>, Result<T, u32>, Result<u8, T>, ::std::cell::Cell<T>, ::std::cell::RefCell<T>, ::std::collections::VecDeque<T>, ::std::collections::LinkedList<T>, ::std::ops::Bound<T>, ::std::task::Poll<T>, u8, u16, u32, u64);",
    "#[funcmap(params(U), params(S, Q), params(T))] pub struct D<Q, R, S, T, U, V>(Vec<Q>, fn(R), Vec<S>, Option<T>, Box<U>, fn(V));",
    "#[funcmap(params(U, T))] #[funcmap(params(S))] pub enum D<Q, S, T, U> { A(fn(Q)), B(S, T, U), C { u: U, t: T, s: S }, E }",
    "pub struct D<A, B, E, F, G, C, H>(A, B, E, F, G, C, Vec<H>) where A: From<B>, B: From<E>, E: From<F>, F: From<G>, G: From<C>;",
]

START = re.compile(r"^pub mod (x\w*) \{$", re.M)

ENVS = [
    {},
    {"CARGO_PKG_NAME": "funcmap", "CARGO_CRATE_NAME": "funcmap", "CARGO_MANIFEST_DIR": "/repo/funcmap", "CARGO_PRIMARY_PACKAGE": "1", "DEBUG": "true", "PROFILE": "release"},
    {"CARGO_PKG_NAME": "other", "CARGO_MANIFEST_DIR": "/nowhere", "CARGO_PKG_VERSION": "9.9.9", "OUT_DIR": "/nowhere", "TARGET": "wasm32-unknown-unknown", "HOST": "x", "CARGO_CFG_TEST": "1"},
    {"RUST_BACKTRACE": "full", "LANG": "de_DE.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Kolkata", "USER": "nobody", "RUST_MIN_STACK": "16777216", "SOURCE_DATE_EPOCH": "1"},
    {"FUNCMAP": "1", "FUNCMAP_DEBUG": "1", "FUNCMAP_CRATE": "x", "CI": "true", "DOCS_RS": "1", "TERM": "dumb", "NO_COLOR": "1", "RUSTC_WRAPPER": "x", "CARGO_FEATURE_STD": "1"},
]
FLAGS = [[], ["--test"], ["-Copt-level=3", "-Cdebug-assertions=off"], ["--cfg", "feature=\"std\"", "--cfg", "test"], ["-Cdebuginfo=2"], ["-Cmetadata=zz"], ["--cap-lints", "allow"], ["-Coverflow-checks=on", "-Cpanic=abort"]]


class Item:
    """A module `x..` with a definition; what is compared is its expansion."""

    def __init__(self, key, text):
        self.key = key
        self.text = re.sub(r"^pub mod \w+ \{", "pub mod @ {", text, count=1)
        assert self.text.startswith("pub mod @ {"), text
        # nothing may follow the module
        end = self.text.index("\n}\n") + 3
        self.text = self.text[:end]

    def put(self, name):
        return self.text.replace("@", name, 1)

    def only(self, trait):
        """With just one of the derives; None if it is not written in the usual way."""
        rx = re.compile(r"#\[derive\(::funcmap::FuncMap, ::funcmap::TryFuncMap\)\]")
        if len(rx.findall(self.text)) != 1 or "macro_rules! mac " in self.text:
            return None
        i = Item.__new__(Item)
        i.key, i.text = self.key, rx.sub("#[derive(::funcmap::%s)]" % trait, self.text)
        return i


def expand(vm, d, order, edition, head="", envv=None, flags=(), cname="prog", fname="main.rs", macro=None):
    """`order`: list of (name, item). Returns {name: text} and the errors."""
    cwd = tempfile.mkdtemp(dir=d)
    src = os.path.join(cwd, fname)
    text = head + "extern crate funcmap;\nextern crate vmon;\nextern crate core;\nextern crate alloc;\n"
    lines = {}
    for name, it in order:
        lines[name] = text.count("\n") + 1
        text += it.put(name)
    text += "fn main() {}\n"
    with open(src, "w") as f:
        f.write(text)
    v = macro or vm
    cmd = ["rustc", "--edition", edition, "--crate-name", cname, "--error-format=json", "-Zunpretty=expanded", "-Awarnings", "-L", "dependency=" + v.deps, src]
    for x in ("funcmap", "vmon"):
        cmd += ["--extern", "%s=%s" % (x, v.rlib[x])]
    e = dict(v.envv)
    e["RUSTC_BOOTSTRAP"] = "1"
    e.update(envv or {})
    rc, out, err = sh(cmd + list(flags), 240, cwd, e)
    if rc is None:
        raise EnvError("rustc timed out")
    shutil.rmtree(cwd, ignore_errors=True)
    errs = errors(diagnostics(err))
    mods = {}
    ms = list(START.finditer(out))
    for m in ms:
        end = out.find("\n}", m.end())
        mods[m.group(1)] = out[m.end():end]
    # (errors by definition, with lines relative to it)
    by = {name: [] for name, _ in order}
    for er in errs:
        ls, _ = lines_of(er, fname)
        for name in lines:
            if ls and lines[name] <= ls[0] < lines[name] + dict(order)[name].text.count("\n"):
                by[name].append((ls[0] - lines[name], er["message"]))
    return mods, by, err if not out else "", text


def corpora(c, n, per, salt):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        ed = ["2021", "2015", "2018", "2024"][i % 4]
        kind = i % 7
        items = []
        if kind in (5, 6):
            if kind == 5:
                g = BoundGen(s)
                ed = ["2021", "2018", "2024"][i % 3]
            else:
                g = OptGen(s, ed, False, path=False)
            for _ in range(per):
                g.one(2, True)
            items = [Item("d%d" % d.idx, bare_module(d)) for d in g.defs]
            if kind == 5:
                items += [Item("m%d" % k, "pub mod x {\n    #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n    %s\n}\n" % t) for k, t in enumerate(MANY)]
            out.append(("exp%d" % i, ed, items, "", False))
            continue
        if kind == 4:
            r = random.Random(s)
            k = 0
            while len(items) < per:
                d = Neg(k, r, ed, "FuncMap, TryFuncMap")
                k += 1
                if d.places:
                    items.append(Item("n%d" % k, "pub mod x { use funcmap::{FuncMap, TryFuncMap}; use funcmap as fm;".replace("pub mod x {", "pub mod x {\n") + "\n" + "\n".join(" " + l for l in d.text()) + "\n}\n"))
            out.append(("exp%d" % i, ed, items, HEAD.split("extern crate")[0] + HEAD[HEAD.index("#[macro_export]"):], True))
            continue
        g = [Gen, Hostile, Macroed, Hostile][kind](s, **({"edition": ed} if kind else {}))
        if kind == 0:
            ed = "2021"
        for _ in range(per):
            g.one(3, True)
        items = [Item("d%d" % d.idx, bare_module(d)) for d in g.defs]
        if ed != "2015" and kind in (0, 1):
            items += [Item("h%d" % k, Text(k, t).module(True)) for k, t in enumerate(HAND)][i % 3::3]
        out.append(("exp%d" % i, ed, items, "", False))
    return out


def expansion_monitor(c, vm, n, per, salt, rounds):
    rel = Vmon(release=True, target="release").lib()

    def go(job):
        name, ed, items, head, neg = job
        d = os.path.join(c.dir, name)
        os.makedirs(d, exist_ok=True)
        r = random.Random(c.seed * 7919 + salt + len(name) * 31 + int(name[3:]))
        base = [("x%d" % i, it) for i, it in enumerate(items)]
        idx = {n_: it for n_, it in base}
        seen = {}        # item key -> (text, errors, how)
        res = dict(compared=0, expansions=0, runs=0, bad=[], orders=set(), envs=set(), empty=0)

        def note(mods, by, how, order, text):
            res["runs"] += 1
            res["orders"].add(tuple(k for k, _ in order))
            for nm, it in order:
                got = (mods.get(nm), tuple(by[nm]) if neg else ())
                if got[0] is None and not got[1]:
                    # (a definition that is rejected has errors, others an expansion)
                    res["empty"] += 1
                res["expansions"] += 1
                if it.key not in seen:
                    seen[it.key] = (got, how, text, nm)
                    continue
                res["compared"] += 1
                if seen[it.key][0] != got:
                    res["bad"].append((it, seen[it.key], (got, how, text, nm)))

        def run(how, order, **kw):
            mods, by, err, text = expand(vm, d, order, ed, head, **kw)
            if err and not neg:
                raise EnvError("cannot be expanded (%s): %s" % (how, err[-1500:]))
            note(mods, by, how, order, text)
            return mods

        run("as written", base)
        run("again, in another process", base)
        run("in reverse order", base[::-1])
        for k in range(rounds):
            o = list(base)
            r.shuffle(o)
            run("shuffled %d, other variables, flags and names" % k, o, envv=r.choice(ENVS[1:]), flags=r.choice(FLAGS), cname=r.choice(["prog", "funcmap", "a_b", "core2"]),
                fname=r.choice(["main.rs", "lib.rs", "x y.rs"]))
            o = [x for x in base if r.random() < 0.4] or base[:1]
            r.shuffle(o)
            run("some of them %d" % k, o, envv=r.choice(ENVS))
            # several times in one compilation
            o = [("x%d_%d" % (j, m), it) for j, (_, it) in enumerate(base) if r.random() < 0.5 for m in range(3)]
            r.shuffle(o)
            if o:
                run("three times each, mixed %d" % k, o)
            one = r.choice(base)
            run("alone", [one])
        run("with the macros compiled without debug assertions", base, macro=rel)
        # one derive at a time
        if not neg:
            fs = [(n_, it.only("FuncMap")) for n_, it in base]
            ts = [(n_, it.only("TryFuncMap")) for n_, it in base]
            fs, ts = [x for x in fs if x[1]], [x for x in ts if x[1]]
            both = run("as written, before the derives are separated", base)
            f = expand(vm, d, fs, ed, head)[0]
            t = expand(vm, d, ts[::-1], ed, head)[0]
            for nm, _ in fs:
                b, x, y = both.get(nm), f.get(nm), t.get(nm)
                if None in (b, x, y):
                    continue
                res["separated"] = res.get("separated", 0) + 1
                bad = separated(b, x, y)
                if bad:
                    res["bad"].append((idx[nm], ((b, ()), "both derives", "", nm), ((bad, ()), "one derive at a time", "", nm)))
        return name, ed, res, neg

    for name, ed, res, neg in pool(JOBS, go, corpora(c, n, per, salt)):
        for k in ("compared", "expansions", "runs", "separated"):
            c.count({"runs": "compilations", "expansions": "expansions_recorded"}.get(k, "expansions_" + k), res.get(k, 0))
        c.count("orders_of_definitions", len(res["orders"]))
        if neg:
            c.count("rejected_definitions_compared", res["compared"])
        if res["empty"]:
            raise EnvError("%d expansions not found in the output of %s" % (res["empty"], name))
        c.sample("%s: %d compilations, e. g. with the definitions in the order %s" % (name, res["runs"], " ".join(sorted(res["orders"], key=len)[-1])))
        with c.lock:
            c.evals += res["compared"] + res.get("separated", 0)
            c.nontrivial += res["compared"] + res.get("separated", 0)
        for it, (g0, how0, t0, n0), (g1, how1, t1, n1) in res["bad"]:
            c.violation("expand:%s" % ("errors" if neg else "separate" if how0 == "both derives" else "differs"),
                        "edition %s: the expansion of one and the same definition differs: %s (as %s), and %s (as %s)\n%s\n---- first difference:\n%s" % (
                            ed, how0, n0, how1, n1, it.text, differ(g0, g1)), {"first.rs": t0, "second.rs": t1, "definition.rs": it.text})


def separated(b, x, y):
    """Whether expansion b is that with FuncMap (x) and that with TryFuncMap (y)
    one after the other; what differs."""
    # b = before + F + T + after, x = before + F + after, y = before + T + after
    limit = len(os.path.commonprefix([x[::-1], y[::-1], b[::-1]]))
    for n in range(limit + 1):
        p = len(x) + len(y) - n - len(b)
        if 0 <= p <= len(y) - n and b.startswith(x[:len(x) - n]) and b[len(x) - n:] == y[p:] and x[:p] == y[:p]:
            return None
    if os.path.commonprefix([b, x]) != x[:len(x) - limit]:
        return "only when FuncMap is derived alone:\n" + common(b, x)
    return "only when TryFuncMap is derived alone:\n" + y[len(os.path.commonprefix([x, y])):]


def common(b, x):
    i = len(os.path.commonprefix([b, x]))
    return x[max(0, i - 200):i + 300]


def differ(a, b):
    if a[1] != b[1]:
        return "errors %s\nand %s" % (a[1], b[1])
    x, y = (a[0] or "(nothing)").split("\n"), (b[0] or "(nothing)").split("\n")
    if y[0].startswith("only when") or not a[0]:
        return "\n".join(y)
    for i in range(max(len(x), len(y))):
        p, q = x[i] if i < len(x) else "(end)", y[i] if i < len(y) else "(end)"
        if p != q:
            return "line %d:\n%s\n%s" % (i + 1, p, q)
    return "\n".join(y[:20])
