"""Which implementations must exist: an oracle computed from the definition,
and programs that ask the compiler."""

import random

from rgen import *
from runner import Prog

BIT = {"ord": 1, "hash": 2, "tr0": 4, "tr1": 8}
TEXT = {"ord": "::core::cmp::Ord", "hash": "::core::cmp::Eq + ::core::hash::Hash", "tr0": "::vmon::probe::Tr0", "tr1": "::vmon::probe::Tr1"}
SPECIAL = {"Opaque": {("never",)}, "NoTry": {("notry",)}, "OnlyTry": {("nofunc",)}, "Same": {("eq",)}, "Wrong": {("never",)},
           "Pair": {("pair",)}, "NeedsOrd": set()}


def ctx_need(t, p, traits, side):
    """What it takes for t, with p standing for its `side`, to have traits."""
    out = set()
    if not traits:
        return out
    if isinstance(t, P):
        for tr in traits:
            out.add(("tr", t.name, side if t.name == p else "", tr))
    elif isinstance(t, Tup):
        for e in t.elems:
            out |= ctx_need(e, p, traits, side)
    elif isinstance(t, Arr):
        out |= ctx_need(t.elem, p, traits, side)
    elif isinstance(t, Wrap):
        out |= ctx_need(t.inner, p, traits, side)
    elif isinstance(t, App) and t.con != "p":
        assert t.user is None and not t.con.startswith(("u", "x:")), "keys hold std types only"
        for a in t.targs():
            out |= ctx_need(a, p, traits, side)
    return out


def map_need(t, p):
    """What it takes for a field of type t to be mapped over p."""
    out = set()
    if p not in t.deps() or isinstance(t, P):
        return out
    if isinstance(t, Tup):
        for e in t.elems:
            out |= map_need(e, p)
    elif isinstance(t, Arr):
        out |= map_need(t.elem, p)
    elif isinstance(t, Wrap):
        out |= map_need(t.inner, p)
    elif isinstance(t, App):
        args = t.targs()
        for i, a in enumerate(args):
            if p not in a.deps():
                continue
            out |= map_need(a, p)
            if t.con in ("h", "os"):
                out |= ctx_need(a, p, {"ord"}, "B")
            elif t.con == "hs":
                out |= ctx_need(a, p, {"hash"}, "B")
            elif t.con in ("om", "hm"):
                # the key has been mapped before the value
                out |= ctx_need(args[0], p, {"ord" if t.con == "om" else "hash"}, "B")
            elif t.con.startswith("x:"):
                n = t.con[2:]
                out |= SPECIAL[n]
                if n == "NeedsOrd":
                    out |= ctx_need(a, p, {"ord"}, "B")
                if n == "Pair" and not isinstance(a, P):
                    out.add(("never",))
            elif t.user is not None:
                u = t.user
                names = [q.name for q in u.tparams()]
                for k in def_need(u, names[i]):
                    if k[0] != "tr":
                        out.add(("never",) if k[0] == "pair" and not isinstance(a, P) else k)
                        continue
                    _, r, side, tr = k
                    j = names.index(r)
                    if j != i:
                        side = "B" if j < i else "A"
                    out |= ctx_need(args[j], p, {tr}, side)
    else:
        raise AssertionError(type(t))
    return out


def def_need(d, p):
    """What it takes for a definition's implementation for p to apply: set of
    ('tr', parameter, side, trait) and flags."""
    memo = d.__dict__.setdefault("_need", {})
    if p in memo:
        return memo[p]
    out = set()
    for v in d.variants:
        for (_, t, _) in v.fields:
            out |= map_need(t, p)
    for q, trs in getattr(d, "declared", {}).items():
        for tr in trs:
            for side in (("A", "B") if q == p else ("",)):
                out.add(("tr", q, side, tr))
    memo[p] = out
    return out


def satisfied(need, p, a, b, others, fallible):
    for k in need:
        if k[0] == "never" or (k[0] == "notry" and fallible) or (k[0] == "nofunc" and not fallible):
            return False
        if k[0] == "eq" and a != b:
            return False
        if k[0] == "pair" and not (a == 0 and b == 3):
            return False
        if k[0] == "tr":
            _, q, side, tr = k
            m = a if (q == p and side == "A") else b if q == p else others[q]
            if not m & BIT[tr]:
                return False
    return True


def mask(need, p, side):
    m = 0
    for k in need:
        if k[0] == "tr" and k[1] == p and k[2] == side:
            m |= BIT[k[3]]
    return m


def instance(d, subst):
    s = dict(subst)
    if hasattr(d, "inst"):
        return d.inst(s)
    return d.path() + d.args(s)


class ProbeGen(Gen):
    """Definitions with declared bounds and with field types that can be mapped
    only in part."""

    def __init__(self, seed, first=2, special=0.12, bounds=0.25):
        Gen.__init__(self, seed, first)
        self.special, self.bounds = special, bounds

    def user(self, depth, d):
        r = self.r
        if r.random() < self.special:
            n = r.choice(sorted(SPECIAL))
            arg = self.ty(depth - 1, n == "NeedsOrd", d)
            if n == "Pair" and r.random() < 0.8 and d["types"]:
                arg = P(r.choice(d["types"]))
            return App("::vmon::probe::" + n, [arg], "x:" + n)
        return Gen.user(self, depth, d)

    def one(self, depth=3, rich=True):
        r = self.r
        d = Gen.one(self, depth, rich)
        d.declared = {}
        if r.random() < self.bounds:
            if d in self.usable:
                self.usable.remove(d)
            wh = []
            for p in d.tparams():
                trs = [t for t in ("tr0", "tr1") if r.random() < 0.5]
                if not trs:
                    continue
                d.declared[p.name] = set(trs)
                k = r.randrange(4)
                if k == 0:
                    p.bounds = " + ".join(TEXT[t] for t in trs)
                elif k == 1:
                    wh.append("%s: %s" % (p.name, " + ".join(TEXT[t] for t in trs)))
                elif k == 2:
                    p.bounds = TEXT[trs[0]]
                    wh += ["%s: %s" % (p.name, TEXT[t]) for t in trs]
                else:
                    # by way of another type
                    if "tr0" in trs:
                        wh.append("::std::vec::Vec<%s>: %s" % (p.name, TEXT["tr0"]))
                    if "tr1" in trs:
                        p.bounds = TEXT["tr1"]
            d.where = ", ".join(wh) + ("," if wh and r.random() < 0.3 else "")
            if d.declared:
                # (the defaults would have to satisfy the bounds)
                for p in d.params:
                    p.default = None
        return d


def bare_module(d):
    """The definition alone, without what the monitor's engine needs."""
    if isinstance(d, HandDef):
        return d.module_text()
    b = d.build_text
    d.build_text = lambda: ""
    try:
        return d.module_text()
    finally:
        d.build_text = b


def pe(m):
    return "::vmon::probe::Pe<%d>" % m


def probes_of(d, r, limit=10, positions=True):
    """Lines of chk(...) calls."""
    out = []
    typ = d.typish()
    consts = {p.name: p.vals[0] for p in d.params if p.kind == "c"}
    lifes = {p.name: "'static" for p in d.params if p.kind == "l"}
    mapped = {p.name for p in d.mapped_params()}
    for i, p in enumerate(typ):
        if p.kind == "c" or p.name not in mapped:
            if positions:
                # nothing may be implemented for this position
                others = {q.name: pe(15) for q in d.tparams()}
                t = instance(d, {**lifes, **consts, **others})
                for tr in ("FuncMap", "TryFuncMap"):
                    for a in (15,) if p.kind == "t" else (15, 3):
                        out.append((t, pe(a), pe(15), tr, i, False))
                    if i == 0:
                        out.append((t, pe(15), pe(15), tr, None, False))
            continue
        need = def_need(d, p.name)
        decl = getattr(d, "declared", {})
        low = 0
        for t in decl.get(p.name, ()):
            low |= BIT[t]
        amin = mask(need, p.name, "A") | low
        bmin = mask(need, p.name, "B")
        omin = {q.name: mask(need, q.name, "") for q in d.tparams() if q is not p}
        odecl = {q: sum(BIT[t] for t in decl.get(q, ())) for q in omin}
        cases = [(amin, bmin, omin)]
        for bit in (1, 2, 4, 8):
            if bmin & bit:
                cases.append((amin, 15 & ~bit, omin))
            if amin & bit and not low & bit:
                cases.append((15 & ~bit, 15, omin))
            for q in omin:
                if omin[q] & bit and not odecl[q] & bit:
                    cases.append((15, 15, {**omin, q: 15 & ~bit}))
        cases += [(15, 15, {q: 15 for q in omin}), (15, bmin, omin), (amin, 15, omin), (low, bmin, omin), (low, 0, omin)]
        if not low:
            cases += [(0, 3, {q: 15 for q in omin}), (0, 0, omin)]
        cases.append((low | r.randrange(16), r.randrange(16), {q: odecl[q] | r.randrange(16) for q in omin}))
        seen = []
        for c in cases:
            if c not in seen:
                seen.append(c)
        if len(seen) > limit:
            seen = seen[:2] + r.sample(seen[2:], limit - 2)
        for n, (a, b, o) in enumerate(seen):
            base = {**lifes, **consts, **{q: pe(m) for q, m in o.items()}}
            t = instance(d, {**base, p.name: pe(a)})
            # the output type can be named only if its bounds are met
            to = instance(d, {**base, p.name: pe(b)}) if b & low == low else None
            for tr in ("FuncMap", "TryFuncMap"):
                yes = satisfied(need, p.name, a, b, o, tr == "TryFuncMap")
                out.append((t, pe(a), pe(b), tr, i, yes))
                if to and (n == 0 or r.random() < 0.2):
                    # the output type
                    out.append((t, pe(a), pe(b), tr, i, yes, to))
                    if i == 0:
                        out.append((t, pe(a), pe(b), tr, None, yes))
                        out.append((t, pe(a), pe(b), tr, None, yes, to))
                    if a != b and yes and n == 0:
                        out.append((t, pe(a), pe(b), tr, i, False, t))
        if positions:
            # positions beyond the parameters
            if i == len(typ) - 1:
                t = instance(d, {**lifes, **consts, **{q.name: pe(15) for q in d.tparams()}})
                out.append((t, pe(15), pe(15), "FuncMap", len(typ), False))
    return [probe_line(*x) for x in out] + list(getattr(d, "hand", []))


def probe_line(t, a, b, tr, i, e, to=None):
    mk = "" if i is None else ", ::vmon::funcmap::TypeParam<%d>" % i
    o = "" if to is None else ", Output = %s" % to
    return '    vmon::probe::chk("%s: %s<%s, %s%s%s>", %s, vmon::probe!(%s: ::vmon::funcmap::%s<%s, %s%s%s>));' % (
        short(t), tr, short(a), short(b), "" if i is None else ", %d" % i, short(o), "true" if e else "false", t, tr, a, b, mk, o)


def short(t):
    return t.replace("::vmon::probe::", "").replace("crate::", "")


def generic_fns(d, k0=0):
    """Functions generic in everything, asking for no more than is needed."""
    out = []
    typ = d.typish()
    mapped = {p.name for p in d.mapped_params()}
    for i, p in enumerate(typ):
        if p.kind == "c" or p.name not in mapped:
            continue
        need = def_need(d, p.name)
        flags = {k[0] for k in need} - {"tr"}
        if flags & {"never", "pair", "eq"}:
            continue
        gl = ", ".join(q.decl() for q in d.params if q.kind == "l")
        gs = [gl] if gl else []
        wh = []
        for q in typ:
            if q.kind == "c":
                gs.append("const %s: %s" % (q.name, q.cty))
            elif q is p:
                gs += ["SrcT", "DstT"]
            else:
                gs.append(q.name)
        for kk in sorted(need - {(f,) for f in flags}):
            _, q, side, tr = kk
            wh.append("%s: %s" % ({"A": "SrcT", "B": "DstT", "": q}[side], TEXT[tr]))
        src = instance(d, {p.name: "SrcT"})
        dst = instance(d, {p.name: "DstT"})
        w = (", " + ", ".join(wh)) if wh else ""
        mk = "::vmon::funcmap::TypeParam<%d>" % i
        if "nofunc" not in flags:
            out.append("fn g%d_%d<%s, FnT>(x: %s, f: FnT) -> %s where FnT: FnMut(SrcT) -> DstT%s { ::vmon::funcmap::FuncMap::<SrcT, DstT, %s>::func_map(x, f) }" % (
                d.idx, i, ", ".join(gs), src, dst, w, mk))
            out.append("fn o%d_%d<%s, FnT>(x: %s, f: FnT) -> %s where FnT: FnMut(SrcT) -> DstT%s { ::vmon::funcmap::FuncMap::<SrcT, DstT, _>::func_map_over::<%s, FnT>(x, f) }" % (
                d.idx, i, ", ".join(gs), src, dst, w, mk))
            if i == 0:
                out.append("fn m%d_%d<%s, FnT>(x: %s, f: FnT) -> %s where FnT: FnMut(SrcT) -> DstT%s { <%s as ::vmon::funcmap::FuncMap<SrcT, DstT>>::func_map(x, f) }" % (
                    d.idx, i, ", ".join(gs), src, dst, w, src))
        if "notry" not in flags:
            out.append("fn t%d_%d<%s, ErrT, FnT>(x: %s, f: FnT) -> ::core::result::Result<%s, ErrT> where FnT: FnMut(SrcT) -> ::core::result::Result<DstT, ErrT>%s { ::vmon::funcmap::TryFuncMap::<SrcT, DstT, %s>::try_func_map(x, f) }" % (
                d.idx, i, ", ".join(gs), src, dst, w, mk))
            out.append("fn v%d_%d<%s, ErrT, FnT>(x: %s, f: FnT) -> ::core::result::Result<%s, ErrT> where FnT: FnMut(SrcT) -> ::core::result::Result<DstT, ErrT>%s { ::vmon::funcmap::TryFuncMap::<SrcT, DstT, _>::try_func_map_over::<%s, ErrT, FnT>(x, f) }" % (
                d.idx, i, ", ".join(gs), src, dst, w, mk))
    return out


class ProbeProg(Prog):
    """A program of probes instead of monitored runs."""

    def __init__(self, name, defs, seed, edition="2021", limit=10, fns=True, extra=""):
        Prog.__init__(self, name, defs, {}, edition)
        self.seed, self.limit, self.fns, self.extra = seed, limit, fns, extra

    def render(self, defs):
        text = "#![allow(dead_code, unused)]\nextern crate alloc;\nextern crate funcmap;\nextern crate vmon;\n"
        ranges = []
        for d in defs:
            a = text.count("\n") + 1
            text += bare_module(d)
            ranges.append((a, text.count("\n"), d.idx))
        for d in defs:
            r = random.Random(self.seed * 31 + d.idx)
            a = text.count("\n") + 1
            text += "fn run_%d() {\n%s\n}\n" % (d.idx, "\n".join(probes_of(d, r, self.limit)))
            if self.fns:
                text += "".join(f + "\n" for f in generic_fns(d))
            ranges.append((a, text.count("\n"), d.idx))
        text += self.extra
        text += "fn main() {\n%s    vmon::probe::finish()\n}\n" % "".join("    run_%d();\n" % d.idx for d in defs)
        return text, ranges


class HandDef(Def):
    """A definition written out, with probes of its own: (what, expected, type,
    bound); `expected` may be an expression."""

    def __init__(self, idx, item, probes, fns="", tag="hand"):
        Def.__init__(self, idx, "Hand%d" % idx, [], [], False)
        self.hand_tag = tag
        self.item = item
        self.hand = ['    vmon::probe::chk("%s", %s, vmon::probe!(%s: %s));' % (w, e if isinstance(e, str) else "true" if e else "false", t, b)
                     for (w, e, t, b) in probes]
        self.fns = fns

    def module_text(self):
        return "pub mod %s {\n    %s\n}\n" % (self.mod(), self.item) + self.fns

    def tag(self):
        return self.hand_tag
