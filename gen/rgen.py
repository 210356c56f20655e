"""Random definitions within what the derive macros document as supported."""

import random
import re
from tys import *
from defs import *

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Gen:
    default_share = 0.12

    def __init__(self, seed, first=2):
        self.r = random.Random(seed)
        self.defs = []
        self.next = first
        self.usable = []   # earlier definitions that fields may mention
        self.std, self.often = list(STD), ["Vec", "Option", "Box", "Result"]
        self.inds, self.key_inds = IND, IND_KEY

    # -- types
    def head(self, name, d):
        """Some way of writing the path of a standard library type."""
        path = STD[name][0]
        r = self.r
        opts = [path, "::" + path]
        if name in PRELUDE:
            opts += [name] * 4
        if name in CORE_PATHS:
            opts.append("::" + CORE_PATHS[name])
        imp = "use %s as Im%s;" % (path, name.replace("::", "_"))
        opts.append("Im" + name.replace("::", "_"))
        h = r.choice(opts)
        if h.startswith("Im") and imp not in d["pre"]:
            d["pre"].append(imp)
        return h

    def ind(self, key, d):
        r = self.r
        if not key and d["lifes"] and r.random() < 0.3:
            return Ind("&%s %s" % (r.choice(d["lifes"]), r.choice(["u8", "[u8]"])))
        return Ind(r.choice(self.key_inds if key else self.inds))

    def leaf(self, key, d):
        r = self.r
        if r.random() < 0.82 and d["types"]:
            return P(r.choice(d["types"]))
        return self.ind(key, d)

    def ty(self, depth, key, d):
        r = self.r
        if depth <= 0 or r.random() < 0.22:
            return self.leaf(key, d)
        k = r.random()
        if k < 0.16:
            n = r.choice([1, 2, 2, 2, 3, 3, 4, 6])
            if r.random() < 0.03 and not key:
                n = 13
            es = [self.ty(depth - 1, key, d) for _ in range(n)]
            if n < 11 and r.random() < 0.3:
                # the same elements again, some of them copied freely
                x = Ind(r.choice(["u32", "i64", "char", "u8", "(u16, i16)", "[u32; 2]"])) if r.random() < 0.7 else r.choice(es)
                for _ in range(2):
                    es.insert(r.randrange(len(es) + 1), x)
            return Tup(es)
        if k < 0.3:
            n = r.choice(["0", "1", "2", "2", "3", "4", "{ 1 + 1 }"] + (d["lens"] * 3))
            return Arr(self.ty(depth - 1, key, d), n)
        if k < 0.34:
            return Wrap("(%s)", self.ty(depth - 1, key, d))
        if k < 0.5 and not key:
            return self.user(depth, d)
        names = [n for n in self.std if not key or STD[n][3]]
        name = r.choice(names)
        if r.random() < 0.25:
            name = r.choice(self.often)
        path, con, kinds, _ = STD[name]
        args = [self.ty(depth - 1, key or k_ == "k", d) for k_ in kinds]
        fmt = "%s<%s>"
        if r.random() < 0.06:
            fmt = "%s<%s,>"
        if r.random() < 0.04:
            fmt = "%s::<%s>"
        t = App(self.head(name, d), args, con, fmt)
        t.name = name
        return t

    def user(self, depth, d):
        r = self.r
        k = r.random()
        if k < 0.2 or not self.usable:
            if r.random() < 0.6:
                return App("::vmon::support::Manual", [self.ty(depth - 1, False, d)], "u0")
            # only its last parameter can be mapped
            return App("::vmon::support::Third", [self.ind(False, d), r.choice(["2", "{ 2 }", "0"] + d["lens"]), self.ty(depth - 1, False, d)], "u1")
        u = r.choice(self.usable[-12:])
        head = r.choice([u.path(), "super::%s::%s" % (u.mod(), u.name), "Us%d" % u.idx])
        if head.startswith("Us"):
            imp = "use super::%s::%s as %s;" % (u.mod(), u.name, head)
            if imp not in d["pre"]:
                d["pre"].append(imp)
        args = []
        ti = 0
        for p in u.params:
            if p.kind == "l":
                args.append(r.choice(d["lifes"] + ["'static"]))
            elif p.kind == "c":
                if p.cty == "usize":
                    args.append(r.choice(p.vals + ["{ %s }" % p.vals[0]] + d["lens"] * 2))
                else:
                    args.append(r.choice(p.vals))
            else:
                keyed = u.slot_keyed(ti) or p.name in u.keyparams
                ti += 1
                if u.mapped is not None and p.name not in u.mapped:
                    args.append(self.ind(keyed, d))
                else:
                    args.append(self.ty(depth - 1, keyed, d))
        return App(head, args, "u%d" % u.idx, user=u)

    # -- definitions
    def params(self, rich):
        r = self.r
        nl = r.choice([0, 0, 0, 1, 2]) if rich else 0
        nt = r.choice([1, 1, 1, 2, 2, 3, 4]) if r.random() < 0.97 else 9
        nc = r.choice([0, 0, 0, 1, 2]) if rich else 0
        names = r.sample(UP, nt + nc)
        if r.random() < 0.5:
            names[0] = "T"
            names = list(dict.fromkeys(names))
            while len(names) < nt + nc:
                c = r.choice(UP)
                if c not in names:
                    names.append(c)
        ts = [Param("t", n) for n in names[:nt]]
        cs = []
        for n in names[nt:]:
            if r.random() < 0.75:
                cs.append(Param("c", n, vals=["0", "1", "2", "3"]))
            else:
                cty, vals = r.choice([("bool", ["true", "false"]), ("char", ["'x'"]), ("u8", ["7"]), ("i32", ["-1", "5"])])
                cs.append(Param("c", n, cty=cty, vals=vals))
        mix = ts + cs
        r.shuffle(mix)
        ls = [Param("l", "'" + n) for n in r.sample("abcxyz", nl)]
        return ls + mix

    def one(self, depth=3, rich=True):
        for n in range(40):
            df = self.draw(depth, rich and n < 39)
            if not lifetimes_clash([t for v in df.variants for (_, t, _) in v.fields]):
                break
        self.defaults(df)
        self.next += 1
        if depth_of(df) <= 1 and weight(df) <= 14:
            self.usable.append(df)
        self.defs.append(df)
        return df

    def defaults(self, df):
        """Sometimes the last parameters have defaults."""
        r = self.r
        if r.random() >= self.default_share or df.where.strip() or any(q.bounds for q in df.params):
            return
        for i in reversed(range(len(df.params))):
            q = df.params[i]
            if q.kind == "l" or q.default is not None or r.random() < 0.25:
                break
            if q.kind == "c":
                q.default = r.choice([q.vals[0], "{ %s }" % q.vals[0]])
            else:
                before = [x.name for x in df.params[:i] if x.kind == "t"]
                q.default = r.choice(["()", "((), ())", "[(); 2]"] + before + ["(%s, ())" % b for b in before])

    def draw(self, depth, rich):
        r = self.r
        idx = self.next
        params = self.params(rich)
        d = {
            "pre": [],
            "lifes": [p.name for p in params if p.kind == "l"],
            "types": [p.name for p in params if p.kind == "t"],
            "lens": [p.name for p in params if p.kind == "c" and p.cty == "usize"],
        }
        enum = r.random() < 0.4
        variants = []
        nv = r.choice([1, 2, 2, 3, 3, 4, 6, 9]) if enum else 1
        if enum and r.random() < 0.05:
            nv = 24
        for v in range(nv):
            style = r.choice(["named", "tuple", "tuple", "unit"] if enum else ["named", "tuple"])
            nf = 0 if style == "unit" else r.choice([0, 1, 1, 2, 2, 3, 4, 5])
            if not enum:
                nf = r.choice([1, 1, 2, 2, 3, 4, 5, 7])
                if r.random() < 0.04:
                    nf = 18
            fs = [("f%d" % k if r.random() < 0.8 else r.choice(["x", "value", "f", "inner", "r#type", "self_"]) + ("" if k == 0 else "%d" % k),
                   self.ty(r.randrange(depth + 1), False, d), "") for k in range(nf)]
            variants.append(Variant("V%d" % v, style, fs))
        if r.random() < 0.2:
            v = r.choice(variants)
            if v.fields and len(v.fields) < 9:
                x = Ind(r.choice(["u32", "i64", "char", "u8", "(u16, i16)", "[u32; 2]"])) if r.random() < 0.7 else r.choice(v.fields)[1]
                for k in range(2):
                    v.fields.insert(r.randrange(len(v.fields) + 1), ("again%d" % k, x, ""))
        # every lifetime and type parameter has to be used
        used = set()
        text = ""
        for v in variants:
            for (_, t, _) in v.fields:
                used |= t.deps()
                text += t.render({}) + " "
        rest = []
        for p in params:
            if p.kind == "t" and p.name not in used:
                rest.append(P(p.name) if r.random() < 0.7 else App("::std::marker::PhantomData", [P(p.name)], "p"))
            if p.kind == "l" and not re.search(p.name + r"(?!['\w])", text):
                rest.append(Ind("&%s u8" % p.name))
        if rest:
            fields = [("w%d" % i, t, "") for i, t in enumerate(rest)]
            r.shuffle(fields)
            if enum:
                variants.append(Variant("Rest", r.choice(["named", "tuple"]), fields))
            else:
                variants[0].fields += fields
        df = Def(idx, "D%d" % idx, params, variants, enum)
        df.pre = "\n".join(d["pre"])
        df.keyparams = set()
        # sometimes restricted to some of the parameters
        if len(d["types"]) > 1 and r.random() < 0.15:
            m = r.sample(d["types"], r.randrange(1, len(d["types"])))
            df.mapped = set(m)
            if r.random() < 0.5:
                df.attrs.append("#[funcmap(params(%s))]" % ", ".join(m))
            else:
                df.attrs += ["#[funcmap(params(%s))]" % x for x in m]
        if r.random() < 0.1:
            df.derives = r.choice(["funcmap::FuncMap, funcmap::TryFuncMap", "::funcmap::TryFuncMap, ::funcmap::FuncMap",
                                   "::funcmap::FuncMap)]\n    #[derive(::funcmap::TryFuncMap"])
        return df


def depth_of(df):
    """How deeply user types are nested; keeps trait solving cheap."""
    m = 0
    for v in df.variants:
        for (_, t, _) in v.fields:
            for n in t.nodes():
                if isinstance(n, App) and n.user is not None:
                    m = max(m, 1 + depth_of(n.user))
    return m


def weight(df):
    return sum(len(t.nodes()) for v in df.variants for (_, t, _) in v.fields)
