"""Definitions that are large in one respect."""

from rgen import *


class BigGen(Gen):
    def add(self, params, variants, enum, pre=()):
        df = Def(self.next, "D%d" % self.next, params, variants, enum)
        df.pre = "\n".join(pre)
        df.keyparams = set()
        self.next += 1
        self.defs.append(df)
        return df

    def ctx(self, types):
        return {"pre": [], "lifes": [], "types": list(types), "lens": []}

    def fields(self, n, d, depth, pre="f"):
        return [("%s%d" % (pre, k), self.ty(self.r.choice([0, 0, 0, depth]), False, d), "") for k in range(n)]

    def used(self, types, fields):
        seen = set()
        for (_, t, _) in fields:
            seen |= t.deps()
        return [("rest%s" % x, P(x), "") for x in types if x not in seen]

    def big(self):
        r = self.r
        # many fields
        for style in ("named", "tuple"):
            d = self.ctx("TU")
            fs = self.fields(r.randrange(70, 130), d, 1)
            self.add([Param("t", x) for x in "TU"], [Variant("V0", style, fs + self.used("TU", fs))], False, d["pre"])
        # many variants
        d = self.ctx("AT")
        vs, every = [], []
        for v in range(r.randrange(60, 90)):
            style = r.choice(["named", "tuple", "tuple", "unit"])
            fs = [] if style == "unit" else self.fields(r.choice([0, 1, 1, 2, 3, 6]), d, 1)
            every += fs
            vs.append(Variant("V%d" % v, style, fs))
        vs[r.randrange(len(vs))] = Variant("Rest", "tuple", [("a", P("A"), ""), ("t", P("T"), "")])
        self.add([Param("t", x) for x in "AT"], vs, True, d["pre"])
        # many parameters, one of them after another
        names = r.sample(UP, 14)
        d = self.ctx(names)
        ps = [Param("t", x) for x in names]
        ps.insert(r.randrange(len(ps)), Param("c", r.choice([x for x in UP if x not in names]), vals=["0", "1", "2"]))
        fs = [("p%s" % x.lower(), r.choice([P(x), App("::std::vec::Vec", [P(x)], STD["Vec"][1])]), "") for x in names]
        r.shuffle(fs)
        many = self.add(ps, [Variant("V0", "named", fs)], False)
        # a type with many arguments, mapped in many of them
        d = self.ctx("T")
        args = [r.choice(p.vals) if p.kind == "c" else (self.ty(1, False, d) if r.random() < 0.8 else self.ind(False, d)) for p in many.params]
        args[0] = args[0] if isinstance(args[0], str) else P("T")
        args[-1] = args[-1] if isinstance(args[-1], str) else P("T")
        fs = [("a", App(many.path(), args, "u%d" % many.idx, user=many), ""), ("b", P("T"), "")]
        self.add([Param("t", "T")], [Variant("V0", "tuple", fs)], False, d["pre"])
        # every letter taken
        names = list(UP)
        r.shuffle(names)
        self.add([Param("t", x) for x in names], [Variant("V0", "tuple", [("f%d" % k, P(x), "") for k, x in enumerate(sorted(names))])], False)
        # deep nesting
        for _ in range(2):
            t = P("T")
            wide = 3
            for _ in range(r.randrange(14, 22)):
                k = r.random()
                if k < 0.3:
                    t = Arr(t, "1")
                elif k < 0.5:
                    t = Tup([t] + [self.ind(False, self.ctx("T"))] * r.randrange(3))
                elif k < 0.6 and wide:
                    wide -= 1
                    t = r.choice([Arr(t, "2"), Tup([t, t]), App("Vec", [t], STD["Vec"][1])])
                else:
                    n = r.choice(["Option", "Box"])
                    t = App(n, [t], STD[n][1])
            self.add([Param("t", "T")], [Variant("V0", "tuple", [("f0", t, ""), ("f1", P("T"), "")])], False)
        # wide tuples of tuples, up to the longest that std can do anything with
        t = Tup([Tup([P("T") if (i + j) % 3 else P("U") for j in range(r.randrange(2, 13))]) for i in range(12)])
        self.add([Param("t", x) for x in "TU"], [Variant("V0", "tuple", [("f0", t, "")]), Variant("V1", "unit", [])], True)
        # and longer ones
        for n in (14, 18):
            d = self.ctx("TU")
            t = Tup([r.choice([P("T"), P("T"), P("U"), self.ind(False, d), self.ty(1, False, d)]) for _ in range(n)])
            rest = self.used("TU", [("", t, "")])
            self.add([Param("t", x) for x in "TU"], [Variant("V0", "tuple", [("f0", t, "")] + rest)], False, d["pre"])
        return self.defs


def big_progs(c, salt, n, derives=None):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = BigGen(s)
        g.big()
        for d in g.defs:
            if derives:
                d.derives = derives
        r = random.Random(s + 1)
        from runner import Prog
        out.append(Prog("big%d" % i, g.defs, {d.idx: d.subjects(r, per=1) for d in g.defs}))
    return out
