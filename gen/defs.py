"""Definitions: their text, the building and taking apart of their values, and
the subjects the monitor maps over."""

from tys import *


class Param:
    def __init__(self, kind, name, bounds="", default=None, cty="usize", vals=None, attrs="", text=None):
        # kind: 'l' lifetime, 't' type, 'c' const
        self.kind, self.name, self.bounds, self.default = kind, name, bounds, default
        self.cty, self.vals, self.attrs = cty, vals or ["3"], attrs
        self.text = text or name

    def decl(self, default=False, relax=True):
        if self.kind == "c":
            d = "const %s: %s" % (self.text, self.cty)
        else:
            b = self.bounds
            d = self.text + (": " + b if b else "")
        if default and self.default is not None:
            d += " = " + self.default
        return d


class Variant:
    def __init__(self, name, style, fields, attrs="", disc=None):
        # style: 'named', 'tuple', 'unit'; fields: [(name, T, prefix)]
        self.name, self.style, self.fields, self.attrs, self.disc = name, style, fields, attrs, disc


class Def:
    """A definition; `idx` is its place among the model's definitions."""

    def __init__(self, idx, name, params, variants, enum):
        self.idx, self.name, self.params, self.variants, self.enum = idx, name, params, variants, enum
        self.where = ""
        self.attrs = []          # attribute lines before the item
        self.derives = "::funcmap::FuncMap, ::funcmap::TryFuncMap"
        self.pre = ""            # items before, in the same module
        self.inner = []          # inner attributes of the module
        self.mapped = None       # names of the mapped parameters, None: all
        self.vis = "pub"
        self.item = None         # replaces the text of the item
        self.others = {}         # type parameter -> instance in subjects
        self.only_classes = None
        self.tags = set()
        self.crate = "::funcmap"
        self.post = ""
        self.modwrap = None
        self.instances = None
        self.expansion = None    # text of item and derives, if produced by a macro
        self.infn = None         # form of a function around it
        self.local = []          # runs in there
        self.braces = False      # write const parameters as blocks
        self.gone = {}           # variants with a field that is configured out

    def mod(self):
        return "d%d" % self.idx

    def path(self):
        if self.infn:
            return self.name
        return "crate::%s::%s" % (self.mod(), self.name)

    def tparams(self):
        return [p for p in self.params if p.kind == "t"]

    def typish(self):
        return [p for p in self.params if p.kind != "l"]

    def mapped_params(self):
        return [p for p in self.tparams() if self.mapped is None or p.name in self.mapped]

    def slot_keyed(self, i):
        """Is the i-th type parameter in a keyed position?"""
        p = self.tparams()[i].name
        return any(t.keyed(p) for v in self.variants for (_, t, _) in v.fields)

    # -- text
    def generics(self, default):
        g = ", ".join((p.attrs + " " if p.attrs and default else "") + p.decl(default) for p in self.params)
        return "<%s>" % g if g else ""

    def args(self, subst=None):
        s = subst or {}
        a = ", ".join(s.get(p.name, "{ %s }" % p.text if p.kind == "c" and self.braces else p.text) for p in self.params)
        return "<%s>" % a if a else ""

    def fields_text(self, v, pub):
        out = []
        for (n, t, pre) in v.fields:
            tx = t.render({})
            if v.style == "named":
                out.append("%s%s%s: %s" % (pre, pub, n, tx))
            else:
                out.append("%s%s%s" % (pre, pub, tx))
        gone = self.gone.get(id(v))
        if gone and v.style != "unit":
            out.insert(len(out) // 2, gone[0] if v.style == "named" else gone[1])
        return out

    def item_text(self):
        if self.item is not None:
            return self.item
        w = (" where " + self.where) if self.where else ""
        lines = list(self.attrs)
        kw = "enum" if self.enum else "struct"
        head = "%s %s %s%s" % (self.vis, kw, self.name, self.generics(True))
        if self.enum:
            vs = []
            for v in self.variants:
                f = self.fields_text(v, "")
                body = {"named": " { %s }" % ", ".join(f), "tuple": "(%s)" % ", ".join(f), "unit": ""}[v.style]
                vs.append("%s%s%s%s" % (v.attrs, v.name, body, " = " + v.disc if v.disc else ""))
            lines.append("%s%s { %s }" % (head, w, ", ".join(vs)))
        else:
            v = self.variants[0]
            f = self.fields_text(v, "pub ")
            if v.style == "named":
                lines.append("%s%s { %s }" % (head, w, ", ".join(f)))
            elif v.style == "tuple":
                lines.append("%s(%s)%s;" % (head, ", ".join(f), w))
            else:
                lines.append("%s%s;" % (head, w))
        return "\n    ".join(lines)

    def build_text(self):
        """Make and IntoV implementations, for 'static lifetimes."""
        life = {p.name: "'static" for p in self.params if p.kind == "l"}
        gen = ", ".join(p.decl() for p in self.params if p.kind != "l")
        for k, v in life.items():
            gen = Ind(gen + " ").render({k: v}).strip()
        wh = self.where
        for k, v in life.items():
            wh = Ind(wh + " ").render({k: v}).strip()
        fts = []
        for v in self.variants:
            for (_, t, _) in v.fields:
                if t.deps() or any(isinstance(n, Arr) for n in t.nodes()):
                    r = t.render(life)
                    if r not in fts:
                        fts.append(r)
        args = self.args(life)
        out = []
        for tr in ("Make", "IntoV"):
            w = ["%s: ::vmon::%s" % (f, tr) for f in fts]
            if wh.strip():
                w = [wh.rstrip().rstrip(",")] + w
            out.append("impl<%s> ::vmon::%s for %s%s%s {" % (gen, tr, self.name, args, " where " + ", ".join(w) if w else ""))
            if tr == "Make":
                out.append("    fn make(g: &mut ::vmon::G) -> Self {")
                arms = []
                for i, v in enumerate(self.variants):
                    p = "Self::%s" % v.name if self.enum else "Self"
                    fs = ", ".join("%s: ::vmon::Make::make(g)" % (n if v.style == "named" else k)
                                   for k, (n, _, _) in enumerate(v.fields))
                    arms.append("%s { %s }" % (p, fs))
                if len(arms) == 1:
                    out.append("        %s" % arms[0])
                else:
                    out.append("        match ::vmon::G::below(g, %d) {" % len(arms))
                    for i, a in enumerate(arms):
                        out.append("            %s => %s," % (i if i + 1 < len(arms) else "_", a))
                    out.append("        }")
                out.append("    }")
            else:
                out.append("    fn into_v(self, k: &mut ::vmon::Keep) -> ::vmon::V {")
                out.append("        match self {")
                for i, v in enumerate(self.variants):
                    p = "Self::%s" % v.name if self.enum else "Self"
                    pat = ", ".join("%s: a%d" % (n if v.style == "named" else k, k) for k, (n, _, _) in enumerate(v.fields))
                    vec = ", ".join("::vmon::IntoV::into_v(a%d, k)" % k for k in range(len(v.fields)))
                    out.append('            %s { %s } => ::vmon::V::Node(%d, "%s", ::std::vec![%s]),' % (p, pat, i, self.name.replace("r#", ""), vec))
                out.append("        }")
                out.append("    }")
            out.append("}")
        return "\n    ".join(out)

    def module_text(self):
        inner = "".join("    #![%s]\n" % a for a in self.inner)
        allow = "    #![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals, unused_parens)]\n" if "deny" not in self.tags else ""
        pre = "    " + self.pre.replace("\n", "\n    ") + "\n" if self.pre else ""
        der = "#[derive(%s)]\n    " % self.derives if self.item is None else ""
        item = der + self.item_text() if self.expansion is None else self.expansion
        if self.infn:
            # definition and runs inside a function
            return "pub mod %s {\n%s%s    use ::vmon::*;\n    %s\n}\n" % (
                self.mod(), allow, inner, self.infn.replace("%s", pre + item + "\n    " + self.build_text() + "\n" + self.post + "\n" + "\n".join(self.local) + "\n    "))
        return "pub mod %s {\n%s%s%s    %s\n    %s\n%s}\n" % (
            self.mod(), allow, inner, pre, item, self.build_text(), self.post)

    def model_text(self):
        ps = []
        for p in self.typish():
            if p.kind == "c":
                ps.append("")
            else:
                ps.append("/".join(";".join(t.ty(p.name) for (_, t, _) in v.fields) for v in self.variants))
        return '        vmon::Def::parse("%s", &[%s]),' % (self.name, ", ".join('"%s"' % p for p in ps))

    def subjects(self, rng, classes=None, per=1):
        """Subjects of this definition: one per mapped parameter."""
        out = []
        for i, p in enumerate(self.typish()):
            if p.kind != "t" or (self.mapped is not None and p.name not in self.mapped):
                continue
            keyed = any(t.keyed(p.name) for v in self.variants for (_, t, _) in v.fields)
            for _ in range(per):
                cl = classes or self.only_classes or pick_classes(rng, keyed)
                subst = {}
                for q in self.params:
                    if q.kind == "l":
                        subst[q.name] = "'static"
                    elif q.kind == "c":
                        subst[q.name] = rng.choice(q.vals)
                    elif q is p:
                        subst[q.name] = "X"
                    elif q.name in self.others:
                        subst[q.name] = self.others[q.name]
                    else:
                        # often the very types the closure works on
                        k = cl[0].split("<")[0]
                        subst[q.name] = rng.choice(["Tok<Oth>", cl[0], cl[0], cl[1], "Tok<Oth2>"]) if k not in ("Z", "Cp", "Tiny") else "Tok<Oth>"
                slots = ["P" if q is p else "_" for q in self.typish()]
                args = ", ".join(subst[q.name] for q in self.params)
                name = "%s over %s" % (self.name, p.name)
                out.append('    subject!(e, "%s", vmon::Ty::parse("u%d(%s)"), %s, &[], funcmap::TypeParam<%d>, [%s], X => %s<%s>);' % (
                    name, self.idx, ",".join(slots), "true" if keyed else "false", i, ", ".join(cl), self.path(), args))
        return out

    def pairs(self, rng, limit=4):
        """Pairs of mapped parameters of this definition."""
        ps = [(i, p) for i, p in enumerate(self.typish()) if p.kind == "t" and (self.mapped is None or p.name in self.mapped)]
        both = [(a, b) for a in ps for b in ps if a[0] < b[0]]
        out = []
        for (i, p), (j, q) in rng.sample(both, min(limit, len(both))):
            cl = rng.choice(PAIR_CLASSES)
            subst = {}
            for x in self.params:
                if x.kind == "l":
                    subst[x.name] = "'static"
                elif x.kind == "c":
                    subst[x.name] = rng.choice(x.vals)
                elif x is p or x is q:
                    subst[x.name] = "X" if x is p else "Y"
                else:
                    subst[x.name] = self.others.get(x.name) or rng.choice(["Tok<Oth>", cl[0], cl[3]])
            args = ", ".join(subst[x.name] for x in self.params)
            out.append('    pair!(e, "%s over %s and %s", funcmap::TypeParam<%d>, funcmap::TypeParam<%d>, [%s], X, Y => %s<%s>);' % (
                self.name, p.name, q.name, i, j, ", ".join(cl), self.path(), args))
        return out


PAIR_CLASSES = [
    ["Tok<Src>", "Tok<Dst>", "Tok<Oth>", "Tok<Oth2>"],
    ["Tok<Src>", "Tok<Dst>", "Tok<Oth>", "Tok<Oth2>"],
    ["Tok<Src>", "Tok<Dst>", "Tok<Src>", "Tok<Dst>"],
    ["Tok<Src>", "Tok<Src>", "Tok<Src>", "Tok<Src>"],
    ["Tok<Src>", "Big<Dst>", "Tok<Oth>", "Cp<Oth2>"],
]

CLASSES = [
    ["Tok<Src>", "Tok<Dst>", "Tok<Mid>"],
    ["Tok<Src>", "Big<Dst>", "Tok<Mid>"],
    ["Tiny<Src>", "Tok<Dst>", "Tok<Mid>"],
    ["Cp<Src>", "Tok<Dst>", "Tok<Mid>"],
    ["Tok<Src>", "Tok<Src>", "Tok<Src>"],
    ["Z<Src>", "Z<Dst>", "Z<Mid>"],
]


def pick_classes(rng, keyed):
    k = rng.randrange(12)
    if k < 7:
        return CLASSES[0]
    c = CLASSES[1 + k % 5]
    if c[0].startswith("Z") and keyed:
        return CLASSES[0]
    return c


def program(defs, subjects, edition, head="", attrs=""):
    """A whole program; returns its text and the line ranges of its modules."""
    out = [attrs] if attrs else []
    out.append("extern crate funcmap;\nextern crate vmon;" + ("\nextern crate core;\nextern crate alloc;" if edition == "2015" else ""))
    if head:
        out.append(head)
    ranges = []
    text = "\n".join(out) + "\n"
    for d in defs:
        a = text.count("\n") + 1
        text += d.module_text()
        ranges.append((a, text.count("\n"), d.idx))
    text += "#[allow(unused_imports)]\nuse vmon::*;\n"
    text += "fn defs() -> Vec<vmon::Def> {\n    let mut v = vmon::support::defs();\n    v.extend(vec![\n"
    last = {d.idx: d for d in defs}
    n = max(last) + 1 if last else 2
    for i in range(2, n):
        if i in last:
            text += last[i].model_text() + "\n"
        else:
            text += '        vmon::Def::parse("-", &[]),\n'
    text += "    ]);\n    v\n}\n"
    for d in defs:
        a = text.count("\n") + 1
        text += "fn run_%d(e: &mut Engine) {\n    let _ = &e;\n%s\n}\n" % (d.idx, "\n".join(subjects.get(d.idx, [])))
        ranges.append((a, text.count("\n"), d.idx))
    text += "fn main() {\n    let mut e = Engine::from_args();\n    e.defs = defs();\n"
    for d in defs:
        text += "    run_%d(&mut e);\n" % d.idx
    text += "    e.finish()\n}\n"
    return text, ranges
