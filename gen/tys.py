"""Type expressions of generated definitions: rendering and reference semantics."""

import re


class T:
    def deps(self):
        return set()

    def keyed(self, p):
        return False

    def nodes(self):
        return [self]


class P(T):
    """A type parameter."""

    def __init__(self, name, text=None):
        self.name, self.text = name, text or name

    def render(self, s):
        return s.get(self.name, self.text)

    def deps(self):
        return {self.name}

    def ty(self, p):
        return "P" if p == self.name else "I"


class Ind(T):
    """A type that depends on no type parameter; text may use lifetimes and consts."""

    def __init__(self, text):
        self.text = text

    def render(self, s):
        t = self.text
        for k, v in s.items():
            if k.startswith("'"):
                t = t.replace(k + " ", v + " ").replace(k + ",", v + ",").replace(k + ">", v + ">")
        return t

    def ty(self, p):
        return "I"


class Raw(T):
    """Depends on a parameter that is not mapped (or not at all as far as the
    mapping is concerned): {name} placeholders."""

    def __init__(self, fmt, names):
        self.fmt, self.names = fmt, names

    def render(self, s):
        t = self.fmt
        for n in self.names:
            t = t.replace("{" + n + "}", s.get(n, n))
        return Ind(t).render(s)

    def deps(self):
        return {n for n in self.names if not n.startswith("'")}

    def ty(self, p):
        return "I"


class Tup(T):
    def __init__(self, elems):
        self.elems = elems

    def render(self, s):
        if len(self.elems) == 1:
            return "(%s,)" % self.elems[0].render(s)
        return "(%s)" % ", ".join(e.render(s) for e in self.elems)

    def deps(self):
        return set().union(*[e.deps() for e in self.elems]) if self.elems else set()

    def ty(self, p):
        if p not in self.deps():
            return "I"
        return "t(%s)" % ",".join(e.ty(p) for e in self.elems)

    def keyed(self, p):
        return any(e.keyed(p) for e in self.elems)

    def nodes(self):
        return [self] + [n for e in self.elems for n in e.nodes()]


class Arr(T):
    def __init__(self, elem, n):
        self.elem, self.n = elem, n

    def render(self, s):
        n = s.get(self.n, self.n)
        return "[%s; %s]" % (self.elem.render(s), n)

    def deps(self):
        return self.elem.deps()

    def ty(self, p):
        return "a(%s)" % self.elem.ty(p) if p in self.deps() else "I"

    def keyed(self, p):
        return self.elem.keyed(p)

    def nodes(self):
        return [self] + self.elem.nodes()


class Wrap(T):
    """Parentheses or the like around a type."""

    def __init__(self, fmt, inner):
        self.fmt, self.inner = fmt, inner

    def render(self, s):
        return self.fmt % self.inner.render(s)

    def deps(self):
        return self.inner.deps()

    def ty(self, p):
        return self.inner.ty(p)

    def keyed(self, p):
        return self.inner.keyed(p)

    def nodes(self):
        return [self] + self.inner.nodes()


class App(T):
    """Named generic type: head text, arguments (T for types, str for anything
    else: lifetimes, consts); `con` is the constructor of the model."""

    def __init__(self, head, args, con, fmt=None, user=None):
        self.head, self.args, self.con, self.fmt, self.user = head, args, con, fmt or "%s<%s>", user

    def render(self, s):
        a = []
        for x in self.args:
            if isinstance(x, T):
                a.append(x.render(s))
            else:
                a.append(s.get(x, x))
        return self.fmt % (self.head, ", ".join(a))

    def targs(self):
        return [x for x in self.args if isinstance(x, T)]

    def deps(self):
        return set().union(*[e.deps() for e in self.targs()]) if self.targs() else set()

    def ty(self, p):
        if p not in self.deps():
            return "I"
        out = []
        for x in self.args:
            if isinstance(x, T):
                out.append(x.ty(p) if p in x.deps() else "_")
            elif not is_life(x):
                out.append("_")
        return "%s(%s)" % (self.con, ",".join(out))

    def keyed(self, p):
        for i, x in enumerate(self.targs()):
            if p in x.deps():
                if self.con in ("h", "os", "hs", "x:NeedsOrd") or (self.con in ("om", "hm") and i == 0):
                    return True
                if x.keyed(p):
                    return True
                if self.user is not None and self.user.slot_keyed(i):
                    return True
        return False

    def nodes(self):
        return [self] + [n for e in self.targs() for n in e.nodes()]


def canon(t, exact):
    """The type whatever way it is written; without its lifetimes unless exact."""
    if isinstance(t, P):
        return t.name
    if isinstance(t, Tup):
        return tuple(canon(e, exact) for e in t.elems)
    if isinstance(t, Arr):
        return ("[]", canon(t.elem, exact), t.n)
    if isinstance(t, Wrap):
        return canon(t.inner, exact)
    if isinstance(t, App):
        h = t.user.idx if t.user is not None else getattr(t, "name", t.head)
        return (h,) + tuple(canon(x, exact) if isinstance(x, T) else x.strip("{} ") if not is_life(x) else x if exact else "'_" for x in t.args)
    x = t.render({})
    return x if exact else re.sub(r"'\w+\b(?!')", "'_", x)


def is_life(x):
    return x.startswith("'") and not x.endswith("'")


def lifetimes_clash(types):
    """Two field types to be mapped that differ in lifetimes and also in the way
    they are written, or are bounded by those: what is generated for them is
    ambiguous or asks for too much (a known finding)."""
    seen = {}
    for t in types:
        for n in t.nodes():
            if isinstance(n, App) and n.deps():
                seen.setdefault(canon(n, False), []).append(n)
    for ns in seen.values():
        if len({canon(n, True) for n in ns}) > 1:
            if len({re.sub(r"'\w+\b(?!')", "'_", n.render({})) for n in ns}) > 1:
                return True
            if any(life_bound(m.user) for n in ns for m in n.nodes() if isinstance(m, App) and m.user is not None):
                return True
    return False


def life_bound(d):
    return "'" in d.where or any("'" in p.bounds for p in d.params) or any(
        life_bound(n.user) for v in d.variants for (_, t, _) in v.fields for n in t.nodes() if isinstance(n, App) and n.user is not None)


# heads: name -> (path, con, argument kinds ('t' or 'k' for keys), usable as a key)
STD = {
    "Vec": ("std::vec::Vec", "s", "t", True),
    "VecDeque": ("std::collections::VecDeque", "s", "t", True),
    "LinkedList": ("std::collections::LinkedList", "s", "t", True),
    "Option": ("std::option::Option", "s", "t", True),
    "Box": ("std::boxed::Box", "s", "t", True),
    "Poll": ("std::task::Poll", "s", "t", False),
    "Bound": ("std::ops::Bound", "s", "t", False),
    "Range": ("std::ops::Range", "s", "t", False),
    "RangeInclusive": ("std::ops::RangeInclusive", "s", "t", False),
    "RangeFrom": ("std::ops::RangeFrom", "s", "t", False),
    "RangeTo": ("std::ops::RangeTo", "s", "t", False),
    "RangeToInclusive": ("std::ops::RangeToInclusive", "s", "t", False),
    "Cell": ("std::cell::Cell", "s", "t", False),
    "RefCell": ("std::cell::RefCell", "s", "t", False),
    "UnsafeCell": ("std::cell::UnsafeCell", "s", "t", False),
    "PhantomData": ("std::marker::PhantomData", "p", "t", True),
    "BinaryHeap": ("std::collections::BinaryHeap", "h", "k", False),
    "BTreeSet": ("std::collections::BTreeSet", "os", "k", True),
    "HashSet": ("std::collections::HashSet", "hs", "k", False),
    "BTreeMap": ("std::collections::BTreeMap", "om", "kt", True),
    "HashMap": ("std::collections::HashMap", "hm", "kt", False),
    "Result": ("std::result::Result", "r", "tt", True),
    "ControlFlow": ("std::ops::ControlFlow", "c", "tt", False),
    "vec::IntoIter": ("std::vec::IntoIter", "s", "t", False),
    "vec_deque::IntoIter": ("std::collections::vec_deque::IntoIter", "s", "t", False),
    "linked_list::IntoIter": ("std::collections::linked_list::IntoIter", "s", "t", False),
    "option::IntoIter": ("std::option::IntoIter", "s", "t", False),
    "result::IntoIter": ("std::result::IntoIter", "s", "t", False),
    "btree_map::IntoIter": ("std::collections::btree_map::IntoIter", "om", "kt", False),
}
PRELUDE = {"Vec", "Option", "Box", "Result"}
CORE_PATHS = {
    "Option": "core::option::Option",
    "Result": "core::result::Result",
    "Range": "core::ops::Range",
    "Bound": "core::ops::Bound",
    "PhantomData": "core::marker::PhantomData",
    "Cell": "core::cell::Cell",
}

IND = ["u8", "i32", "bool", "char", "String", "&'static str", "u64", "(u8, String)", "[u8; 3]", "Vec<u16>", "()",
       "Option<String>", "fn(u8) -> u8", "*const u8", "Box<dyn Fn(u8) -> u8>", "std::marker::PhantomData<fn(u8)>",
       "<vmon::support::Vecs as vmon::support::Family>::Item", "&'static [u8]", "std::marker::PhantomData<dyn Fn(u8)>",
       "Vec<Option<Box<i32>>>", "<Vec<u8> as IntoIterator>::Item"]
IND_KEY = ["u8", "i32", "bool", "char", "String", "&'static str", "u64", "(u8, String)", "[u8; 3]"]
