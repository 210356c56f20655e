"""The standard library types the crate documents to cover, with what mapping
over each parameter asks for; shared by the checks on which implementations
exist (C10, C11, C15)."""

from defs import *
from probes import *

# name: (template, parameters, {parameter mapped: what the target needs}, least feature)
# a need is (parameter, side, trait); `A`/`B`: source/target of the mapped one
_B = lambda p, tr: {("tr", p, "B", tr)}
TABLE = {
    "array": ("[{T}; 3]", "T", {"T": set()}, "core"),
    "array0": ("[{T}; 0]", "T", {"T": set()}, "core"),
    "Bound": ("core::ops::Bound<{T}>", "T", {"T": set()}, "core"),
    "Cell": ("core::cell::Cell<{T}>", "T", {"T": set()}, "core"),
    "ControlFlow": ("core::ops::ControlFlow<{T}, {U}>", "TU", {"T": set(), "U": set()}, "core"),
    "Option": ("core::option::Option<{T}>", "T", {"T": set()}, "core"),
    "option::IntoIter": ("core::option::IntoIter<{T}>", "T", {"T": set()}, "core"),
    "PhantomData": ("core::marker::PhantomData<{T}>", "T", {"T": set()}, "core"),
    "Poll": ("core::task::Poll<{T}>", "T", {"T": set()}, "core"),
    "Range": ("core::ops::Range<{T}>", "T", {"T": set()}, "core"),
    "RangeFrom": ("core::ops::RangeFrom<{T}>", "T", {"T": set()}, "core"),
    "RangeInclusive": ("core::ops::RangeInclusive<{T}>", "T", {"T": set()}, "core"),
    "RangeTo": ("core::ops::RangeTo<{T}>", "T", {"T": set()}, "core"),
    "RangeToInclusive": ("core::ops::RangeToInclusive<{T}>", "T", {"T": set()}, "core"),
    "RefCell": ("core::cell::RefCell<{T}>", "T", {"T": set()}, "core"),
    "Result": ("core::result::Result<{T}, {U}>", "TU", {"T": set(), "U": set()}, "core"),
    "result::IntoIter": ("core::result::IntoIter<{T}>", "T", {"T": set()}, "core"),
    "UnsafeCell": ("core::cell::UnsafeCell<{T}>", "T", {"T": set()}, "core"),
    "Box": ("alloc::boxed::Box<{T}>", "T", {"T": set()}, "alloc"),
    "Vec": ("alloc::vec::Vec<{T}>", "T", {"T": set()}, "alloc"),
    "vec::IntoIter": ("alloc::vec::IntoIter<{T}>", "T", {"T": set()}, "alloc"),
    "VecDeque": ("alloc::collections::VecDeque<{T}>", "T", {"T": set()}, "alloc"),
    "vec_deque::IntoIter": ("alloc::collections::vec_deque::IntoIter<{T}>", "T", {"T": set()}, "alloc"),
    "LinkedList": ("alloc::collections::LinkedList<{T}>", "T", {"T": set()}, "alloc"),
    "linked_list::IntoIter": ("alloc::collections::linked_list::IntoIter<{T}>", "T", {"T": set()}, "alloc"),
    "BinaryHeap": ("alloc::collections::BinaryHeap<{T}>", "T", {"T": _B("T", "ord")}, "alloc"),
    "binary_heap::IntoIter": ("alloc::collections::binary_heap::IntoIter<{T}>", "T", {"T": _B("T", "ord")}, "alloc"),
    "BTreeSet": ("alloc::collections::BTreeSet<{T}>", "T", {"T": _B("T", "ord")}, "alloc"),
    "btree_set::IntoIter": ("alloc::collections::btree_set::IntoIter<{T}>", "T", {"T": _B("T", "ord")}, "alloc"),
    "BTreeMap": ("alloc::collections::BTreeMap<{K}, {V}>", "KV", {"K": _B("K", "ord"), "V": {("tr", "K", "", "ord")}}, "alloc"),
    "btree_map::IntoIter": ("alloc::collections::btree_map::IntoIter<{K}, {V}>", "KV", {"K": _B("K", "ord"), "V": {("tr", "K", "", "ord")}}, "alloc"),
    "HashMap": ("std::collections::HashMap<{K}, {V}>", "KV", {"K": _B("K", "hash"), "V": {("tr", "K", "", "hash")}}, "std"),
    "hash_map::IntoIter": ("std::collections::hash_map::IntoIter<{K}, {V}>", "KV", {"K": _B("K", "hash"), "V": {("tr", "K", "", "hash")}}, "std"),
    "HashSet": ("std::collections::HashSet<{T}>", "T", {"T": _B("T", "hash")}, "std"),
    "hash_set::IntoIter": ("std::collections::hash_set::IntoIter<{T}>", "T", {"T": _B("T", "hash")}, "std"),
}


class StdDef(Def):
    def __init__(self, idx, name):
        tmpl, ps, need, self.feature = TABLE[name]
        Def.__init__(self, idx, name, [Param("t", p) for p in ps], [], False)
        self.tmpl = "::" + tmpl if not tmpl.startswith("[") else tmpl
        self._need = need

    def path(self):
        return self.tmpl

    def args(self, subst=None):
        return ""

    def inst(self, subst):
        t = self.tmpl
        for p in self.params:
            t = t.replace("{%s}" % p.name, subst.get(p.name, p.name))
        return t

    def module_text(self):
        return ""

    def build_text(self):
        return ""

    def model_text(self):
        return ""


def std_defs(first=2):
    return [StdDef(first + i, n) for i, n in enumerate(sorted(TABLE))]
