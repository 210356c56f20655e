"""Identity on values in states that only a history leads to: one program per kind of state."""

PRE = "use funcmap::{FuncMap, TryFuncMap, TypeParam};\nuse std::collections::*;\n"
ID = {"identity": "%s.func_map(|x| x)", "try_identity": "%s.try_func_map(Ok::<_, ()>).unwrap()"}

STATES = {
    "exhausted_inclusive_range": ("let mut r = 0u8..=3; while r.next().is_some() {}", "r"),
    "exhausted_single_inclusive_range": ("let mut r = 7u8..=7; r.next_back();", "r"),
    "consumed_inclusive_range": ("let mut r = 0u8..=9; r.next(); r.next_back(); r.nth(2);", "r"),
    "consumed_range": ("let mut r = 0u8..9; r.next(); r.next_back(); r.nth(2);", "r"),
    "exhausted_range": ("let mut r = 0u8..3; while r.next().is_some() {}", "r"),
    "reversed_ranges": ("let r = 9u8..2;", "r"),
    "reversed_inclusive_range": ("let r = 9u8..=2;", "r"),
    "consumed_range_from": ("let mut r = 3u8..; r.next(); r.nth(4);", "r"),
    "rotated_vec_deque": ("let mut r: VecDeque<u8> = (0..8).collect(); for i in 8..12 { r.pop_front(); r.push_back(i); }", "r"),
    "emptied_vec_deque": ("let mut r: VecDeque<u8> = (0..8).collect(); r.drain(2..6); r.push_front(9);", "r"),
    "emptied_vec": ("let mut r: Vec<u8> = (0..100).collect(); r.truncate(3); r.remove(0);", "r"),
    "split_linked_list": ("let mut r: LinkedList<u8> = (0..8).collect(); let mut t = r.split_off(3); r.pop_front(); r.append(&mut t);", "r"),
    "pruned_tree_set": ("let mut r: BTreeSet<u8> = (0..200).collect(); r.retain(|x| x % 7 == 3); r.split_off(&150);", "r"),
    "pruned_tree_map": ("let mut r: BTreeMap<u8, u8> = (0..200).map(|i| (i, i ^ 5)).collect(); r.retain(|x, _| x % 7 == 3); r.split_off(&150);", "r"),
    "pruned_hash_set": ("let mut r: HashSet<u8> = (0..200).collect(); r.retain(|x| x % 7 == 3); r.shrink_to_fit();", "r"),
    "pruned_hash_map": ("let mut r: HashMap<u8, u8> = (0..200).map(|i| (i, i ^ 5)).collect(); r.retain(|x, _| x % 7 == 3); r.reserve(999);", "r"),
    "inclusive_range_in_an_option": ("let mut q = 0u8..=1; q.next(); let r = Some(q);", "r"),
}


def law_cases():
    out = []
    for name, (make, v) in STATES.items():
        for law, text in ID.items():
            if name == "inclusive_range_in_an_option":
                body = "%s let s = %s; assert_eq!(s, Some(1u8..=1));" % (make, "r.func_map(|q: std::ops::RangeInclusive<u8>| %s)" % (text % "q"))
            else:
                body = "%s let s = %s; assert_eq!(s, %s);" % (make, text % (v + ".clone()"), v)
            if "Map<" in make:
                over = [(law + "_over_%d" % i, body.replace("func_map(", "func_map_over::<TypeParam<%d>, %s_>(" % (i, "_, " if "try" in law else ""))) for i in (0, 1)]
            else:
                over = [(law, body)]
            for law_name, body in over:
                out.append(("%s_%s" % (name, law_name), "2021", PRE + "#[allow(unused_mut)]\nfn main() { %s }\n" % body))
    return out
