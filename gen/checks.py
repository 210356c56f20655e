"""One function per property; each returns the rule behind its counts."""

import os
import random
import re

from runner import *
from defs import *
from rgen import Gen
from probes import *
from laws import *
from big import *
from stdtab import *
from hand import *
from hostile import *
from lints import *
from letters import *
from negative import *
from expand import *
from configs import *
from options import *
from bounds import *
from fuzz import *
from scale import *

STD_BINS = ["std_a", "std_b", "std_c", "std_d", "std_e"]
PLAIN = ["Map", "Over"]
FALL = ["TryOk", "TryOverOk", "Fail", "FailOver"]
KEYED = "BTree,btree_,Hash,hash_,Heap,heap"
ITERS = "IntoIter"
SITE = {"site"}   # only errors outside the derived code matter


def std_run(c, vm, modes, cats, match=None, compile_traits=None, types=None, args=()):
    """The standard library types under the monitor."""
    bins, errs = vm.bins(STD_BINS)
    if errs:
        c.count("std_programs_failing_to_compile", len({e["_target"] for e in errs}))
        if compile_traits:
            mine = [e for e in errs if blame([e]) & compile_traits and (types is None or re.search(types, str(e["message"]) + str(e["spans"])))]
            for e in mine[:3]:
                c.violation("compile:" + first_line([e]), "a standard type can no longer be mapped:\n" + e.get("rendered", ""), {})
    seeds = [c.seed] if not c.thorough() else [c.seed * 1000 + i for i in range(24)]
    jobs = []
    for n in sorted(bins):
        for s in seeds:
            shards = 2 if n == "std_a" else 1
            for k in range(shards):
                a = ["--seed", str(s), "--shard", "%d/%d" % (k, shards), "--modes", ",".join(modes), "--cats", ",".join(cats)]
                if match:
                    a += ["--match", match]
                jobs.append((n, a + list(args)))
    def go(j):
        n, a = j
        return n, a, run_engine(bins[n], a, 600)
    for n, a, rep in pool(JOBS, go, jobs):
        judge(c, rep, "vmon/src/bin/%s.rs" % n, bins[n], a, {})
    if not bins and not c.viol:
        raise EnvError("no program of the standard types compiles\n" + errs[0].get("rendered", ""))


def random_progs(c, n, per, salt, derives=None, rich=True, depth=3, per_subject=1):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = Gen(s)
        for _ in range(per):
            g.one(depth, rich)
        r = random.Random(s + 1)
        for d in g.defs:
            if derives:
                d.derives = derives
        out.append(Prog("rnd%d" % i, g.defs, {d.idx: d.subjects(r, per=per_subject) for d in g.defs}))
    return out


def derived(c, vm, salt, modes, cats, compile_matters, derives=None, n=None, per=None, args=()):
    n = n or c.pick(8, 64)
    progs = random_progs(c, n, per or c.pick(28, 36), salt, derives)
    a = ["--seed", str(c.seed), "--modes", ",".join(modes)] + list(args)
    if c.thorough():
        a += ["--reps", "24", "--points", "8"]
    run_corpus(c, vm, progs, a, cats, compile_matters)
    for p in progs[:2]:
        for d in p.defs[:2]:
            c.sample("definition: " + d.item_text())


def C01(c):
    vm = Vmon().lib()
    std_run(c, vm, PLAIN, ["Calls", "Output"], None, {"FuncMap"}, args=["--reps", str(c.pick(80, 120)), "--again", "4"])
    return ("every supported std type x mapped parameter x element class x generated value (lengths 0..1030, random "
            "capacity, ring-buffer rotation, variants) is mapped with an instrumented closure; calls and result are "
            "compared with a reference model by element identity. Non-trivial: at least one closure call; distinct: "
            "by input seed, mode and ids of visited elements.")


def C02(c):
    vm = Vmon().lib()
    std_run(c, vm, FALL, ["Calls", "Output", "Fail"], None, {"TryFuncMap"}, args=["--reps", str(c.pick(48, 72)), "--again", "2"])
    return ("as C01 with fallible mapping; failures are injected at the first, the last and random calls of each value "
            "(all calls where there are few). Non-trivial: at least one call; distinct: by input, mode, failing call.")


def C03(c):
    vm = Vmon().lib()
    modes = ["Map", "TryOk", "Fail", "FailOver", "Panic", "PanicOver", "TryPanic", "TryPanicOver"]
    std_run(c, vm, modes, ["Owner", "Panic"], args=["--reps", str(c.pick(12, 24))])
    derived(c, vm, 3, modes, ["Owner", "Panic"], None, n=c.pick(6, 40))
    leaks(c, vm)
    return ("std types and generated derived types are mapped with closures that succeed, fail or panic at chosen calls; "
            "a ledger of all births and drops of elements, errors and mapped elements is compared with what the result "
            "contains, after the call and after dropping the result; an allocator that counts checks that no memory stays "
            "behind either. Non-trivial: at least one call; distinct: by input, mode, stopping call.")


def leaks(c, vm):
    """What a call allocates is gone when its result is dropped."""
    bins, errs = vm.bins(["mem"])
    if not bins:
        # a type can no longer be mapped: for other properties to report
        c.count("leak_program_failing_to_compile", len(errs))
        return
    def go(i):
        cmd = [bins["mem"], "--leaks", "1", "--shard", "%d/%d" % (i % 8, 8), "--reps", str(c.pick(12, 60)), "--maxlen", "9",
               "--seed", str(c.seed * 50 + i // 8)]
        return (cmd,) + sh(cmd, 300)
    for cmd, rc, out, err in pool(JOBS, go, range(c.pick(8, 64))):
        merge(c, Report(rc, out, err))
        for f in (l.split("\t") for l in out.splitlines()):
            if f[0] == "BAL":
                c.count("cases_with_balanced_memory", int(f[1]))
            elif f[0] == "LEAK":
                c.violation("leak:%s:%s" % (f[1], f[2]), "%s stay behind, again each time, after %s in a case of %s" % (f[4], f[2], f[3]),
                            {}, " ".join(cmd))
        if rc != 0:
            c.count("leak_runs_ended_early")


def C05(c):
    vm = Vmon().lib()
    modes = PLAIN + FALL + ["Identity", "Compose"]
    std_run(c, vm, modes, ["Calls", "Output", "Valid"], KEYED, {"FuncMap", "TryFuncMap"}, "BTree|Hash|Heap|btree|hash|heap",
            ["--reps", str(c.pick(80, 120)), "--again", "4"])
    return ("sets, heaps, maps and their iterators mapped with key functions that keep, reverse, scramble, merge or equate "
            "keys; the result is probed (lookup, order, peek/pop, lengths) and compared with the model. Non-trivial: at "
            "least one call; distinct: by input, mode and failing call.")


def C06(c):
    vm = Vmon().lib()
    std_run(c, vm, PLAIN + FALL + ["Identity"], ["Calls", "Output", "Valid", "Fail", "Owner"], ITERS, {"FuncMap", "TryFuncMap"},
            "IntoIter", ["--reps", str(c.pick(150, 200)), "--again", "6"])
    return ("owning iterators, consumed by a random number of next() and next_back() calls before mapping; the result is "
            "drained alternately from both ends, with len() and size_hint() checked. Non-trivial: at least one element "
            "left; distinct: by input, mode and failing call.")


def C07(c):
    vm = Vmon().lib()
    modes = ["Identity", "TryIdentity", "Compose", "TryCompose"]
    std_run(c, vm, modes, ["Law"], args=["--reps", str(c.pick(20, 60)), "--again", "3"])
    derived(c, vm, 7, modes, ["Law"], None, n=c.pick(6, 48), args=["--reps", str(c.pick(16, 40))])
    case_progs(c, vm, law_cases())
    return ("for each value of each std and generated derived type: map with the identity and compare, map with f then g "
            "and compare with their composition. Programs of their own do so for values in states that only a history leads to "
            "(consumed ranges, rotated and pruned collections). Non-trivial: at least one closure call, a program; distinct: by "
            "input and law.")


def C08(c):
    vm = Vmon().lib()
    derived(c, vm, 8, PLAIN, ["Calls", "Output"], {"FuncMap"}, n=c.pick(24, 120), args=["--reps", str(c.pick(12, 40))])
    run_corpus(c, vm, big_progs(c, 88, c.pick(1, 8)), ["--seed", str(c.seed), "--modes", ",".join(PLAIN), "--reps", "4"],
               ["Calls", "Output"], {"FuncMap"})
    run_corpus(c, vm, [ProbeProg("clash", clash_defs(2, "FuncMap"), c.seed)], [], [], {"FuncMap"})
    return ("random definitions (structs and enums, arrays, tuples, std and user types nested up to depth 3, lifetimes, "
            "consts, several type parameters; and some that are large: 100 fields, 80 variants, 26 parameters, nested 20 deep) with "
            "random values, each mapped over each parameter under the monitor and "
            "compared with a reference model by element identity. Non-trivial: at least one call; distinct: by value and "
            "visited elements.")


def C09(c):
    vm = Vmon().lib()
    derived(c, vm, 9, FALL, ["Calls", "Output", "Fail"], {"TryFuncMap"}, n=c.pick(24, 120), args=["--reps", str(c.pick(8, 24))])
    run_corpus(c, vm, big_progs(c, 99, c.pick(1, 8)), ["--seed", str(c.seed), "--modes", ",".join(FALL), "--reps", "4"],
               ["Calls", "Output", "Fail"], {"TryFuncMap"})
    run_corpus(c, vm, [ProbeProg("clash", clash_defs(2, "TryFuncMap"), c.seed)], [], [], {"TryFuncMap"})
    return ("as C08 with fallible mapping and failures injected at the first, the last and random calls. Non-trivial: at "
            "least one call; distinct: by value, mode and failing call.")


def C18(c):
    vm = Vmon().lib()
    a = ["--seed", str(c.seed), "--cats", "Law", "--reps", str(c.pick(400, 4000))]
    bins, errs = vm.bins(["std_pairs"])
    if errs:
        # a type can no longer be mapped: for other properties to report
        c.count("std_programs_failing_to_compile")
    jobs = [a + ["--maxlen", n] for n in ("4", "40")] + [a[:-1] + [str(c.pick(40, 400)), "--maxlen", "700"]] if bins else []
    for args, rep in pool(JOBS, lambda x: (x, run_engine(bins["std_pairs"], x, 600)), jobs):
        judge(c, rep, "vmon/src/bin/std_pairs.rs", bins["std_pairs"], args, {})
    progs = random_progs(c, c.pick(14, 120), 28, 118)
    r = random.Random(c.seed * 7 + 3)
    for p in progs + big_progs(c, 118, c.pick(1, 6)):
        p.subjects = {d.idx: d.pairs(r) for d in p.defs}
        if p not in progs:
            progs.append(p)
    run_corpus(c, vm, progs, ["--seed", str(c.seed), "--reps", str(c.pick(12, 40))], ["Law"], None)
    for p in progs[:2]:
        for d in [d for d in p.defs if p.subjects[d.idx]][:2]:
            c.sample("definition: " + d.item_text())
    return ("standard types with two parameters and generated definitions with several are mapped over two of them, in "
            "either order, plainly and fallibly (also with closures that fail for some element), with key functions that "
            "keep keys apart; results, elements visited and success are compared. Non-trivial: both closures called; "
            "distinct: by input, way of mapping and failing closures.")


def C19(c):
    vm = Vmon().lib()
    scale_monitor(c, vm, (lambda r: range(8)) if c.thorough() else (lambda r: [r.randrange(3), r.randrange(3, 6), r.randrange(6, 8)]))
    derive_monitor(c, vm)
    return ("every standard collection and derived types with collections in them, of 2500 and of 20000 elements (arrays: 500 and "
            "4000), are mapped plainly, fallibly and failing, with keys that stay, reverse or scramble the order, under a tool that "
            "counts instructions and hooks that count comparisons, hashes, allocations and the depth of the stack; expansions of "
            "definitions of two sizes are compared in size. Each case counts once.")


# ---- memory safety

def mem_jobs(c, what, mk, shards, timeout):
    def go(i):
        cmd, envv = mk(i)
        rc, out, err = sh(cmd, timeout, os.path.join(VERIF, "vmon"), envv)
        return i, cmd, rc, out, err
    for i, cmd, rc, out, err in pool(JOBS, go, range(shards)):
        rep = Report(rc, out, err)
        ub = re.search(r"(Undefined Behavior: .*|ERROR: AddressSanitizer.*|error: unsupported operation.*|memory allocation of .*|.*unsafe precondition.*|.*has overflowed its stack)", err)
        case = re.findall(r"^CASE (.*)$", err, re.M)
        at = case[-1] if case else "?"
        merge(c, rep)
        c.count(what + "_cases", rep.sum.get("cases", 0))
        for k in ("failed", "panicked", "plain_ok"):
            c.count(what + "_" + k, rep.sum.get(k, 0))
        c.nontrivial += len(rep.types)
        if len(case) > 3:
            c.sample("%s shard %d: %s" % (what, i, case[(i * 131 + 17) % len(case)]))
        if ub and "unsupported operation" in ub.group(1):
            raise EnvError(ub.group(1) + err[-1500:])
        if ub or (rc is not None and rc < 0):
            c.violation("%s:%s" % (what, (ub.group(1) if ub else "signal %d" % -rc)[:80].replace(" ", "_")),
                        "%s reports at case %s:\n%s" % (what, at, tail_from(err, ub.group(1) if ub else "")), {}, " ".join(cmd))
        elif rc is None:
            c.violation("%s:hang" % what, "%s: does not end, at case %s" % (what, at), {}, " ".join(cmd))
        elif rc != 0 or not rep.ended:
            if "error: could not compile" in err or "error[E" in err or "no such command" in err:
                c.incomplete = err[-2500:]
            else:
                # an ordinary panic: other properties' business, unless nothing ran
                c.count(what + "_runs_ended_by_panic")
                c.log("%s shard %d ended with %s at %s: %s" % (what, i, rc, at, err[-400:]))


def tail_from(err, s):
    k = err.find(s)
    return err[max(0, k - 200):k + 2500] if k >= 0 else err[-2500:]


def C04(c):
    c.incomplete = None
    crate = os.path.join(VERIF, "vmon")
    # AddressSanitizer
    host = "x86_64-unknown-linux-gnu"
    ea = env("nightly", CARGO_TARGET_DIR=os.path.join(WORK, "asan"))
    ea["RUSTFLAGS"] = "--cap-lints warn -Zsanitizer=address"
    ea["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"
    rc, arts, errs, err = cargo_json(["cargo", "build", "--offline", "--target", host, "--bin", "mem"], crate, ea)
    exe = [a["executable"] for a in arts if a.get("executable")]
    if rc == 0 and exe:
        for s in range(c.pick(3, 30)):
            mem_jobs(c, "asan", lambda i: ([exe[0], "--shard", "%d/8" % i, "--reps", "40", "--maxlen", "9", "--seed", str(c.seed * 100 + s)], ea), 8, 300)
    else:
        c.incomplete = (errs[0].get("rendered", "") if errs else "") + err[-2000:]
    # Miri
    for flags in c.pick(["-Zmiri-ignore-leaks"], ["-Zmiri-ignore-leaks", "-Zmiri-ignore-leaks -Zmiri-tree-borrows",
                                                  "-Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check -Zmiri-strict-provenance",
                                                  "-Zmiri-ignore-leaks -Zmiri-randomize-struct-layout"]):
        if "randomize" in flags:
            flags = "-Zmiri-ignore-leaks"
            more = " -Zrandomize-layout"
        else:
            more = ""
        em = env("nightly", CARGO_TARGET_DIR=os.path.join(WORK, "miri"), MIRIFLAGS=flags)
        em["RUSTFLAGS"] += more
        if not os.path.isdir(os.path.expanduser("~/.cache/miri")):
            sh(["cargo", "miri", "setup"], 300, crate, em)
        # the first shard builds, the others wait for it
        base = ["cargo", "miri", "run", "--offline", "--quiet", "--bin", "mem", "--"]
        sh(base + ["--shard", "99/100", "--only", "none"], 400, crate, em)
        for s in range(c.pick(1, 6)):
            mem_jobs(c, "miri", lambda i: (base + ["--shard", "%d/%d" % (i, 8), "--seed", str(c.seed * 10 + s)] +
                                           (["--reps", "2", "--maxlen", "5"] if s else []), em), 8, 800)
    if c.evals == 0 and not c.viol:
        raise EnvError("nothing ran: %s" % c.incomplete)
    c.assume.append("Miri's and AddressSanitizer's verdicts are the oracle; leaks are not counted here")
    return ("arrays of lengths 0..100, all std types and some derived types over element types of various layout (niches, "
            "over-aligned, zero-sized, owning, destructors that panic) mapped with closures that succeed, fail or panic "
            "at every call, also re-entrantly and from threads, interpreted by Miri and run under AddressSanitizer. "
            "distinct_nontrivial counts the (type, element type) pairs run per tool and shard.")


def probe_progs(c, n, per, salt, special=0.12, bounds=0.25, limit=10, cls=None):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = (cls or ProbeGen)(s, special=special, bounds=bounds)
        for _ in range(per):
            g.one(3, True)
        out.append(ProbeProg("prb%d" % i, g.defs, s, limit=limit))
    return out


def std_probe_prog(c, hand=()):
    return ProbeProg("stdtab", std_defs() + list(hand), c.seed, limit=c.pick(24, 64))


class Layout(Gen):
    """Definitions with several parameters in all kinds of order."""

    default_share = 0.5

    def params(self, rich):
        r = self.r
        nt = r.choice([2, 2, 2, 3, 3, 4, 5])
        nc = r.choice([0, 1, 1, 2, 3])
        nl = r.choice([0, 0, 1, 2])
        names = r.sample(UP, nt + nc)
        mix = [Param("t", n) for n in names[:nt]] + [
            Param("c", n, vals=["0", "1", "2"]) if r.random() < 0.7 else Param("c", n, cty="bool", vals=["true", "false"]) for n in names[nt:]]
        r.shuffle(mix)
        return [Param("l", "'" + n) for n in r.sample("abcxyz", nl)] + mix


class LayoutProbes(ProbeGen):
    params = Layout.params
    default_share = 0.5


HASHER = "::vmon::probe::OtherState"


def hasher_defs(first):
    out = []
    k, m = "::vmon::probe::Pe<3>", "::vmon::probe::Pe<7>"
    for tr in ("FuncMap", "TryFuncMap"):
        for (name, src, dst, mk) in (
                ("HashMap over K", "HashMap<%s, u8, S>" % k, "HashMap<%s, u8, S>" % m, 0),
                ("HashMap over V", "HashMap<u8, %s, S>" % k, "HashMap<u8, %s, S>" % m, 1),
                ("HashSet", "HashSet<%s, S>" % k, "HashSet<%s, S>" % m, 0)):
            src = "::std::collections::" + src.replace("S>", HASHER + ">")
            dst = "::std::collections::" + dst.replace("S>", HASHER + ">")
            b = "::vmon::funcmap::%s<%s, %s, ::vmon::funcmap::TypeParam<%d>" % (tr, k, m, mk)
            out.append(("%s: %s keeps the hasher's type" % (name, tr), "vmon::probe!(%s: %s>)" % (src, b), src, "%s, Output = %s>" % (b, dst)))
    return HandDef(first, "", out)


def hasher_bound_defs(first):
    """Nothing is asked of the hasher of what is mapped."""
    out, fns = [], ""
    k, m = "::vmon::probe::Pe<3>", "::vmon::probe::Pe<7>"
    for s in ("u8", "::vmon::probe::Pe<0>", HASHER, "::std::string::String"):
        for tr in ("FuncMap", "TryFuncMap"):
            for (t, mk, yes) in (("HashMap<{k}, {e}, {s}>", 0, True), ("HashMap<{o}, {k}, {s}>", 1, True), ("HashMap<{e}, {e}, {k}>", 2, False),
                                 ("HashSet<{k}, {s}>", 0, True), ("HashSet<{o}, {k}>", 1, False), ("HashMap<{e}, {k}, {s}>", 1, False)):
                t = "::std::collections::" + t.format(k=k, s=s, e="::vmon::probe::Pe<0>", o="::vmon::probe::Pe<2>")
                out.append(("%s<over %d>: %s" % (t.replace("::", "."), mk, tr), yes, t, "::vmon::funcmap::%s<%s, %s, ::vmon::funcmap::TypeParam<%d>>" % (tr, k, m, mk)))
    for i, (gs, src, dst, w, mk) in enumerate((
            ("K, V", "HashMap<K, V, StateT>", "HashMap<DstT, V>", "DstT: Eq + ::core::hash::Hash", 0), ("K", "HashMap<K, SrcT, StateT>", "HashMap<K, DstT>", "K: Eq + ::core::hash::Hash", 1),
            ("K", "HashSet<K, StateT>", "HashSet<DstT>", "DstT: Eq + ::core::hash::Hash", 0))):
        a = "SrcT" if mk else "K"
        g = gs + (", SrcT" if mk else "") + ", DstT, StateT"
        src, dst = "::std::collections::" + src, "::std::collections::" + dst
        fns += "fn hb%d<%s, FnT: FnMut(%s) -> DstT>(x: %s, f: FnT) -> usize where %s { ::vmon::funcmap::FuncMap::<%s, DstT, ::vmon::funcmap::TypeParam<%d>>::func_map(x, f); 0 }\n" % (i, g, a, src, w, a, mk)
        fns += "fn ht%d<%s, ErrT, FnT: FnMut(%s) -> ::core::result::Result<DstT, ErrT>>(x: %s, f: FnT) -> bool where %s { ::vmon::funcmap::TryFuncMap::<%s, DstT, ::vmon::funcmap::TypeParam<%d>>::try_func_map(x, f).is_ok() }\n" % (i, g, a, src, w, a, mk)
    return HandDef(first, "", out, fns, "hasher")


def C10(c):
    vm = Vmon().lib()
    std_run(c, vm, PLAIN + ["TryOk", "TryOverOk", "FailOver"], ["Select", "Over"], None, None, None, ["--reps", str(c.pick(6, 24))])
    progs = []
    for i in range(c.pick(16, 96)):
        s = c.seed * 100003 + 10 * 1009 + i
        g = Layout(s)
        for _ in range(c.pick(24, 32)):
            g.one(2, True)
        r = random.Random(s + 1)
        progs.append(Prog("lay%d" % i, g.defs, {d.idx: d.subjects(r) for d in g.defs}))
    a = ["--seed", str(c.seed), "--modes", ",".join(PLAIN + ["TryOk", "TryOverOk", "FailOver"]), "--reps", str(c.pick(8, 24))]
    run_corpus(c, vm, progs, a, ["Select", "Over"], SITE)
    run_corpus(c, vm, probe_progs(c, c.pick(16, 96), c.pick(20, 28), 1010, 0, 0, cls=LayoutProbes), [], [], SITE)
    run_corpus(c, vm, [std_probe_prog(c, [hasher_defs(900)])], [], [], SITE)
    return ("definitions with 2 to 5 type parameters, const parameters and lifetimes in random order, with the same element "
            "type in several of them, and all std types: which elements are visited and replaced is compared with those of "
            "the parameter the marker stands for; marker methods against trait methods on the same input; trait probes for "
            "every position incl. const, missing and default ones, with the output type. distinct_nontrivial counts runs "
            "with a closure call and distinct probes.")


def C11(c):
    vm = Vmon().lib()
    progs = probe_progs(c, c.pick(96, 400), c.pick(20, 30), 11, limit=c.pick(10, 16))
    progs.append(std_probe_prog(c, [hasher_bound_defs(901)]))
    progs.append(ProbeProg("hand", hand_defs(), c.seed))
    run_corpus(c, vm, progs, [], [], {"FuncMap", "TryFuncMap"})
    return ("random definitions with bounds and with field types that can be mapped for no, for some or only fallibly for "
            "some element types, families with unsized and unmappable fields, and all std types: the compiler is asked "
            "through probes whether implementations exist for element types with chosen traits and compared with an oracle "
            "computed from the definition; functions generic in everything, with minimal bounds, are compiled. "
            "distinct_nontrivial counts distinct probes.")


EDITIONS = ["2015", "2018", "2021", "2021", "2024"]


def hostile_progs(c, n, per, salt):
    out = []
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        kind = i % 4
        ed = EDITIONS[i % 5]
        g = (Macroed if kind in (1, 3) else InFnGen if kind == 2 else Hostile)(s, edition=ed)
        for _ in range(per):
            g.one(2, True)
        r = random.Random(s + 1)
        subj = {}
        for d in g.defs:
            subj[d.idx] = d.subjects(r)
            if d.infn:
                d.local, subj[d.idx] = subj[d.idx], ["    crate::%s::run(e);" % d.mod()]
            for k in d.scopes:
                c.count("scope_" + k)
        out.append(Prog("hst%d" % i, g.defs, subj, ed))
        c.count("definitions_edition_" + ed, per)
        c.count("definitions_" + type(g).__name__, per)
    return out


def all_lints(vm):
    rc, out, err = sh(["rustc", "-W", "help"], 60, None, vm.envv)
    names = []
    for line in out.splitlines():
        m = re.match(r"\s+([a-z0-9-]+)\s+(allow|warn|deny)\s", line)
        if m and m.group(1) != "name":
            names.append(m.group(1))
    return sorted(set(names))


def lint_monitor(c, vm, n, per, salt, driver="rustc", lints=None, flags=(), what="lints"):
    lints = lints if lints is not None else all_lints(vm)
    c.cov[what + "_enabled" if driver == "rustc" else "clippy_lint_groups"] = len(lints)
    progs = []
    for e, items in (("2021", HAND), ("2015", HAND + OLD + ROOT), ("2018", HAND + OLD), ("2024", HAND)):
        items = [Text(i, t) for i, t in enumerate(items)]
        if c.thorough() or True:
            progs += [("hand%s_%d" % (e, k), e, items[k::4]) for k in range(4)]
    for i in range(n):
        s = c.seed * 100003 + salt * 1009 + i
        g = (Hostile if i % 2 else Gen)(s, **({"edition": EDITIONS[i % 5]} if i % 2 else {}))
        g.allows = False
        for _ in range(per):
            g.one(2, True)
        ds = [d for d in g.defs if not any("Make" in x for x in [d.post])]
        progs.append(("gen%d" % i, EDITIONS[i % 5] if i % 2 else "2021", [FromDef(d) for d in g.defs]))

    def one(job):
        name, ed, items = job
        d = os.path.join(c.dir, what + "_" + name)
        os.makedirs(d, exist_ok=True)
        res = {}
        texts = {}
        for _ in range(4):
            bad = set()
            for on in (True, False):
                text, ranges = lint_program(items, ed, "", on)
                texts[on] = text
                with open(os.path.join(d, "main.rs"), "w") as f:
                    f.write(text)
                diags, err, rc = lint_run(vm, driver, d, ed, lints, flags)
                if rc is None:
                    raise EnvError("timeout of " + driver)
                res[on] = diags
                for e in errors(diags):
                    ls, _ = lines_of(e)
                    hit = [it for a, b, it in ranges for ln in ls if a <= ln <= b]
                    bad |= set(id(x) for x in hit) or {None}
                if bad:
                    break
            if not bad:
                break
            if None in bad:
                return name, ed, None, [], texts, len(items)
            items = [x for x in items if id(x) not in bad]
        else:
            return name, ed, None, [], texts, len(items)
        def keys(diags):
            out = {}
            for dg in diags:
                code = (dg.get("code") or {}).get("code")
                if not code or dg["level"] not in ("warning", "error"):
                    continue
                ls, _ = lines_of(dg)
                for ln in ls[:1] or [0]:
                    out.setdefault((code, ln), []).append(dg)
            return out
        a, b = keys(res[True]), keys(res[False])
        # (the options themselves are gone from the definition alone)
        own = {n for n, ln in enumerate(texts[True].split("\n"), 1) if ln.strip().startswith("#[funcmap")}
        extra = [(k, dg) for k, ds in a.items() if k not in b and k[1] not in own for dg in ds[:1]]
        seen = len(b)
        def label(ln):
            return ([it.label() for x, y, it in ranges if x <= ln <= y] or ["?"])[0]
        return name, ed, seen, [(k, label(k[1]), dg, text_at(texts[True], k[1])) for k, dg in extra], texts, len(items)

    for name, ed, seen, extra, texts, k in pool(JOBS, one, progs):
        if seen is None:
            c.count(what + "_programs_not_compiling")
            continue
        c.count(what + "_definitions", k)
        c.count(what + "_warnings_of_the_definitions_alone", seen)
        with c.lock:
            c.evals += k
            c.nontrivial += k
        for (code, ln), lab, dg, at in extra:
            c.violation("lint:%s:%s" % (code, lab), "with the derives there is a warning (edition %s) that the definition alone does not cause:\n%s\n\n%s" % (
                ed, at, dg.get("rendered")), {"main.rs": texts[True]})


def text_at(text, ln):
    ls = text.split("\n")
    a = ln - 1
    while a > 0 and not ls[a].startswith("pub mod"):
        a -= 1
    return "\n".join(ls[a:ln + 1])


def lint_run(vm, driver, d, ed, lints, flags):
    cmd = [driver, "--edition", ed, "--crate-name", "prog", "--error-format=json", "--emit=metadata", "--out-dir", d, "-Cdebuginfo=0",
           "-L", "dependency=" + vm.deps, os.path.join(d, "main.rs")]
    for x in ("funcmap", "vmon"):
        cmd += ["--extern", "%s=%s" % (x, vm.rlib[x])]
    cmd += ["-W" + x for x in lints] + list(flags)
    rc, o, err = sh(cmd, 240, d, vm.envv)
    return diagnostics(err), err, rc


def C12(c):
    vm = Vmon().lib()
    a = ["--seed", str(c.seed), "--modes", ",".join(PLAIN + FALL), "--reps", str(c.pick(4, 16))]
    run_corpus(c, vm, hostile_progs(c, c.pick(20, 160), c.pick(24, 28), 12), a, ["Calls", "Output", "Fail", "Select"], {"FuncMap", "TryFuncMap"})
    lets = letter_defs(2, random.Random(c.seed * 7919 + 12))
    run_corpus(c, vm, [ProbeProg("names%d" % k, lets[k::8], c.seed, e) for k, e in enumerate(["2018", "2021", "2024", "2021"] * 2)], [], [], {"FuncMap", "TryFuncMap"})
    lint_monitor(c, vm, c.pick(8, 48), 16, 1212)
    # a newer compiler and clippy
    new = Vmon("stable", "stable").lib()
    lint_monitor(c, new, c.pick(4, 24), 16, 1213, what="lints_new")
    lint_monitor(c, new, 0, 0, 0, "clippy-driver", ["clippy::all", "clippy::pedantic", "clippy::nursery", "clippy::restriction"], what="clippy")
    case_progs(c, vm, CASES)
    return ("generated definitions whose types, parameters, fields and variants bear hostile names (keywords, names that the "
            "generated code itself uses, prelude names), in scopes full of like-named items and methods, without prelude, in "
            "functions, through macro_rules in several forms, in all editions: they have to compile and are run under the "
            "monitor against the reference model; definitions are compiled with and without the derives with every rustc "
            "lint enabled, and warnings compared. distinct_nontrivial counts runs with a closure call, definitions compared "
            "for warnings and programs of their own.")


def case_progs(c, vm, cases):
    """Small programs that have to compile (and run), each identified by its key."""
    def go(x):
        key, ed, text = x
        d = os.path.join(c.dir, "case_" + key)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "main.rs")
        with open(src, "w") as f:
            f.write(text)
        rc, diags, err = vm.rustc(src, os.path.join(d, "prog"), ed, [], ("funcmap",))
        if rc is None:
            raise EnvError("rustc timed out")
        if rc == 0:
            r = sh([os.path.join(d, "prog")], 60, d)
            return x, None if r[0] == 0 else "runs into %s\n%s" % (r[0], r[2])
        return x, "does not compile\n" + "\n".join(e.get("rendered") or e["message"] for e in errors(diags)[:3])
    for (key, ed, text), bad in pool(JOBS, go, cases):
        c.count("programs_of_their_own")
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        if bad:
            c.violation("case:" + key, "edition %s: %s\n\n%s" % (ed, bad, text), {"main.rs": text})


def C13(c):
    vm = Vmon().lib()
    neg_monitor(c, vm, c.pick(800, 4800), 40, 13)
    single_monitor(c, vm)
    progs = []
    for i in range(c.pick(40, 320)):
        ed = ["2021", "2018", "2015", "2024"][i % 4]
        r = random.Random(c.seed * 100003 + 1313 * 1009 + i)
        progs.append(ProbeProg("pos%d" % i, positive_defs(r, 2, 24, ed), c.seed, ed, fns=False))
    run_corpus(c, vm, progs, [], [], {"FuncMap", "TryFuncMap"})
    fuzz_monitor(c, vm, c.pick(96, 960), 24, 1300)
    return ("generated definitions with one or several offending places (options, parameters, attributes, unions, fields with "
            "unsupported types at any depth), each of which is marked: every error of the compiler is compared with the marks; "
            "definitions with Drop implementations, type macros and wrong crate paths of their own; and definitions with the "
            "same constructs away from the mapped parameter, which have to compile and are probed for implementations; and definitions "
            "from a wide grammar of what may be written, valid or not, which are to be accepted or rejected accordingly, and never make "
            "the macros panic. "
            "distinct_nontrivial counts offending definitions judged and distinct probes.")


def C14(c):
    vm = Vmon().lib()
    expansion_monitor(c, vm, c.pick(42, 210), c.pick(14, 24), 14, c.pick(2, 6))
    return ("the code that the macros generate is recorded for generated definitions (with hostile names, through macros, and ones "
            "that are rejected, with their errors) and compared: in other processes, orders, subsets, several times in one "
            "compilation, with other environment variables, flags, crate and file names, with macros built differently, "
            "with each derive alone. distinct_nontrivial counts expansions compared with an earlier one of the same definition.")


def bare_table(c, vm, config):
    """Probes of what a configuration implements, and the programs that link
    nothing but core (and alloc)."""
    d = os.path.join(c.dir, "conf_" + config)
    os.makedirs(d)
    p = ConfTable(config)
    text = p.text_()
    src = os.path.join(d, "main.rs")
    with open(src, "w") as f:
        f.write(text)
    rc, diags, err = vm.rustc(src, os.path.join(d, "prog"), "2021", ["-Awarnings"])
    if rc != 0:
        c.violation("table:%s:compile" % config, "an output type is not what it should be in configuration %s:\n%s" % (
            config, "\n".join(e.get("rendered") or "" for e in errors(diags)[:4])), {"main.rs": text})
    else:
        judge(c, run_engine(os.path.join(d, "prog"), []), "table of configuration " + config, os.path.join(d, "prog"), [], {"main.rs": text}, config + ":")
    if config == "std":
        return
    text = proof_program(config)
    for n, flags in (("debug", []), ("release", ["-O"])):
        src, out = os.path.join(d, "proof.rs"), os.path.join(d, "proof_" + n)
        with open(src, "w") as f:
            f.write(text)
        rc, diags, err = vm.rustc(src, out, "2021", ["-Awarnings", "-Cpanic=abort"] + flags, ("funcmap",))
        c.count("programs_without_std")
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        if rc is None:
            raise EnvError("rustc timed out")
        if rc != 0:
            c.violation("proof:%s:build" % config, "a program that has no more than %s does not build with configuration %s:\n%s" % (
                config, config, "\n".join(e.get("rendered") or "" for e in errors(diags)[:4]) or err[-2000:]), {"main.rs": text})
            return
        rc, o, e = sh([out], 60, d)
        if rc != 0:
            c.violation("proof:%s:run" % config, "a program that has no more than %s ends with %s, the number of the failing assertion (100 and up: alloc types)" % (
                config, rc), {"main.rs": text})


def config_warnings(c, configs):
    """Warnings of the crate's own build that the default configuration does not have."""
    def one(x):
        config, feats = x
        e = env(CARGO_TARGET_DIR=os.path.join(WORK, "conf_warn_" + config))
        e["RUSTFLAGS"] = ""
        cmd = ["cargo", "build", "--offline", "--lib", "--no-default-features"] + (["--features", feats] if feats else [])
        rc, out, err = sh(cmd + ["--message-format=json"], 600, os.path.join(REPO, "funcmap"), e)
        seen = {}
        for line in out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] in ("warning", "error") and m["message"]["spans"]:
                g = m["message"]
                s = [s for s in g["spans"] if s["is_primary"]] or g["spans"]
                seen[((g.get("code") or {}).get("code") or g["level"], s[0]["file_name"], s[0]["line_start"])] = g["rendered"]
        return config, rc, seen, err
    res = pool(3, one, configs)
    std = [r for r in res if r[0] == "std"][0]
    if std[1] != 0:
        raise EnvError("funcmap does not build in its default configuration\n" + std[3][-2000:])
    for config, rc, seen, err in res:
        c.count("configurations_built")
        c.cov["warnings_of_the_crate_in_" + config] = len(seen)
        with c.lock:
            c.evals += 1
        if rc != 0:
            c.violation("build:" + config, "the crate does not build in configuration %s:\n%s\n%s" % (config, "\n".join(seen.values())[:3000], err[-2000:]), {})
            continue
        for k in sorted(set(seen) - set(std[2])):
            c.violation("warning:%s:%s" % (config, k[0]), "configuration %s has a warning that the default one has not:\n%s" % (config, seen[k]), {})


def C15(c):
    config_warnings(c, CONFIGS)
    if c.viol:
        return "the crate's own build"
    for config, feats in CONFIGS:
        vm = Vmon(target="conf_" + config, features=feats).lib()
        bare_table(c, vm, config)
        if config == "std":
            continue
        names, binary = ["cfg_core"] + (["cfg_alloc"] if config == "alloc" else []), None
        bins, errs = vm.bins(names)
        if errs:
            c.violation("cfg:%s:compile" % config, "types of configuration %s cannot be mapped:\n%s" % (config, errs[0].get("rendered")), {})
        modes = PLAIN + FALL + ["Identity", "Compose", "Panic", "TryPanic"]
        cats = ["Calls", "Output", "Fail", "Valid", "Owner", "Panic", "Law", "Select"]
        a = ["--seed", str(c.seed), "--modes", ",".join(modes), "--cats", ",".join(cats), "--reps", str(c.pick(3, 40))]
        for n in bins:
            judge(c, run_engine(bins[n], a, 600), "vmon/src/bin/%s.rs" % n, bins[n], a, {}, config + ":")
        run_corpus(c, vm, conf_progs(c, config, c.pick(4, 40), c.pick(24, 32), 15 + LEVEL[config] * 100),
                   ["--seed", str(c.seed), "--modes", ",".join(PLAIN + FALL), "--reps", str(c.pick(4, 16))],
                   ["Calls", "Output", "Fail", "Select"], {"FuncMap", "TryFuncMap"}, config + ":")
        # these are only built: what they refer to has to be there
        run_bare(c, vm, bare_progs(c, config, c.pick(8, 80), c.pick(24, 32), 1515 + LEVEL[config] * 100), config)
    return ("for each configuration: the crate's own build, with its warnings; programs without std (and without an allocator) "
            "that link libc alone, one mapping every type with assertions, the others with generated definitions used by generic "
            "functions, in all editions; a table of which types are mapped; and the monitor's engine over std types and generated "
            "definitions built with that configuration. distinct_nontrivial counts runs with a closure call, distinct probes and "
            "definitions compiled without std.")


def run_bare(c, vm, progs, config):
    def one(p):
        return p, build_prog(vm, c, p, ("funcmap",))
    for p, binary in pool(JOBS, one, progs):
        c.count("programs_without_std")
        c.count("definitions_without_std", len(p.defs))
        with c.lock:
            c.evals += len(p.defs)
            c.nontrivial += len(p.defs) - len(p.failed)
        for d, errs in p.failed:
            c.violation("bare:%s:%s" % (config, first_line(errs)), "a definition in a crate with no more than %s does not compile (edition %s):\n\n%s\n\n%s" % (
                config, p.edition, d.module_text() if d is not None else "(whole program)",
                "\n".join(e.get("rendered") or e["message"] for e in errs[:4])), {"main.rs": p.render([x for x in p.defs if d is None or x.idx in needed(d)])[0]})
        for d in p.defs[:1]:
            c.sample("without std: " + d.item_text())


def wrapped(c, vm):
    """A crate whose macros derive in its users' crates, across editions."""
    d = os.path.join(c.dir, "wrap")
    os.makedirs(d)
    for n, t in (("wrap.rs", WRAP_LIB), ("main.rs", WRAP_USE)):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    libs = {}
    def lib(ed):
        o = os.path.join(d, ed)
        os.makedirs(o)
        rc, out, err = sh(["rustc", "--edition", ed, "--crate-name", "wrap", "--crate-type", "lib", "-Cdebuginfo=0", "-L", "dependency=" + vm.deps,
                           "--extern", "funcmap=" + vm.rlib["funcmap"], os.path.join(d, "wrap.rs"), "-o", os.path.join(o, "libwrap.rlib")], 120, d, vm.envv)
        if rc != 0:
            raise EnvError("crate of macros: " + err[-1500:])
        libs[ed] = os.path.join(o, "libwrap.rlib")
    pool(4, lib, ALL)
    def go(x):
        a, b = x
        out = os.path.join(d, "prog_%s_%s" % (a, b))
        rc, o, err = sh(["rustc", "--edition", b, "--error-format=json", "--crate-name", "prog", "-Cdebuginfo=0", "-L", "dependency=" + vm.deps, "--extern", "wrap=" + libs[a],
                         os.path.join(d, "main.rs"), "-o", out], 120, d, vm.envv)
        if rc == 0:
            rc2, o, err = sh([out], 60, d)
            return x, None if rc2 == 0 else "ends with %s\n%s" % (rc2, err)
        return x, "does not compile\n" + "\n".join(e.get("rendered") or "" for e in errors(diagnostics(err))[:4])
    for (a, b), bad in pool(JOBS, go, [(a, b) for a in ALL for b in ALL]):
        c.count("programs_deriving_through_another_crate")
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        if bad:
            c.violation("wrap:%s:%s" % (a, b), "a crate's macros (edition %s) used in edition %s: %s" % (a, b, bad), {"wrap.rs": WRAP_LIB, "main.rs": WRAP_USE})


def rejected_with_path(c, vm, ext):
    """Whatever the path, types that implement Drop are rejected."""
    def go(job):
        k, pre, path, ed, tr = job
        d = os.path.join(c.dir, "rej%d" % k)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "main.rs")
        text = ("#![allow(dead_code, unused)]\nextern crate renamed;\nextern crate vmon;\nextern crate core;\n" + FACADES + "mod m {\n" + pre + "\n#[derive(::renamed::%s)]\n"
                "#[funcmap(crate = \"%s\", params(T))]\npub struct D<T, U>(pub T, pub fn(U));\nimpl<T, U> Drop for D<T, U> { fn drop(&mut self) {} }\n}\nfn main() {}\n") % (tr, path)
        with open(src, "w") as f:
            f.write(text)
        rc, diags, err = vm.rustc(src, os.path.join(d, "prog"), ed, ["-Awarnings"], ext)
        return path, tr, text, rc, errors(diags)
    jobs = []
    for pre, path, eds in PATHS:
        for tr in ("FuncMap", "TryFuncMap"):
            jobs.append((len(jobs), pre, path, eds[len(jobs) % len(eds)], tr))
    for path, tr, text, rc, errs in pool(JOBS, go, jobs):
        if rc is None:
            raise EnvError("rustc timed out")
        c.count("definitions_with_drop")
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        if not any(code_of(e) == "E0119" and "Drop" in (e.get("rendered") or "") for e in errs):
            c.violation("drop:%s:%s" % (path, tr), "a type that implements Drop, with crate = %s, is to be rejected by derive(%s) because of that; errors:\n%s\n\n%s" % (
                path, tr, "\n".join(e.get("rendered") or e["message"] for e in errs) or "(none)", text), {"main.rs": text})


def code_of(e):
    return (e.get("code") or {}).get("code")


def C16(c):
    vm = Vmon().lib()
    ext = ("renamed=funcmap", "vmon")
    both = {"FuncMap", "TryFuncMap"}
    a = ["--seed", str(c.seed), "--modes", ",".join(PLAIN + FALL), "--reps", str(c.pick(4, 16))]
    run_corpus(c, vm, option_progs(c, c.pick(24, 128), c.pick(24, 32), 16, True), a, ["Calls", "Output", "Fail", "Select"], both, externs=ext)
    run_corpus(c, vm, option_progs(c, c.pick(32, 128), c.pick(20, 28), 1616, False), [], [], both, externs=ext)
    wrapped(c, vm)
    rejected_with_path(c, vm, ext)
    # which of two instances of the crate a path selects
    second = Vmon(target="second", extra={"RUSTFLAGS": "--cap-lints warn -Cmetadata=second"}).lib()
    vm.rlib["second"] = second.rlib["funcmap"]
    progs = two_progs(c, c.pick(3, 30), c.pick(24, 32), 1717)
    for p in progs:
        p.flags.append("-Ldependency=" + second.deps)
    run_corpus(c, vm, progs, [], [], both, externs=("funcmap", "second", "vmon"))
    for p in progs[:1]:
        for d in p.defs[:2]:
            c.sample("definition: " + d.item_text())
    progs = [ProbeProg("unl%d" % i, positive_defs(random.Random(c.seed * 100003 + 1818 * 1009 + i), 2, 24, "2021"), c.seed, "2021", fns=False) for i in range(c.pick(4, 48))]
    run_corpus(c, vm, progs, [], [], both)
    return ("definitions with every subset of up to 4 type parameters listed, in arguments and attributes of many notations, with "
            "fields that are unsupported for the others, in programs that reach the crate under other names only and have decoys of "
            "its own: compiled, probed for implementations over every parameter, and run under the monitor; the same with two "
            "instances of the crate, probed for which one's traits are implemented; and through macros of another crate in all pairs "
            "of editions. distinct_nontrivial counts runs with a closure call and distinct probes.")


def C17(c):
    vm = Vmon().lib()
    both = {"FuncMap", "TryFuncMap"}
    a = ["--seed", str(c.seed), "--modes", ",".join(PLAIN + FALL), "--reps", str(c.pick(3, 12))]
    run_corpus(c, vm, bound_progs(c, c.pick(16, 128), c.pick(24, 32), 17, True), a, ["Calls", "Output", "Fail", "Select"], both)
    progs = bound_progs(c, c.pick(32, 192), c.pick(24, 32), 1717, False)
    run_corpus(c, vm, progs, [], [], both | SITE)
    case_progs(c, vm, bound_cases())
    fuzz_monitor(c, vm, c.pick(64, 640), 24, 1700, True, ("accept",))
    for p in progs[:2]:
        for d in p.defs[:2]:
            c.sample("definition: " + d.item_text())
    return ("random definitions with bounds of all forms on parameters and in where clauses (plain, combined, higher-ranked, on "
            "projections, on types around the parameter, about lifetimes, Self, consts; defaults, attributes, ?Sized parameters, fields of "
            "types bounded themselves): values are mapped under the monitor as in C08 and C09, and what is implemented for which source and "
            "target types is probed and compared with what the bounds, known by construction, allow. Programs of their own map values that "
            "borrow from others. Definitions from a wide grammar of generics, supported by construction, have to compile. Non-trivial: a run with at least one call, a probe of its own, a program.")
