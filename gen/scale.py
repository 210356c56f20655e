"""What mapping and deriving cost, counted by tools and hooks rather than by
the clock: instructions (Cachegrind), stack, heap, comparisons, hashes."""

import os
import random
import re
import tempfile

from runner import *

FIELDS = ["calls", "stack", "comparisons", "hashes", "blocks", "bytes", "peak", "drops"]
FACTOR = 8
#: eight times the elements may take this many times the resources; n log n is
#: about 11, the doubling of capacities can come on top of that
BOUND = 20
#: amounts that are not worth comparing
FLOOR = {"comparisons": 60, "hashes": 60, "blocks": 60, "bytes": 8192, "peak": 8192, "instructions": 60000}
STACK = 8192


def measure(binary, name, mode, n):
    cmd = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", binary, name, str(mode), str(n)]
    rc, out, err = sh(cmd, 300, envv=env())
    m = re.search(r"I\s+refs:\s+([\d,]+)", err)
    f = out.strip().split("\t")
    if rc is None or rc != 0 or not m or f[0] != "SC":
        return None, "%s with %d elements, mode %d: %s\n%s" % (name, n, mode, "timed out" if rc is None else "exit %d" % rc, (out + err)[-2000:])
    r = dict(zip(FIELDS, map(int, f[1:])))
    r["instructions"] = int(m.group(1).replace(",", ""))
    return r, ""


def scale_monitor(c, vm, modes):
    bins, errs = vm.bins(["scale"])
    if not bins:
        # a type can no longer be mapped: for other properties to report
        c.count("scale_program_failing_to_compile", len(errs))
        return
    b = bins["scale"]
    rc, out, _ = sh([b])
    cases = [l.split("\t")[1] for l in out.splitlines() if l.startswith("CASE")]
    r = random.Random(c.seed * 31 + 5)

    def go(job):
        name, mode = job
        small = 500 if name == "array" else 2500
        got = []
        for n in (0, small, FACTOR * small):
            m, why = measure(b, name, mode, n)
            if m is None:
                # a stack that overflows ends up here
                if n == FACTOR * small and got and got[-1]:
                    c.violation("scale:%s:ends" % name, "ends early with many elements: " + why, {}, "%s '%s' %d %d" % (b, name, mode, n))
                    return
                raise EnvError("scale: " + why)
            got.append(m)
        zero, few, many = got
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        c.count("instructions_observed", many["instructions"])
        c.count("closure_calls", many["calls"])
        if len(c.samples) < 6:
            c.sample("%s, mode %d: %s for %d elements, %s for %d" % (name, mode, few, small, many, FACTOR * small))
        cmd = "%s '%s' %d %d" % (b, name, mode, FACTOR * small)
        for k, floor in FLOOR.items():
            x, y = few[k] - zero[k], many[k] - zero[k]
            c.count("ratios_compared")
            if y > BOUND * (max(x, 0) + floor):
                c.violation("scale:%s:%s" % (name, k), "%d times as many elements take %.0f times as many %s (%d for %d elements, mode %d)" % (
                    FACTOR, y / max(x, 1), k, y, FACTOR * small, mode), {}, cmd)
        if name != "array" and many["stack"] - few["stack"] > STACK:
            c.violation("scale:%s:stack" % name, "the stack grows with the number of elements: %d bytes for %d, %d for %d (mode %d)" % (
                few["stack"], small, many["stack"], FACTOR * small, mode), {}, cmd)

    jobs = [(n, m) for n in cases for m in modes(r)]
    list(pool(JOBS, go, jobs))


def nest(d, f):
    t = "T"
    for i in range(d):
        t = f(t, i)
    return t


#: (name, size, expansion may grow with the size to the power of, definition)
FAMILIES = [
    ("fields", 60, 1, lambda n: "pub struct D<T> { %s }" % ", ".join("a%d: %s" % (i, ["T", "Vec<T>", "u8", "(T, T)"][i % 4]) for i in range(n))),
    ("fields of one type", 60, 1, lambda n: "pub struct D<T>(%s);" % ", ".join("Option<Box<T>>" for i in range(n))),
    ("fields of different types", 40, 1, lambda n: "pub struct D<T>(%s);" % ", ".join("Vec<[T; %d]>" % i for i in range(n))),
    ("variants", 60, 1, lambda n: "pub enum D<T> { %s }" % ", ".join("A%d(T), B%d { x: Vec<T> }, C%d" % (i, i, i) for i in range(n))),
    ("parameters", 10, 2, lambda n: "pub struct D<%s>(%s);" % (", ".join("T%d" % i for i in range(n)), ", ".join("Vec<T%d>" % i for i in range(n)))),
    ("listed parameter", 20, 1, lambda n: "#[funcmap(params(T0))] pub struct D<%s>(%s);" % (", ".join("T%d" % i for i in range(n)), ", ".join("Vec<T%d>" % i for i in range(n)))),
    ("depth", 8, 2, lambda n: "pub struct D<T>(%s);" % nest(n, lambda t, i: "%s<%s>" % (["Option", "Vec", "Box"][i % 3], t))),
    ("depth of tuples", 8, 2, lambda n: "pub struct D<T>(%s);" % nest(n, lambda t, i: "(%s, u%d)" % (t, [8, 16][i % 2]))),
    ("depth of arrays", 8, 2, lambda n: "pub struct D<T>(%s);" % nest(n, lambda t, i: "[%s; %d]" % (t, i % 3))),
    ("depth of pairs", 8, 2, lambda n: "pub struct D<T>(%s);" % nest(n, lambda t, i: "Result<%s, T>" % t)),
    ("depth of pairs, second", 8, 2, lambda n: "pub struct D<T>(%s);" % nest(n, lambda t, i: "Result<T, %s>" % t)),
    ("depth of parentheses", 8, 1, lambda n: "pub struct D<T>(%s);" % nest(n, lambda t, i: "(%s)" % t)),
    ("arguments", 16, 2, lambda n: "pub struct D<T>(X<%s>);" % ", ".join(["T", "u8", "Vec<T>"][i % 3] for i in range(n))),
    ("bounds", 40, 1, lambda n: "pub struct D<T: %s>(Vec<T>);" % " + ".join("Tr%d" % i for i in range(n))),
    ("predicates", 40, 1, lambda n: "pub struct D<T>(Vec<T>) where %s;" % ", ".join("T: Tr%d<T>" % i for i in range(n))),
    ("tuple", 40, 1, lambda n: "pub struct D<T>((%s,));" % ", ".join("T" for i in range(n))),
]


def derive_monitor(c, vm):
    """Size of the expansion, against the size of the definition. The types
    named in there need not exist: nothing is resolved."""
    d = tempfile.mkdtemp(dir=vm.scratch if hasattr(vm, "scratch") else None)
    e = dict(vm.envv)
    e["RUSTC_BOOTSTRAP"] = "1"

    def text(trait, item):
        cwd = tempfile.mkdtemp(dir=d)
        src = os.path.join(cwd, "lib.rs")
        with open(src, "w") as f:
            f.write("#[derive(::funcmap::%s)]\n%s\n" % (trait, item))
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--error-format=json", "-Zunpretty=expanded", "-Awarnings",
               "-L", "dependency=" + vm.deps, "--extern", "funcmap=" + vm.rlib["funcmap"], src]
        rc, out, err = sh(cmd, 200, cwd, e)
        shutil.rmtree(cwd, ignore_errors=True)
        if rc is None:
            return None, "timed out"
        errs = errors(diagnostics(err))
        # layout doesn't count
        return (re.sub(r"\s+", "", out), "") if out and "impl" in out else ("", "\n".join(x["message"] for x in errs)[:2000])

    def go(job):
        (name, n, power, f), trait = job
        small, why = text(trait, f(n))
        if small is None:
            c.violation("derive:%s:%s" % (name, trait), "derive(%s) of %d %s: %s" % (trait, n, name, why), {"lib.rs": f(n)})
            return
        if not small:
            # (for others to report)
            c.count("definitions_failing_to_expand")
            return
        big, why = text(trait, f(n * FACTOR))
        with c.lock:
            c.evals += 1
            c.nontrivial += 1
        c.count("expansions_compared")
        if big is None or not big:
            c.violation("derive:%s:%s" % (name, trait), "derive(%s) copes with %d but not with %d %s: %s" % (trait, n, n * FACTOR, name, why), {"lib.rs": f(n * FACTOR)})
            return
        c.count("expanded_bytes_observed", len(big))
        ratio = len(big) / len(small)
        # (digits of counters and the like)
        if ratio > FACTOR ** power * 1.6:
            c.violation("derive:%s:%s" % (name, trait), "%d times the %s make derive(%s) return %.0f times as much code (%d bytes)" % (
                FACTOR, name, trait, ratio, len(big)), {"lib.rs": f(n * FACTOR)})
        if trait == "FuncMap":
            c.sample("%d and %d %s: expansions of %d and %d bytes" % (n, n * FACTOR, name, len(small), len(big)))

    list(pool(JOBS, go, [(x, t) for x in FAMILIES for t in ("FuncMap", "TryFuncMap")]))
    shutil.rmtree(d, ignore_errors=True)
