"""Building, running and judging: what all checks share."""

import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
STABLE = "1.87.0"
JOBS = 8


class EnvError(Exception):
    """The check cannot be carried out; says nothing about the property."""


def env(toolchain=STABLE, **more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI", "ASAN", "VMON"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["RUSTFLAGS"] = "--cap-lints warn"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_NET_OFFLINE"] = "true"
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    e.update(more)
    return e


def sh(cmd, timeout=600, cwd=None, envv=None, stdin=None):
    """Runs a command in its own process group; (rc, out, err), rc None: timed out."""
    p = subprocess.Popen(cmd, cwd=cwd, env=envv or env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


def pool(jobs, f, items):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(min(jobs, len(items))) as ex:
        return list(ex.map(f, items))


# ---- the check's frame

class Check:
    def __init__(self, pid, level="exploration"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(WORK, "replay", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.viol = {}          # key -> (message, replay directory)
        self.nviol = 0
        self.cov = {}
        self.samples = []
        self.evals = 0
        self.nontrivial = 0
        self.rules = []
        self.assume = []
        self.lock = threading.Lock()
        self.known = known_findings(pid)
        self.known_seen = {}

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print("[%s %5.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    def count(self, k, n=1):
        with self.lock:
            self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500] + "...")

    def violation(self, key, msg, files=None, cmd=None):
        """`key` identifies the violation; known findings are listed by it."""
        with self.lock:
            for k in self.known:
                if k["key"] == key:
                    self.known_seen[key] = k["what"]
                    return
            self.nviol += 1
            if key in self.viol or len(self.viol) >= 12:
                return
            d = os.path.join(self.replays, str(len(self.viol)))
            os.makedirs(d, exist_ok=True)
            for n, t in (files or {}).items():
                with open(os.path.join(d, n), "w") as f:
                    f.write(t)
            with open(os.path.join(d, "report.txt"), "w") as f:
                f.write("property: %s\nkey: %s\n\n%s\n" % (self.id, key, msg))
                if cmd:
                    f.write("\nto replay: %s\n" % cmd)
            self.viol[key] = (msg, d)

    def known_hit(self, key):
        """A known finding observed; False if it is not listed."""
        for k in self.known:
            if k["key"] == key:
                self.known_seen[key] = k["what"]
                return True
        return False

    def finish(self, rule):
        cov = dict(evaluations=int(self.evals), distinct_nontrivial=int(self.nontrivial), rule=rule,
                   samples=self.samples or ["none"])
        for k, v in sorted(self.cov.items()):
            cov.setdefault(k, v)
        if self.known_seen:
            cov["known_findings_observed"] = sorted(self.known_seen)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k, v in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.id, v))
        for k, (m, d) in self.viol.items():
            print("---- %s" % k)
            print(m[:3000])
            print("VIOLATION property=%s replay=%s" % (self.id, os.path.join(d, "report.txt")))
        self.log("%s: %d evaluations, %d distinct non-trivial, %d violation(s)" % (
            "VIOLATED" if self.viol else "held", self.evals, self.nontrivial, self.nviol))
        if not self.viol and self.evals == 0:
            self.log("nothing was observed")
            sys.exit(2)
        sys.exit(1 if self.viol else 0)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), what=m.group(3).strip()))
    return out


# ---- cargo

def scratch_lock(manifest_dir):
    pass


def cargo_json(cmd, cwd, envv, timeout=800):
    """cargo with --message-format=json: (rc, artifacts, errors, stderr)."""
    rc, out, err = sh(cmd + ["--message-format=json"], timeout, cwd, envv)
    arts, errs = [], []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts.append(m)
        elif m.get("reason") == "compiler-message":
            d = m["message"]
            d["_target"] = m["target"]["name"]
            if d["level"].startswith("error"):
                errs.append(d)
    return rc, arts, errs, err


class Vmon:
    """The monitor's library, built against /repo's current tree."""

    def __init__(self, toolchain=STABLE, target="target", extra=None, release=False, features=None):
        self.toolchain = toolchain
        self.target = os.path.join(WORK, target)
        self.envv = env(toolchain, CARGO_TARGET_DIR=self.target, **(extra or {}))
        self.crate = os.path.join(VERIF, "vmon")
        self.release = release
        self.flags = ["--release"] if release else []
        if features is not None:
            self.flags += ["--no-default-features"] + (["--features", features] if features else [])

    def lib(self):
        rc, arts, errs, err = cargo_json(["cargo", "build", "--offline", "--lib"] + self.flags, self.crate, self.envv)
        if rc != 0:
            # the repository itself does not build, or the monitor does not fit it
            names = {d["_target"] for d in errs}
            raise EnvError("monitor library does not build: %s\n%s" % (names, "\n".join(d.get("rendered", "") for d in errs[:3]) + err[-1500:]))
        self.rlib = {}
        for a in arts:
            for f in a["filenames"]:
                if f.endswith((".rlib", ".so")):
                    self.rlib[a["target"]["name"]] = f
        self.deps = os.path.join(self.target, "release" if self.release else "debug", "deps")
        for n in ("funcmap", "vmon"):
            if n not in self.rlib:
                raise EnvError("no rlib of %s" % n)
        return self

    def rustc(self, src, out, edition="2021", flags=(), externs=("funcmap", "vmon"), cwd=None, timeout=300):
        cmd = ["rustc", "--edition", edition, "--crate-name", "prog", "--error-format=json", "--cap-lints", "warn",
               "-Cdebuginfo=0", "-L", "dependency=" + self.deps, src, "-o", out]
        if self.release:
            cmd += ["-O", "-Cdebug-assertions=off"]
        for x in externs:
            n, _, to = x.partition("=")
            cmd += ["--extern", "%s=%s" % (n, self.rlib[to or n])]
        cmd += list(flags)
        rc, o, err = sh(cmd, timeout, cwd, self.envv)
        return rc, diagnostics(err), err

    def bins(self, names):
        """Builds binaries of the crate; {name: path} and the errors of others."""
        rc, arts, errs, err = cargo_json(["cargo", "build", "--offline", "--keep-going"] + self.flags +
                                         [x for n in names for x in ("--bin", n)], self.crate, self.envv)
        out = {}
        for a in arts:
            if a.get("executable") and a["target"]["name"] in names:
                out[a["target"]["name"]] = a["executable"]
        if rc != 0 and not errs:
            raise EnvError("cargo: " + err[-2000:])
        bad = {d["_target"] for d in errs}
        if bad - set(names):
            raise EnvError("%s do(es) not build\n%s" % (bad - set(names), "\n".join(d.get("rendered", "") for d in errs[:3])))
        return out, errs


def diagnostics(err):
    out = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if "message" in m and "spans" in m:
                out.append(m)
    return out


def errors(diags):
    return [d for d in diags if d["level"].startswith("error") and not d["message"].startswith(
        ("aborting due to", "could not compile", "Some errors"))]


def lines_of(d, fname="main.rs"):
    """Lines of the program a diagnostic points to; macro expansions are
    followed to where they were invoked. Also the names of the macros."""
    primary, other, macros = [], [], set()
    for s in d["spans"]:
        x = s
        chain = []
        while x is not None:
            chain.append(x)
            e = x.get("expansion")
            if not e:
                break
            macros.add(e["macro_decl_name"])
            x = e["span"]
        for c in reversed(chain):
            if c["file_name"].endswith(fname):
                (primary if s.get("is_primary") else other).append(c["line_start"])
                break
    for c in d.get("children", []):
        for s in c["spans"]:
            if s["file_name"].endswith(fname):
                other.append(s["line_start"])
    return primary or other, macros


# ---- reports of monitored runs

class Report:
    def __init__(self, rc, out, err):
        self.rc, self.err = rc, err
        self.viol, self.cov, self.samples, self.sum, self.ended, self.types = [], {}, [], {}, False, []
        self.ign = {}
        for line in out.split("\n"):
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 7:
                self.viol.append(dict(cat=f[1], name=f[2], mode=f[3], at=f[4], seed=f[5], detail=f[6]))
            elif f[0] == "COV":
                self.cov[f[1]] = self.cov.get(f[1], 0) + int(f[2])
            elif f[0] == "IGN":
                self.ign[f[1]] = int(f[2])
            elif f[0] == "SAMPLE":
                self.samples.append(f[1])
            elif f[0] == "TYPE":
                self.types.append(f[1])
            elif f[0] == "SUM":
                for kv in f[1:]:
                    k, _, v = kv.partition("=")
                    self.sum[k] = int(v)
            elif f[0] == "END":
                self.ended = True

    def status(self):
        if self.rc is None:
            return "hung"
        if self.rc < 0:
            return "crashed (signal %d)" % -self.rc
        if not self.ended or self.rc != 0:
            if "monitor:" in self.err:
                return "monitor error"
            return "ended abnormally (status %s)" % self.rc
        return "ok"


def run_engine(binary, args, timeout=240):
    rc, out, err = sh([binary] + args, timeout, envv=env())
    return Report(rc, out, err)


def merge(check, rep):
    with check.lock:
        check.evals += rep.sum.get("cases", 0)
        check.nontrivial += rep.sum.get("nontrivial", 0)
        for k in ("calls", "subjects", "births", "deaths", "closures", "collisions"):
            if k in rep.sum:
                n = {"calls": "closure_calls", "subjects": "subjects", "births": "element_births_observed", "closures": "closures_handed_over",
                     "deaths": "element_drops_observed", "collisions": "key_collisions"}[k]
                check.cov[n] = check.cov.get(n, 0) + rep.sum[k]
        for k, v in rep.cov.items():
            k = re.sub(r"[^A-Za-z0-9<>-]+", "_", k)
            check.cov[k] = check.cov.get(k, 0) + v
    for s in rep.samples[:2]:
        check.sample(s)


def locate(binary, args):
    """Which subject a crashing run was at."""
    rc, out, err = sh([binary] + args, 240, envv=env(VMON_TRACE="1"))
    m = re.findall(r"^SUBJECT (.*)$", err, re.M)
    return m[-1] if m else "?"


# ---- corpora of generated definitions

class Prog:
    def __init__(self, name, defs, subjects, edition="2021", head="", attrs="", flags=()):
        self.name, self.defs, self.subjects = name, list(defs), subjects
        self.edition, self.head, self.attrs, self.flags = edition, head, attrs, list(flags)
        self.unchecked = False   # whether definitions may not be valid Rust to begin with
        self.failed = []   # (def, diagnostics)

    def render(self, defs):
        from defs import program
        return program(defs, self.subjects, self.edition, self.head, self.attrs)


def users_of(defs, dropped):
    out = set(dropped)
    again = True
    while again:
        again = False
        for d in defs:
            if d.idx in out:
                continue
            for v in d.variants:
                for (_, t, _) in v.fields:
                    for n in t.nodes():
                        u = getattr(n, "user", None)
                        if u is not None and u.idx in out and d.idx not in out:
                            out.add(d.idx)
                            again = True
    return out


def build_prog(vm, check, prog, externs=("funcmap", "vmon"), rounds=5):
    """Compiles a program, leaving out definitions that do not compile; they are
    collected in prog.failed. Returns the binary, or None."""
    d = os.path.join(check.dir, prog.name)
    os.makedirs(d, exist_ok=True)
    src, out = os.path.join(d, "main.rs"), os.path.join(d, "prog")
    gone = set()
    for _ in range(rounds):
        defs = [x for x in prog.defs if x.idx not in gone]
        if not defs:
            return None
        text, ranges = prog.render(defs)
        with open(src, "w") as f:
            f.write(text)
        prog.text = text
        rc, diags, err = vm.rustc(src, out, prog.edition, ["-Awarnings"] + prog.flags, externs)
        if rc == 0:
            return out
        if rc is None:
            raise EnvError("rustc timed out on " + src)
        errs = errors(diags)
        bad = {}
        for e in errs:
            ls, macros = lines_of(e)
            for ln in ls[:1]:
                for a, b, idx in ranges:
                    if a <= ln <= b:
                        bad.setdefault(idx, []).append(e)
        if not bad:
            # nothing to attribute it to
            prog.failed.append((None, errs or [dict(message=err[-2000:], rendered=err[-2000:], spans=[], level="error")]))
            return None
        for i, es in bad.items():
            dd = [x for x in defs if x.idx == i][0]
            prog.failed.append((dd, es))
        gone = users_of(prog.defs, gone | set(bad))
    raise EnvError("too many rounds on " + src)


def blame(errs):
    """Which derive macro compile errors belong to: set of 'FuncMap', 'TryFuncMap'."""
    out = set()
    for e in errs:
        _, macros = lines_of(e)
        m = " ".join(macros)
        text = e["message"] + " ".join(c["message"] for c in e.get("children", [])) + " ".join(
            s.get("label") or "" for s in e["spans"])
        s = set()
        if "TryFuncMap" in m:
            s.add("TryFuncMap")
        if re.search(r"(?<!Try)FuncMap", m):
            s.add("FuncMap")
        if not s:
            if "TryFuncMap" in text or "try_func_map" in text:
                s.add("TryFuncMap")
            if re.search(r"(?<!Try)FuncMap", text) or re.search(r"(?<!try_)func_map", text):
                s.add("FuncMap")
        if not re.search("FuncMap", m):
            s.add("site")
        if not s - {"site"}:
            s |= {"FuncMap", "TryFuncMap"}
        out |= s
    return out


def run_corpus(check, vm, progs, args, cats, compile_matters=None, keyprefix="", externs=("funcmap", "vmon"), timeout=240):
    """Builds and runs programs; compile_matters: which derive's compile failures
    are violations of this property (set of trait names), None: none are."""

    def one(prog):
        binary = build_prog(vm, check, prog, externs)
        return prog, binary

    res = pool(JOBS, one, progs)
    jobs = []
    for prog, binary in res:
        check.count("programs")
        check.count("definitions", len(prog.defs))
        for d, errs in prog.failed:
            check.count("definitions_failing_to_compile")
            if compile_matters is None or not (blame(errs) & compile_matters):
                continue
            if d is not None and prog.unchecked and not valid_alone(vm, check, prog, d):
                check.count("definitions_not_valid_rust")
                continue
            key = keyprefix + "compile:" + (d.tag() + ":" + code_of(errs) if d is not None and hasattr(d, "tag") and d.tag() else first_line(errs))
            msg = "a supported definition does not compile%s:\n\n%s\n\n%s" % (
                " (%s, edition %s)" % (prog.name, prog.edition), d.module_text() if d is not None else "(whole program)",
                "\n".join(e.get("rendered") or e["message"] for e in errs[:4]))
            files = {"main.rs": prog.render([x for x in prog.defs if d is None or x.idx in needed(d)])[0]}
            check.violation(key, msg, files)
        if binary:
            jobs.append((prog, binary))
    def go(j):
        prog, binary = j
        a = args + (["--cats", ",".join(cats)] if cats else [])
        return prog, binary, a, run_engine(binary, a, timeout)
    for prog, binary, a, rep in pool(JOBS, go, jobs):
        judge(check, rep, prog.name, binary, a, {"main.rs": prog.text}, keyprefix)
    return progs


def underived(text):
    """Definitions without what derives and its helper attributes."""
    out, i = "", 0
    for m in re.finditer(r"#\[\s*(derive|funcmap)\b", text):
        if m.start() < i or m.group(1) == "derive" and "FuncMap" not in text[m.start():text.index("]", m.start())]:
            continue
        out += text[i:m.start()]
        depth, i = 0, m.start() + 1
        while True:
            depth += {"[": 1, "]": -1}.get(text[i], 0)
            i += 1
            if depth == 0:
                break
    return out + text[i:]


def valid_alone(vm, check, prog, d):
    """Whether rustc accepts the definition as such, without any derive: what is
    generated at random need not be valid."""
    from probes import bare_module
    text = "#![allow(warnings)]\nextern crate alloc;\nextern crate core;\nextern crate funcmap;\nextern crate vmon;\n"
    for x in prog.defs:
        if x.idx in needed(d):
            text += bare_module(x)
    w = os.path.join(check.dir, "alone_%s_%d" % (prog.name, d.idx))
    os.makedirs(w, exist_ok=True)
    src = os.path.join(w, "main.rs")
    with open(src, "w") as f:
        f.write(underived(text) + "fn main() {}\n")
    rc, diags, err = vm.rustc(src, os.path.join(w, "prog"), prog.edition, ["--emit=metadata"])
    return not any((e.get("code") or {}).get("code", "E0392") != "E0392" for e in errors(diags))


def needed(d):
    out = {d.idx}
    for v in d.variants:
        for (_, t, _) in v.fields:
            for n in t.nodes():
                u = getattr(n, "user", None)
                if u is not None:
                    out |= needed(u)
    return out


def code_of(errs):
    cs = [(e.get("code") or {}).get("code") or "error" for e in errs]
    return "E0283" if "E0283" in cs else cs[0]


def first_line(errs):
    m = errs[0]["message"].split("\n")[0]
    return re.sub(r"\bD\d+\b|d\d+::", "", m)[:100].replace(" ", "_")


def judge(check, rep, what, binary, args, files, keyprefix=""):
    st = rep.status()
    merge(check, rep)
    if st == "monitor error":
        raise EnvError("%s: %s" % (what, rep.err[-2000:]))
    if st != "ok":
        at = locate(binary, args) if rep.rc is not None else "?"
        check.violation(keyprefix + "run:" + at.replace(" ", "_"),
                        "%s %s while running subject %s\n%s" % (what, st, at, rep.err[-3000:]), files,
                        "%s %s" % (os.path.basename(binary), " ".join(args)))
        return
    for v in rep.viol:
        key = keyprefix + "%s:%s:%s" % (v["cat"], v["name"], v["mode"])
        check.violation(key.replace(" ", "_"),
                        "%s\nsubject: %s\nmode: %s, failing call: %s, input seed: %s\n%s: %s" % (
                            what, v["name"], v["mode"], v["at"], v["seed"], v["cat"], v["detail"]), files,
                        "%s %s --only '%s'" % (os.path.basename(binary), " ".join(args), v["name"]))
