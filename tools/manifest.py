"""Writes MANIFEST.json; run after adding a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("closure-call monitor with element identities against a reference model", "Every std type and mapped parameter, several element classes and lengths; sampled values, not all values."),
"C02": ("closure-call monitor with injected failures against a reference model", "Failures injected at sampled calls of sampled values of every std type."),
"C03": ("ledger of element births and drops under injected errors and panics", "Std types and random derived types; sampled values and stopping calls."),
"C04": ("Miri and AddressSanitizer over hostile element layouts and failing closures", "Undefined behaviour only on the executions run; every failing call of small values, array lengths to 100 under Miri, to 1025 under AddressSanitizer."),
"C05": ("collection-validity monitor with colliding and reordering key closures", "Sampled contents and key functions for every keyed or ordered type."),
"C06": ("iterator monitor over random consumption histories", "Sampled histories of next/next_back for every owning iterator type."),
"C07": ("metamorphic monitor of paired executions (identity, composition)", "Sampled values and closures over std and random derived types."),
"C08": ("generated definitions run under a call monitor against a reference model", "Random definitions from a grammar of the documented types; sampled values."),
"C09": ("generated definitions with injected failures under a call monitor", "Random definitions, sampled values and failing calls."),
"C10": ("monitored runs of generated parameter layouts, with type assertions", "Parameter orders up to 6 parameters, sampled beyond."),
"C11": ("runtime trait-implementation probes against a bounds oracle", "Fixed families of types and sampled definitions; a finite set of source/target types."),
"C12": ("generated definitions in hostile scopes, compiled and monitored", "A catalogue of hostile scopes and names crossed with random definitions."),
"C13": ("generated negative definitions; monitor over compiler diagnostics", "A catalogue of offending constructs at random places and in combinations."),
"C14": ("trace comparison of expansions over repeated and reordered compilations", "Sampled definitions, orders and processes."),
"C15": ("builds and monitored runs per feature configuration, trait probes", "All feature combinations; the std build is monitored elsewhere, no_std builds are compiled and run on the host."),
"C16": ("trait probes and monitored runs of definitions with options", "Every subset of up to 3 parameters in several notations, a catalogue of crate paths."),
"C18": ("metamorphic monitor of paired executions in both orders of two parameters", "Sampled values, closures and random derived types; keys kept apart."),
"C19": ("instruction, stack and heap counters (Cachegrind, hooks) compared over sizes", "Two sizes per collection, a catalogue of derived types and of families of definitions."),
"C17": ("generated generics compiled, probed and monitored", "A catalogue of bound and where-clause forms in random combination."),
}
import sys
sys.path.insert(0, os.path.join(V, "gen"))
src = open(os.path.join(V, "gen", "checks.py")).read()
checks = []
for k in sorted(T):
    if "\ndef %s(c)" % k not in src and "import %s" % k not in src and k not in os.environ.get("FORCE", ""):
        continue
    cmd = "python3 check.py " + k
    checks.append(dict(property=k, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, technique=T[k][0], level="exploration", level_note=T[k][1]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[
    dict(property=k, reason="check not built yet") for k in sorted(T) if k not in [c["property"] for c in checks]])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
