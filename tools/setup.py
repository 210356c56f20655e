"""Warms up what the checks build: the monitor library and its programs."""
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "gen"))
from runner import *
try:
    vm = Vmon().lib()
    print(sorted(vm.bins(["std_a", "std_b", "std_c", "std_d", "std_e"])[0]))
except EnvError as e:
    # the checks say what this means
    print(e)
