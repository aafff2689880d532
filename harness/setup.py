"""Prepare the framework: compile the Java override, check that the tools are there (each check also does this by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
build_java()
build_sigstate()
rc, out, st = tlc("Histories", cfg="Histories.cfg")
if rc != 0 or st[1] == 0:
    print(out[-2000:])
    sys.exit(1)
print("setup done")
