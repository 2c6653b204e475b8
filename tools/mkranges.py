#!/usr/bin/env python3
"""Writes mstat/data/ranges.json: the range every constructor of the analysed tree accepts for each argument.  Run by hand after the
ranges have been reviewed against the documentation; no check runs it."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from mstat.program import Program
from mstat.report import Ctx
from mstat.spec import Fw
from mstat.checks import c08
ctx = Ctx("C08", "quick", 1, Program())
made = c08.classes(ctx, Fw(ctx.prog), table={})
with open(c08.RANGES, "w") as h:
    json.dump(made, h, indent=0, sort_keys=True)
    h.write("\n")
print(sum(map(len, made.values())), "ranges of", len(made), "classes")
