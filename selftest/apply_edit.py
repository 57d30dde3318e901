"""Applies one edit of a corpus to the scratch copy GPB_W: apply_edit.py MODULE NAME."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_refactor as r
r.reset()
for f, a, b in importlib.import_module(sys.argv[1]).EDITS[sys.argv[2]]:
    p = os.path.join(r.W, f)
    s = open(p).read()
    assert a in s, (f, a)
    open(p, "w").write(s.replace(a, b, 1))
