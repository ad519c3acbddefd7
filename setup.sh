#!/bin/bash
# Builds every mode once, so that the first check does not have to.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import importlib.machinery, importlib.util, sys, threading
l = importlib.machinery.SourceFileLoader("check", "./check")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", l))
l.exec_module(m)
errs = []
def go(x):
    e = m.build(x)
    if e:
        errs.append(e)
ts = [threading.Thread(target=go, args=(x,)) for x in ("release", "checked", "asan", "tsan", "miri", "miri32")]
[t.start() for t in ts]
[t.join() for t in ts]
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
sys.modules["check"] = m
import builds
def same(x):
    e = builds.build(m, x)
    if e:
        errs.append(e)
ts = [threading.Thread(target=same, args=(x,)) for x in builds.ALL]
[t.start() for t in ts]
[t.join() for t in ts]
for e in errs:
    print(e)
sys.exit(1 if errs else 0)
P
