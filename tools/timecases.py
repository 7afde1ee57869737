"""Time the cases of a check, one after the other: tools/timecases.py C08 [step]"""
import importlib
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core
mod = importlib.import_module('checks.' + sys.argv[1].lower())
step = int(sys.argv[2]) if len(sys.argv) > 2 else 1
core.scratch_root()
core.import_repo()
if getattr(mod, 'NEEDS_DTW', False):
    core.build_dtw()
if hasattr(mod, 'setup'):
    mod.setup('quick')
err = os.dup(2)
core.quiet()
ctx = core.Context()
res = []
for i, c in list(enumerate(mod.cases('quick')))[::step]:
    t = time.time()
    msg = core.run_case(mod, c, ctx)
    res.append((time.time() - t, i, str(c)[:90], dict(ctx.extra), msg))
ctx.reset()
os.write(err, ('total %.1f\n' % sum(r[0] for r in res)).encode())
for r in sorted(res, key=lambda r: r[:2], reverse=True)[:25]:
    os.write(err, ('%6.2f %4d %s %s %s\n' % r).encode())
