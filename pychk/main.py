#!/usr/bin/env python3
"""main.py PROP --tier T --seed S --from A --to B --step K --out F --marker M [--deadline D] [--case N]"""
import argparse, hashlib, os, sys, time, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx, Rng

def hook(*e):
    traceback.print_exception(*e)
    sys.stderr.flush()
    os._exit(3)   # the harness, not the code under test, is at fault


sys.excepthook = hook
a = argparse.ArgumentParser()
a.add_argument("prop")
a.add_argument("--tier", default="quick")
a.add_argument("--seed", type=int, default=1)
a.add_argument("--from", dest="lo", type=int, default=0)
a.add_argument("--to", type=int, default=10)
a.add_argument("--step", type=int, default=1)
a.add_argument("--case", type=int)
a.add_argument("--out")
a.add_argument("--marker")
a.add_argument("--deadline", type=float, default=0)
o = a.parse_args()
import props  # noqa: E402
if o.prop not in props.PROPS:
    print("unknown property", o.prop, file=sys.stderr)
    sys.exit(3)
warnings.simplefilter("ignore")
ctx = Ctx(o.prop, o.tier, o.seed, o.out, o.marker)
t0 = time.time()
for i in [o.case] if o.case is not None else range(o.lo, o.to, o.step):
    if o.deadline and time.time() - t0 > o.deadline:
        ctx.add("shards_stopped_by_deadline")
        break
    ctx.begin(i)
    r = Rng(int(hashlib.sha1(("%s/%d/%d" % (o.prop, o.seed, i)).encode()).hexdigest()[:15], 16))
    try:
        props.PROPS[o.prop](ctx, r, i)
    except Exception as e:
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any("/arcticpy/" in f or f.endswith(".pyx") for f in files):
            raise   # not from the code under test
        ctx.bad("exception", "%s: %s at %s" % (type(e).__name__, e, traceback.format_exc()[-800:]))
ctx.finish()
print("%s: %d cases, %d violations, %d distinct; %s" % (o.prop, ctx.evaluations, ctx.violations, len(ctx.distinct), ctx.count), file=sys.stderr)
