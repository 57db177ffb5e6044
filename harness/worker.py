"""Runs the jobs of one property in one precision and writes their traces."""
import argparse, importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--prop'); ap.add_argument('--tier'); ap.add_argument('--seed', type=int)
ap.add_argument('--part', type=int, default=0); ap.add_argument('--parts', type=int, default=1)
ap.add_argument('--job', default=''); ap.add_argument('--plans', default=''); ap.add_argument('--out')
a = ap.parse_args()
import core, optaxir as ir
m = importlib.import_module('props.' + a.prop.lower())
plans = json.load(open(a.plans)) if a.plans else {}
prec = '64' if ir.X64 else '32'
units = core.job_units(prec)
if a.job:
  name, shard = a.job.split(':'); units = [(n, s) for n, s in units if n == name and s == int(shard)]
else:
  units = [u for i, u in enumerate(units) if i % a.parts == a.part]
rec = ir.Recorder()
import time
times = {}
for name, shard in units:
  t = time.time()
  c = core.Ctx(a.prop, a.tier, a.seed, name, shard, rec, plans)
  core.JOBS[name][0](c)
  times['%s:%d' % (name, shard)] = round(time.time() - t, 1)
rec.dump(a.out)
json.dump({'times': times, 'stats': rec.stats}, open(a.out + '.meta', 'w'))
