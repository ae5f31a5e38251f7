"""Runs the check of one property:  main.py P01 [quick|thorough]
Replays one counterexample:         main.py --replay FILE"""
import importlib.util
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.setrecursionlimit(10000)

EVID = os.path.join(HERE, 'evidence')


if os.environ.get('SYMX_TRACE'):
  import faulthandler
  faulthandler.dump_traceback_later(float(os.environ['SYMX_TRACE']) * 20, repeat=True)


class Harness(object):

  def __init__(self, fn, name=None, tier='quick', deadline=300, max_paths=3000, covers=(),
               fs=False, branch_timeout=1.0, prove_timeout=8.0, int_limit=64, overrides=None,
               validate=True, witnesses=24, bounds='', assumptions=()):
    self.fn = fn
    self.name = name or fn.__name__
    self.tier = tier
    self.deadline = deadline
    self.max_paths = max_paths
    self.covers = list(covers)
    self.fs = fs
    self.branch_timeout = branch_timeout
    self.prove_timeout = prove_timeout
    self.int_limit = int_limit
    self.overrides = overrides
    self.validate = validate
    self.witnesses = witnesses
    self.bounds = bounds
    self.assumptions = list(assumptions)


def load_prop(pid):
  p = os.path.join(HERE, 'props', pid.lower() + '.py')
  spec = importlib.util.spec_from_file_location('props_' + pid.lower(), p)
  m = importlib.util.module_from_spec(spec)
  sys.modules[spec.name] = m
  if os.path.join(HERE, 'props') not in sys.path:
    sys.path.insert(0, os.path.join(HERE, 'props'))
  spec.loader.exec_module(m)
  return m


def harnesses(pid, tier):
  m = load_prop(pid)
  return [h for h in m.HARNESSES if h.tier == 'quick' or tier == 'thorough'], m


def code_monitor(found):
  """record which functions of the repository execute symbolically"""
  mon = sys.monitoring
  tool = 3
  try:
    mon.use_tool_id(tool, 'symx')
  except ValueError:
    return
  from symx import env

  def start(code, off):
    fn = code.co_filename
    if fn.startswith(env.REPO + '/'):
      found.add('%s:%s' % (fn[len(env.REPO) + 1:], code.co_qualname))
    return mon.DISABLE
  mon.register_callback(tool, mon.events.PY_START, start)
  mon.set_events(tool, mon.events.PY_START)


def run_symbolic(pid, hname, tier, seed, conn):
  """worker process: explore one harness symbolically"""
  out = dict(name=hname, error=None)
  try:
    from symx import env, sym
    from symx.api import SymT
    from symx.explore import Context, Candidate
    from symx.solver import z3  # noqa: F401
    hs, m = harnesses(pid, tier)
    h = [x for x in hs if x.name == hname][0]
    mult = 4 if tier == 'thorough' else 1
    ctx = Context(hname, seed=seed, max_paths=h.max_paths * mult, deadline=h.deadline * mult,
                  branch_timeout=h.branch_timeout, prove_timeout=h.prove_timeout * mult,
                  int_limit=h.int_limit)
    found = set()
    code_monitor(found)
    t0 = time.time()
    state = {}

    def one_path():
      fs = env.FakeFS() if h.fs else None
      # modules are executed afresh so that no path sees another path's module state
      if h.fs or 'loader' not in state:
        ov = h.overrides(fs) if h.overrides else None
        state['loader'] = env.Loader(overrides=ov, fs=fs)
      T = SymT(ctx, state['loader'])
      T.fs = fs
      try:
        h.fn(T)
        if ctx.aborted is not None:
          raise ctx.aborted
      except sym.Steer:
        raise
      except OverflowError as e:
        if 'polynomial' in str(e):
          raise
        crashed(e)
      except Exception as e:
        if ctx.aborted is not None:
          raise ctx.aborted
        crashed(e)

    def crashed(e):
      # an exception of the code under test that the harness does not expect
      label = 'exception: ' + type(e).__name__
      ctx.crash_detail = traceback.format_exc()[-1500:]
      ctx.check(sym.FALSE, label)
      if ctx.unknown and ctx.unknown[-1][0] == label:
        ctx.unknown[-1] = (label, ctx.crash_detail)
      for c in ctx.candidates:
        if c.label == label and c.detail in ('sample-guided', 'solver model'):
          c.detail = ctx.crash_detail
    ctx.run(one_path)
    out.update(
        paths=ctx.paths, infeasible=ctx.infeasible, decisions=ctx.decisions_total,
        obligations=ctx.obligations, by_identity=ctx.by_identity, by_solver=ctx.by_solver,
        unknown=[list(u) for u in ctx.unknown[:20]], n_unknown=len(ctx.unknown),
        candidates=[dict(label=c.label, inputs=c.inputs, choices=c.choices, how=c.how,
                         detail=c.detail) for c in ctx.candidates],
        covers=ctx.covers, labels=ctx.labels, queries=ctx.stats.queries,
        solver_s=ctx.stats.time, by=ctx.stats.by, functions=sorted(found),
        nonfinite=ctx.nonfinite, variables=len(ctx.space.vars), wall=time.time() - t0)
    ws = [w for w in ctx.witnesses if w['inputs'] is not None]
    ws.sort(key=lambda w: -w['margin'])
    out['witnesses'] = ws[:h.witnesses]
    out['n_witnessed'] = len(ws)
    if not ws and ctx.witnesses:
      # no sample point follows any completed path: ask the solver for one
      for w in ctx.witnesses[:6]:
        r = ctx.solver.refute([], w['pc'], 10.0)
        if isinstance(r, tuple):
          out['n_witnessed'] = 1
          break
  except BaseException as e:  # reported to the parent, never swallowed
    out['error'] = '%s: %s' % (type(e).__name__, traceback.format_exc()[-3000:])
  try:
    conn.send(out)
  finally:
    conn.close()


def concrete_batch(pid, hname, tier, points):
  """run the harness on the real code for each point, in a separate process"""
  p = subprocess.run([sys.executable, os.path.abspath(__file__), '--concrete', pid, hname, tier],
                     input=json.dumps(points).encode(), stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE, timeout=240)
  if p.returncode != 0:
    raise RuntimeError('concrete run failed: ' + p.stderr.decode()[-2000:])
  txt = p.stdout.decode()
  return json.loads(txt[txt.rindex('\n@@') + 3:])


def concrete_main(pid, hname, tier):
  import signal
  from symx.api import run_concrete
  hs, m = harnesses(pid, tier)
  h = [x for x in hs if x.name == hname][0]
  pts = json.loads(sys.stdin.read())
  res = []

  def onalarm(*a):
    raise TimeoutError('the real code did not finish within 20 s')
  signal.signal(signal.SIGALRM, onalarm)
  for pt in pts:
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    signal.alarm(20)
    try:
      res.append(run_concrete(h.fn, pt['inputs'], pt['choices'], pt['strict']))
    finally:
      signal.alarm(0)
      sys.stdout.close()
      sys.stdout = so
  sys.stdout.write('\n@@' + json.dumps(res))


def compare_obs(a, b):
  """None, or a description of the first disagreement between encoding and real code"""
  if len(a) != len(b):
    return 'different number of observations: %d vs %d' % (len(a), len(b))
  for (la, va), (lb, vb) in zip(a, b):
    if la != lb or len(va) != len(vb):
      return 'observation %s vs %s' % (la, lb)
    for x, y in zip(va, vb):
      if x != x and y != y:
        continue
      if not abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)):
        return '%s: encoding %r, real code %r' % (la, x, y)
  return None


def known_findings():
  p = os.path.join(HERE, 'known_findings.txt')
  out = []
  if os.path.exists(p):
    with open(p) as f:
      for l in f:
        m = re.match(r'open: property=(\S+) harness=(\S+) label=(.*?) :: (.*)$', l.strip())
        if m:
          out.append(dict(zip(('property', 'harness', 'label', 'what'), m.groups())))
  return out


def main(pid, tier):
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
  hs, m = harnesses(pid, tier)
  only = os.environ.get('SYMX_ONLY')
  if only:
    hs = [h for h in hs if h.name in only.split(',')]
  known = known_findings()
  violations, inconclusive, notes, kf = [], [], [], []
  validated = 0
  samples = 0

  def is_known(v):
    return [x for x in known if x['property'] == pid and x['harness'] == v['harness'] and
            (x['label'] == v['label'] or x['label'] == '*')]

  def judge(h):
    """replay what one harness found and compare its path witnesses with the real code"""
    nonlocal validated, samples
    r = results[h.name]
    if r.get('error'):
      inconclusive.append('%s: %s' % (h.name, r['error']))
      return
    pts = [dict(inputs=c['inputs'], choices=c['choices'], strict=True) for c in r['candidates']]
    ncand = len(pts)
    ws = []
    if h.validate:
      ws = [w for w in r['witnesses'] if w['margin'] > 1e-6]
      pts += [dict(inputs=w['inputs'], choices=w['choices'], strict=False) for w in ws]
    try:
      res = concrete_batch(pid, h.name, tier, pts) if pts else []
    except Exception as e:
      inconclusive.append('%s: %s' % (h.name, e))
      return
    failed_here = False
    unconfirmed = []
    for c, q in zip(r['candidates'], res[:ncand]):
      if q['status'] == 'violation':
        rec = dict(property=pid, harness=h.name, tier=tier, label=q['label'], symbolic_label=c['label'],
                   solver=c['how'], inputs=c['inputs'], choices=c['choices'], detail=q['detail'],
                   symbolic_detail=c['detail'])
        violations.append(rec)
        failed_here = True
      else:
        unconfirmed.append(c)
    for w, q in zip(ws, res[ncand:]):
      samples += 1
      if q['status'] == 'violation':
        violations.append(dict(property=pid, harness=h.name, tier=tier, label=q['label'],
                               symbolic_label='(path witness)', solver='-', inputs=w['inputs'],
                               choices=w['choices'], detail=q['detail'], symbolic_detail=''))
        failed_here = True
      elif q['status'] == 'ok':
        d = compare_obs(w['obs'], q['obs'])
        if d is None:
          validated += 1
        elif not failed_here:
          inconclusive.append('%s: encoding and real code disagree: %s at %s' % (h.name, d, json.dumps(w['inputs'])[:400]))
      else:
        notes.append('%s: a path witness was outside the assumptions when run concretely' % h.name)
    if not failed_here:
      for c in unconfirmed[:3]:
        inconclusive.append('%s: counterexample for "%s" did not reproduce: %s choices=%s %s' % (
            h.name, c['label'], json.dumps(c['inputs'])[:500], c['choices'], c['detail'][-600:]))
      for u in r['unknown'][:3]:
        inconclusive.append('%s: %s: %s' % (h.name, u[0], u[1][-700:]))
      if not r['candidates']:
        if r['n_witnessed'] == 0:
          inconclusive.append('%s: vacuous, no execution satisfies the assumptions' % h.name)
        for c in h.covers:
          if c not in r['covers'] and c not in r['labels']:
            inconclusive.append('%s: vacuous, "%s" was never reached' % (h.name, c))

  jobs = int(os.environ.get('SYMX_JOBS', '8'))
  pending = sorted(hs, key=lambda h: -h.deadline)
  running = {}
  results = {}
  mctx = mp.get_context('fork')
  t_end = None
  budget = t0 + (820 if tier == 'quick' else 10800)
  while pending or running:
    while pending and len(running) < jobs:
      h = pending.pop(0)
      r, w = mctx.Pipe(False)
      p = mctx.Process(target=run_symbolic, args=(pid, h.name, tier, seed, w))
      p.start()
      w.close()
      running[h.name] = (p, r, time.time(), h)
    for n, (p, r, ts, h) in list(running.items()):
      mult = 4 if tier == 'thorough' else 1
      if r.poll(0.02):
        try:
          results[n] = r.recv()
        except EOFError:
          results[n] = dict(name=n, error='worker died')
        p.join()
        del running[n]
      elif not p.is_alive():
        results[n] = dict(name=n, error='worker died (exit %s)' % p.exitcode)
        del running[n]
      elif time.time() > min(ts + h.deadline * mult + 60, budget, t_end or budget):
        p.kill()
        p.join()
        results[n] = dict(name=n, error='worker exceeded its time budget')
        del running[n]
      if n in results:
        judge(h)
        if t_end is None and any(not is_known(v) for v in violations):
          # the verdict is known: the remaining harnesses get a little time to add their findings
          t_end = time.time() + 20
          for x in pending:
            results[x.name] = dict(name=x.name, error='not run after a violation was found')
          pending = []
    if time.time() > budget:
      for x in pending:
        results[x.name] = dict(name=x.name, error='time budget of the check exhausted')
        judge(x)
      pending = []
    time.sleep(0.02)

  real = []
  for v in violations:
    k = is_known(v)
    if k:
      kf.append((k[0], v))
    else:
      real.append(v)

  tot = lambda k: sum(r.get(k, 0) for r in results.values() if not r.get('error'))
  funcs = sorted(set(f for r in results.values() for f in r.get('functions', [])))
  ev = dict(
      property=pid, tier=tier, seed=seed, level='model_checking',
      coverage=dict(
          states=tot('paths'), transitions=tot('decisions'),
          traces_validated_against_impl=validated, samples=max(samples, validated),
          obligations=tot('obligations'), discharged_by_solver=tot('by_solver'),
          discharged_by_normal_form=tot('by_identity'), infeasible_paths=tot('infeasible'),
          solver_queries=tot('queries'), solver_seconds=round(tot('solver_s'), 3),
          symbolic_variables=tot('variables'), functions_encoded=funcs,
          harnesses={h.name: dict((k, results[h.name].get(k)) for k in (
              'paths', 'decisions', 'obligations', 'by_identity', 'by_solver', 'queries',
              'solver_s', 'wall', 'by', 'n_witnessed', 'n_unknown')) for h in hs},
          bounds={h.name: h.bounds for h in hs if h.bounds}),
      assumptions=sorted(set(sum([h.assumptions for h in hs], [])) | set(getattr(m, 'ASSUMPTIONS', []))),
      wall_s=round(time.time() - t0, 2), violations=len(real))
  with open(os.path.join(EVID, pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, sort_keys=True)
    f.write('\n')
  print('%s %s: %d harnesses, %d paths, %d obligations (%d normal form, %d solver), %d queries, '
        'solver %.1f s, %d/%d path witnesses agree with the real code, %.1f s' % (
            pid, tier, len(hs), tot('paths'), tot('obligations'), tot('by_identity'),
            tot('by_solver'), tot('queries'), tot('solver_s'), validated, samples, time.time() - t0))
  if os.environ.get('SYMX_VERBOSE'):
    for h in hs:
      r = results[h.name]
      print('  %-28s paths %s inf %s obl %s (id %s, smt %s) queries %s solver %.1fs wall %.1fs by %s' % (
          h.name, r.get('paths'), r.get('infeasible'), r.get('obligations'), r.get('by_identity'), r.get('by_solver'),
          r.get('queries'), r.get('solver_s') or 0, r.get('wall') or 0, r.get('by')))
  for n in notes[:3]:
    print('note:', n)
  shown = set()
  for k, v in kf:
    if k['what'] not in shown:
      shown.add(k['what'])
      print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  if real:
    seen = set()
    for i, v in enumerate(real):
      key = (v['harness'], v['label'])
      if key in seen:
        continue
      seen.add(key)
      p = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, len(seen)))
      with open(p, 'w') as f:
        json.dump(v, f, indent=1)
      print('%s: %s' % (v['harness'], v['label']), (v['detail'] or v['symbolic_detail']).strip().split('\n')[-1][:300])
      print('VIOLATION property=%s replay=%s' % (pid, p))
      if len(seen) >= 5:
        break
    return 1
  if inconclusive:
    for x in inconclusive[:8]:
      print('INCONCLUSIVE', x)
    return 2
  print('%s: holds within the stated bounds' % pid)
  return 0


def replay(path):
  v = json.load(open(path))
  r = concrete_batch(v['property'], v['harness'], v.get('tier', 'quick'),
                     [dict(inputs=v['inputs'], choices=v['choices'], strict=True)])[0]
  print(json.dumps(r, indent=1))
  return 1 if r['status'] == 'violation' else 0


if __name__ == '__main__':
  # harness files import this module by its package name
  import symx.main as _self  # noqa: F401
  a = sys.argv[1:]
  if a[0] == '--concrete':
    concrete_main(a[1], a[2], a[3])
    sys.exit(0)
  if a[0] == '--replay':
    sys.exit(replay(a[1]))
  sys.exit(main(a[0], a[1] if len(a) > 1 else 'quick'))
