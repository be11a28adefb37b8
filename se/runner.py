"""Runs the harnesses of one property and reports."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.json')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Harness:
    def __init__(self, fn, name, bounds, tiers, opts, thorough):
        self.fn, self.name, self.bounds = fn, name, bounds
        self.tiers, self.opts, self.thorough = tiers, opts, thorough


class Registry(list):
    def __call__(self, bounds='', tiers=('quick', 'thorough'), thorough=None, cases=None, **opts):
        """decorator; ``cases``: dict name -> kwargs makes one harness per case"""
        def deco(fn):
            if cases is None:
                self.append(Harness(fn, fn.__name__, bounds, tiers, opts, thorough or {}))
            else:
                for cn, kw in cases.items():
                    def f(ctx, kw=kw):
                        return fn(ctx, **kw)
                    self.append(Harness(f, f'{fn.__name__}[{cn}]', bounds, tiers, opts, thorough or {}))
            return fn
        return deco


QUICK_S = 700


def _work(prop, i, regs, seed, tier, q, scale, cap=None):
    t0 = time.time()
    h = regs[i]
    out = dict(name=h.name, bounds=h.bounds)
    try:
        from . import load, engine
        Q, R = load.load()
        enc = set()
        mon = sys.monitoring
        TOOL = 3
        mon.use_tool_id(TOOL, 'vf')
        pkg = load.PKG

        def start(code, off):
            if not code.co_filename.startswith(pkg):
                return mon.DISABLE
            if engine.active():
                nm = code.co_qualname
                enc.add(f'{os.path.basename(code.co_filename)[:-3]}.{nm}')
                return mon.DISABLE
        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)
        opts = dict(h.opts)
        if tier == 'thorough':
            o2 = dict(time_limit=opts.get('time_limit', 40) * 4,
                      max_paths=opts.get('max_paths', 400) * 5)
            o2.update(h.thorough)
            opts.update(o2)
        else:
            opts.setdefault('time_limit', 40)
        opts['time_limit'] *= scale
        if cap is not None:
            opts['time_limit'] = min(opts['time_limit'], cap)
        ex = engine.Explorer(h.name, h.fn, Q, R, seed=seed, tier=tier, **opts)
        ex.explore()
        st = ex.stats
        out.update(paths=st.paths, queries=st.queries, solver_s=round(st.solver_s, 3),
                   assertions=st.checks, proved=st.proved, unknown=st.unknown,
                   witnessed=st.witnessed, replays=st.replays, violation=ex.violation,
                   incomplete=sorted(set(ex.incomplete)), notes=ex.notes, samples=ex.samples,
                   rounding=ex.rounding,
                   encoded=sorted(e for e in enc if '<lambda>' not in e and '<' not in e.split('.')[-1]),
                   wall=round(time.time() - t0, 2))
    except BaseException as ex:
        out['error'] = f'{type(ex).__name__}: {ex}'
        out['trace'] = traceback.format_exc()[-1500:]
    try:
        json.dumps(out)
    except TypeError:
        out = json.loads(json.dumps(out, default=_js))
    q.put((i, out))


def _js(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    return repr(o)


def run(prop, regs, tier, seed, only=None, scale=1.0):
    """-> list of results (parallel over harnesses)"""
    from . import load
    load.load()
    knf = known(prop)
    idx = [i for i, h in enumerate(regs) if tier in h.tiers and (only is None or only in h.name)]
    # longest first
    idx.sort(key=lambda i: -regs[i].opts.get('time_limit', 40))
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pending, running, res = list(idx), {}, {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < NPROC:
            i = pending.pop(0)
            # a run of the quick tier ends within QUICK_S: harnesses share what is left
            left = t0 + QUICK_S - time.time()
            cap = max(2., 2 * left * NPROC / (len(pending) + len(running) + 1)) if tier == 'quick' else None
            if cap is not None and left <= 0:
                res[i] = dict(name=regs[i].name, bounds=regs[i].bounds, error='not run: time budget of the check reached')
                continue
            p = ctx.Process(target=_work, args=(prop, i, regs, seed, tier, q, scale, cap))
            p.start()
            lim = regs[i].opts.get('time_limit', 40) * scale * (4 if tier == 'thorough' else 1)
            lim = (regs[i].thorough.get('time_limit', lim) if tier == 'thorough' else lim)
            dl = time.time() + lim + 45
            running[i] = (p, min(dl, t0 + QUICK_S + 45) if tier == 'quick' else dl)
        try:
            i, o = q.get(timeout=0.25)
            res[i] = o
            p, _ = running.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
            if o.get('violation') and tier == 'quick' and not any(matches(k, o['violation']) for k in knf):
                # a confirmed violation: the rest adds nothing
                for j, (p, _) in running.items():
                    p.kill()
                running = {}
                pending = []
        except Exception:
            pass
        now = time.time()
        for i, (p, dl) in list(running.items()):
            if i in res:
                continue
            if now > dl:
                p.kill()
                res[i] = dict(name=regs[i].name, bounds=regs[i].bounds, error='killed: hard time limit')
                running.pop(i)
            elif not p.is_alive() and q.empty():
                time.sleep(0.3)
                if q.empty():
                    res[i] = dict(name=regs[i].name, bounds=regs[i].bounds,
                                  error=f'worker ended with code {p.exitcode}')
                    running.pop(i)
    return [res[i] for i in sorted(res)]


def known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop]
    except FileNotFoundError:
        return []


def matches(k, v):
    """a known finding is identified by harness, label and failing call site"""
    return (k.get('harness') == v['harness'] and k.get('label', v['label']) == v['label']
            and k.get('failure', '') in v['failure'])


def main(prop, regs, stubs=(), assumptions=(), outside=''):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--inline', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.replay:
        sys.exit(replay(prop, regs, a.replay))
    t0 = time.time()
    res = run(prop, regs, tier, a.seed, a.only)
    viol = []
    knf = known(prop)
    for r in res:
        v = r.get('violation')
        if v:
            viol.append(v)
    lines = []
    bad = 0
    rd = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for n, v in enumerate(viol):
        k = next((k for k in knf if matches(k, v)), None)
        if k is not None:
            lines.append(f'KNOWN-FINDING: property={prop} {k["what"]}')
            continue
        path = os.path.join(rd, f'{prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=a.seed, **v), f, indent=1, default=_js)
        lines.append(f'VIOLATION property={prop} replay={path}')
        print(f'# {v["harness"]}: {v["label"]}: {v["failure"]}')
        bad += 1
    errs = [r for r in res if r.get('error')]
    good = [r for r in res if not r.get('error')]
    enc = sorted({e for r in good for e in r['encoded']})
    tot = {k: sum(r[k] for r in good) for k in ('paths', 'queries', 'assertions', 'proved', 'unknown', 'witnessed')}
    sol = round(sum(r['solver_s'] for r in good), 2)
    inc = [f'{r["name"]}: {x}' for r in good for x in r['incomplete']] + \
          [f'{r["name"]}: {x}' for r in good for x in r['notes'] if x.startswith(('undecided', 'harness-error'))] + \
          [f'{r["name"]}: {r["error"]}' for r in errs]
    vac = [r['name'] for r in good if r['witnessed'] == 0 and not r.get('violation')]
    ev = dict(
        property=prop, tier=tier, seed=a.seed, level='other',
        coverage=dict(
            explanation='Bounded symbolic execution of the current source of /repo/qsymm: the named '
                        'functions are executed with SMT-backed symbolic values in place of numbers; every '
                        'feasible path within the bounds is forked, and each assertion is discharged by an '
                        'SMT query over all values of that path (or yields a model that is replayed '
                        'on the real package).',
            functions_encoded=enc,
            bounds={r['name']: r['bounds'] for r in res},
            outside_bounds=outside,
            paths=tot['paths'], assertions=tot['assertions'], assertions_decided=tot['proved'],
            assertions_undecided=tot['unknown'],
            solver_queries=tot['queries'], solver_s=sol,
            paths_replayed_on_real_code=tot['witnessed'],
            inconclusive=inc, vacuous=vac, stubs=list(stubs),
            harnesses={r['name']: {k: r[k] for k in ('paths', 'assertions', 'proved', 'queries', 'solver_s',
                                                      'witnessed', 'wall')} for r in good},
            samples=[dict(harness=r['name'], inputs=s) for r in good for s in r['samples'][:1]],
        ),
        assumptions=list(assumptions),
        wall_s=round(time.time() - t0, 2), violations=bad)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=_js)
    for ln in lines:
        print(ln)
    print(f'{prop} [{tier}] harnesses={len(res)} paths={tot["paths"]} assertions={tot["assertions"]} '
          f'proved={tot["proved"]} undecided={tot["unknown"]} queries={tot["queries"]} solver={sol}s '
          f'witnessed={tot["witnessed"]} inconclusive={len(inc)} vacuous={vac} wall={ev["wall_s"]}s')
    if a.v:
        for r in res:
            if r.get('error'):
                print('  ERR', r['name'], r['error'], r.get('trace', ''))
                continue
            print(f'  {r["name"]}: paths={r["paths"]} proved={r["proved"]}/{r["assertions"]} q={r["queries"]} '
                  f'solver={r["solver_s"]} wit={r["witnessed"]} wall={r["wall"]}')
            for x in r['incomplete'][:5] + r['notes'][:6]:
                print('     -', x[:500])
            if r.get('violation'):
                print('     VIOL', json.dumps(r['violation'], default=_js)[:800])
    sys.stdout.flush()
    if bad:
        sys.exit(1)
    if errs and len(errs) == len(res):
        print('all harnesses failed to run')
        sys.exit(2)
    sys.exit(0)


def replay(prop, regs, path):
    from . import load, engine
    Q, R = load.load()
    with open(path) as f:
        v = json.load(f)
    h = next(h for h in regs if h.name == v['harness'])
    ex = engine.Explorer(h.name, h.fn, Q, R, seed=v.get('seed', 1))
    r, c = ex.run_conc(v['env'], v['picks'])
    print('harness', h.name)
    print('inputs', {k: c.values[k] for k in c.values})
    print('result:', r or 'all assertions hold')
    return 1 if r and r != 'skip' else 0
