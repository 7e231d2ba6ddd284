"""run all harnesses of one property, write evidence, report violations"""
import os
import sys
import json
import time
import argparse
import importlib
import multiprocessing as mp
import signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_checks(prop):
    import glob
    for f in sorted(glob.glob(os.path.join(ROOT, 'checks', prop.lower() + '_*.py'))):
        importlib.import_module('checks.' + os.path.basename(f)[:-3])


def _setup(prop):
    from . import harness as H
    load_checks(prop)
    return H


def _worker(args):
    prop, hname, cfg, deadline, tier = args
    import warnings
    warnings.simplefilter('ignore')
    from . import harness as H
    hs = {h.name: h for h in H.HARNESSES.get(prop, [])}
    h = hs[hname]
    # a job may not hang forever in native code
    hard = max(1, int(deadline - time.time()) + 20)

    def onalarm(sig, frm):
        from . import core
        raise core.Deadline()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(hard)
    so = sys.stdout
    try:
        job = H.Job(h, cfg, deadline, validate=6 if tier == 'quick' else 20)
        sys.stdout = open(os.devnull, 'w')
        try:
            job.run()
        finally:
            sys.stdout = so
        return job.summary()
    except BaseException as e:      # noqa
        import traceback
        return dict(harness=hname, cfg=cfg, error='%s: %s' % (type(e).__name__, e),
                    tb=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            if e.get('property') == prop:
                out.append(e)
    return out


def is_known(v, kf):
    for e in kf:
        if e['harness'] == v['harness'] and all(v['cfg'].get(k) == x for k, x in e.get('cfg', {}).items()) \
                and any(e['match'] in str(o) for o in (v['observed'] or [])):
            return e
    return None


def run_property(prop, tier, seed, budget, nproc=8, only=None, verbose=False):
    t0 = time.time()
    H = _setup(prop)
    hs = H.HARNESSES.get(prop, [])
    jobs = []
    deadline = t0 + budget
    for h in hs:
        if only and h.name not in only.split(','):
            continue
        cfgs = h.configs if tier == 'quick' or h.thorough is None else h.thorough
        for c in cfgs:
            jobs.append((prop, h.name, c, deadline, tier))
    # several expensive jobs first: keep the declared order but spread harnesses
    res = []
    if nproc == 1:
        res = [_worker(j) for j in jobs]
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(nproc, max(1, len(jobs))), maxtasksperchild=1) as pool:
            it = [pool.apply_async(_worker, (j,)) for j in jobs]
            if os.environ.get('SYMX_FIRST'):     # development: stop at the first violation
                while not all(a.ready() for a in it):
                    if any(a.ready() and a.get().get('violations') for a in it):
                        break
                    time.sleep(0.05)
                it, jobs = zip(*[(a, j) for a, j in zip(it, jobs) if a.ready()])
            for j, a in zip(jobs, it):
                try:
                    res.append(a.get(timeout=max(1, deadline - time.time()) + 40))
                except mp.TimeoutError:
                    res.append(dict(harness=j[1], cfg=j[2], error='worker timeout'))
            pool.terminate()
    return hs, jobs, res, time.time() - t0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'list'])
    ap.add_argument('what', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.cmd == 'replay':
        return replay(a.what)
    prop = a.what
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = a.budget or (300 if a.tier == 'quick' else 780)
    hs, jobs, res, wall = run_property(prop, a.tier, seed, budget, a.j, a.only, a.v)
    kf = known_findings(prop)
    tot = {}
    funcs, incon, viol, errs, unrep, mism, samples = set(), {}, [], [], [], [], []
    per = {}
    reached = {}
    alldone = True
    for r in res:
        if 'error' in r:
            errs.append(r)
            alldone = False
            continue
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        funcs.update(r['funcs'])
        for k, v in r['incon'].items():
            incon[r['harness'] + '/' + k] = incon.get(r['harness'] + '/' + k, 0) + v
        viol += r['violations']
        unrep += r['unreproduced']
        mism += r['mismatch']
        samples += r['samples'][:1]
        alldone = alldone and r['done']
        reached[r['harness']] = reached.get(r['harness'], 0) + r['reached']
        p = per.setdefault(r['harness'], dict(configs=0, paths=0, claims=0, validated=0, wall=0.0, complete=True,
                                              max_inputs=0))
        p['configs'] += 1
        p['paths'] += r['stats']['paths']
        p['claims'] += r['stats']['claims']
        p['validated'] += r['validated']
        p['wall'] = round(p['wall'] + r['wall'], 2)
        p['complete'] = p['complete'] and r['done']
        p['max_inputs'] = max(p['max_inputs'], r['nsyms'])
        p['fallback'] = p.get('fallback', 0) + r['fallback']
    for h in hs:
        if h.name in per:
            per[h.name]['bounds'] = h.bounds
            per[h.name]['reached_final_assertions'] = reached.get(h.name, 0)
            if not reached.get(h.name, 0):
                incon['%s: vacuous (never reached its assertions)' % h.name] = 1
    evdir = os.environ.get('SYMX_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    out = 0
    lines = []
    nviol = 0
    seenk = set()
    for i, v in enumerate(viol):
        e = is_known(v, kf)
        if e is not None:
            if e['id'] not in seenk:
                seenk.add(e['id'])
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            continue
        nviol += 1
        rp = os.path.join(evdir, 'replay_%s_%d.json' % (prop, nviol))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, **v), f, indent=1, default=str)
        if nviol <= 5:
            lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
            lines.append('  harness=%s cfg=%s claim=%s' % (v['harness'], v['cfg'], v['claim']))
            lines.append('  observed: %s' % str(v['observed'])[:600])
        out = 1
    # findings that were listed are expected to be seen again on this tree
    ev = dict(property=prop, tier=a.tier, seed=seed, level='other',
              coverage=dict(
                  explanation='bounded symbolic execution of the real functions of /repo; every branch outcome '
                              'over symbolic inputs decided by z3 and explored, every claim discharged by z3 for '
                              'all input values of the path (see bounds per harness)',
                  harnesses=per, functions_encoded=sorted(funcs),
                  queries=tot.get('queries', 0), solver_seconds=round(tot.get('solver_s', 0.0), 2),
                  paths=tot.get('paths', 0), branches=tot.get('branches', 0), claims=tot.get('claims', 0),
                  claims_unsat=tot.get('unsat', 0), claims_closed_by_normal_form=tot.get('trivially', 0),
                  claims_sat=tot.get('sat', 0), claims_unknown=tot.get('unknown', 0),
                  infeasible_paths=tot.get('infeasible', 0),
                  complete_within_bounds=bool(alldone and not incon and not errs),
                  inconclusive=incon, unreproduced=unrep[:5], encoding_mismatch=mism[:5],
                  errors=[dict(harness=e['harness'], cfg=e['cfg'], error=e['error']) for e in errs][:10],
                  samples=samples[:6]),
              wall_s=round(wall, 2), violations=nviol,
              assumptions=ASSUMPTIONS + sum([list(h.opts.get('assumptions', ())) for h in hs], []))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print('%s tier=%s jobs=%d paths=%d claims=%d queries=%d solver=%.1fs wall=%.1fs complete=%s violations=%d'
          % (prop, a.tier, len(jobs), tot.get('paths', 0), tot.get('claims', 0), tot.get('queries', 0),
             tot.get('solver_s', 0.0), wall, ev['coverage']['complete_within_bounds'], nviol))
    for k, v in list(incon.items())[:12]:
        print('INCONCLUSIVE %s x%d' % (k, v))
    for e in errs[:5]:
        print('JOB-ERROR %s %s %s' % (e['harness'], e['cfg'], e['error']))
        if a.v:
            print(e.get('tb'))
    for m in mism[:3]:
        print('ENCODING-MISMATCH', m)
    if a.v:
        for k, p in per.items():
            print('  %-40s %s' % (k, {x: y for x, y in p.items() if x != 'bounds'}))
        for r in sorted((r for r in res if 'wall' in r), key=lambda r: -r['wall'])[:8]:
            print('   slow: %s %s %.1fs paths=%d' % (r['harness'], r['cfg'], r['wall'], r['stats']['paths']))
    sys.stdout.flush()
    return out


ASSUMPTIONS = [
    'floating point arithmetic is modelled by exact real arithmetic (decimal reading of literals); '
    'rounding, overflow and NaN propagation are outside the claim',
    'sizes, numbers of items and structural choices are bounded as stated per harness',
    'numpy indexing, broadcasting, sorting and reshaping are executed by numpy itself on object arrays; '
    'casts, reductions over floats, transcendental functions and LAPACK calls are replaced by exact '
    'symbolic counterparts (symx/symnp.py)',
]


def replay(path):
    rec = json.load(open(path))
    H = _setup(rec['property'])
    hs = {h.name: h for h in H.HARNESSES[rec['property']]}
    job = H.Job(hs[rec['harness']], rec['cfg'], None)
    failed, env = job.concrete(H.dec_vals(rec['inputs']))
    print('inputs:', json.dumps(rec['inputs']))
    if failed:
        print('REPRODUCED:')
        for f in failed:
            print('  ', f)
        return 1
    print('not reproduced')
    return 0


if __name__ == '__main__':
    sys.exit(main())
