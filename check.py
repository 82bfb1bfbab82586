#!/usr/bin/env python3-vt
"""Decide one property: python3-vt check.py C01 [--thorough]

1. deductive part: the contracts of the property's functions are discharged from the current
   source of /repo (vcgen + z3/cvc5), one process per scenario;
2. the same contracts are evaluated on the real code (rt/run.py), to replay refutations and as
   a bounded stand-in for whatever the verifier could not take.
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def run_scenario(job):
    """in a process of its own"""
    pid, gname, k, t_end = job
    sys.setrecursionlimit(20000)
    t0 = time.time()
    out = dict(group=gname, k=k)
    try:
        from specs import groups
        from vcgen.verify import Ver
        from vcgen.engine import E
        s = groups.G[gname][k]
        out['name'], out['func'] = s.name, s.func
        v = Ver(pid, budget=max(1, t_end - time.time()))
        if gname.endswith('!frame'):
            v.only = re.compile('^frame')
            v.dtype = s.dtype
        v.scenario(s.name, s.fn, contracts=s.contracts, inline=s.inline, need=s.need, budget=s.budget)
        out['obligs'] = [(o.name, o.status, o.n, dict(o.backends), o.detail) for o in v.obligs.values()]
        out['unsupported'] = v.unsupported
        out['errors'] = v.errors
        out['paths'] = (v.scen_stats.get(s.name) or {}).get('paths', 0)
        out['inlined'], out['used'], out['ext'] = sorted(v.inlined), sorted(v.used_contracts), sorted(v.externals)
        out['queries'], out['solver_s'] = E.stats.queries, round(E.stats.solver_s, 2)
    except BaseException as ex:      # a crash of the generator is 'undecided', never a violation
        out.setdefault('name', '%s[%d]' % (gname, k))
        out.setdefault('func', '')
        out.update(obligs=[], unsupported=[(out['name'], 'generator: %s: %s' % (type(ex).__name__, str(ex)[:200]))], errors=[], paths=0,
                   inlined=[], used=[], ext=[], queries=0, solver_s=0)
    out['wall'] = round(time.time() - t0, 2)
    return out


def worker(job, q):
    q.put(run_scenario(job))


def deductive(pid, budget, njobs):
    from specs import groups
    t_end = time.time() + budget
    jobs = [(pid, g, k, t_end) for g in groups.PROPS.get(pid, []) for k in range(len(groups.G[g]))]
    # long ones first
    jobs.sort(key=lambda j: -groups.G[j[1]][j[2]].budget)
    ctx = mp.get_context('fork')
    res, running, todo = [], [], list(jobs)
    while todo or running:
        while todo and len(running) < njobs:
            j = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(j, q))
            p.start()
            running.append((j, p, q, time.time()))
        time.sleep(0.02)
        for it in list(running):
            j, p, q, t0 = it
            got = None
            if not q.empty():
                got = q.get()
                p.join()
            elif not p.is_alive():
                got = q.get() if not q.empty() else None
                if got is None:
                    got = lost(j, 'the verification process died')
            elif time.time() > min(t_end + 20, t0 + groups.G[j[1]][j[2]].budget + 60):
                p.kill()
                p.join()
                got = lost(j, 'time budget of the verification run exhausted')
            if got is not None:
                running.remove(it)
                res.append(got)
    return res


def lost(j, why):
    from specs import groups
    s = groups.G[j[1]][j[2]]
    return dict(group=j[1], k=j[2], name=s.name, func=s.func, obligs=[], unsupported=[(s.name, why)], errors=[], paths=0, inlined=[], used=[], ext=[],
                queries=0, solver_s=0, wall=0)


def concrete(pid, seed, tier, timeout):
    """contract evaluation on the real code"""
    env = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'rt', 'run.py'), pid, str(seed), tier], env=env, cwd=HERE, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(error='contract evaluation timed out', evaluations=0, failures=[], known=[], samples=[], rule='')
    for l in p.stdout.splitlines():
        if l.startswith('RESULT '):
            return json.loads(l[7:])
    return dict(error='contract evaluation did not finish: ' + p.stderr[-800:], evaluations=0, failures=[], known=[], samples=[], rule='')


TRUSTED = ['z3 4.x and cvc5 (solver answers)', 'vcgen: the Python front end and weakest-precondition generator in /verif/vcgen',
           'models of numpy/scipy/astropy primitives in vcgen/npmodel.py (differentially tested against the real libraries by tools/modeltest.py)',
           'machine floating point treated as real arithmetic; dtypes tracked only where they alias']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    pid = a.pid
    t0 = time.time()
    import threading
    con = {}

    def bg():
        con.update(concrete(pid, seed, tier, 400 if tier == 'quick' else 3000))
    th = None
    if not a.no_concrete:
        th = threading.Thread(target=bg)
        th.start()
    ded = [] if a.no_proof else deductive(pid, 600 if tier == 'quick' else 3000, max(2, (os.cpu_count() or 4)))
    if th:
        th.join()
    rc = report(pid, tier, seed, ded, con, time.time() - t0, a.v)
    sys.stdout.flush()
    sys.exit(rc)


def report(pid, tier, seed, ded, con, wall, verbose):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    nob = sum(n for r in ded for (_, st, n, b, d) in r['obligs'])
    by = {'proved': 0, 'refuted': 0, 'unknown': 0}
    backends = {}
    refuted, unknown = [], []
    for r in ded:
        for (nm, st, n, b, d) in r['obligs']:
            by[st] += n
            if st == 'proved':
                for k, v in b.items():
                    backends[k] = backends.get(k, 0) + v
            elif st == 'refuted':
                refuted.append((r['func'], nm, d))
            else:
                unknown.append((r['func'], nm, d))
    unsupported = [(r['func'], n, why) for r in ded for (n, why) in r['unsupported']]
    fails = con.get('failures', [])
    known = con.get('known', [])
    viol = 0
    lines = []
    for kf in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf))
    if fails:
        path = os.path.join(HERE, 'replay', '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, kind='contract evaluation on the real code', failures=fails[:20],
                           refuted_obligations=[dict(function=x, obligation=y, verifier=d[:3000]) for x, y, d in refuted[:10]],
                           replay_cmd='%s %s %s %d %s' % (PY, os.path.join(HERE, 'rt', 'run.py'), pid, seed, tier)), f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        for x in fails[:5]:
            lines.append('  failing input: %s' % json.dumps(x)[:600])
        for x, y, d in refuted[:5]:
            lines.append('  failed obligation: %s' % y)
        viol = len(fails)
    elif refuted:
        path = os.path.join(HERE, 'replay', '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, kind='failed obligation',
                           refuted_obligations=[dict(function=x, obligation=y, verifier=d[:6000]) for x, y, d in refuted[:20]]), f, indent=1)
        for x, y, d in refuted[:8]:
            lines.append('  failed obligation: %s (%s)' % (y, x))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        viol = len(refuted)
    if con.get('error'):
        lines.append('NOTE: %s' % con['error'])
    for f, n, w in unsupported[:20]:
        lines.append('UNDECIDED (bounded stand-in only): %s: %s' % (n, w[:300]))
    for f, n, d in unknown[:20]:
        lines.append('UNDECIDED (solver): %s' % n)
    from specs import groups
    funcs = sorted({r['func'] for r in ded if r['func']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if ded else 'exploration', wall_s=round(wall, 1), violations=viol,
              coverage=dict(obligations=nob, discharged=by['proved'], undecided=by['unknown'], refuted=by['refuted'],
                            checker_cmd='python3-vt check.py %s' % pid, trusted_base=TRUSTED,
                            functions_under_contract=funcs, backends=backends,
                            scenarios=[dict(name=r['name'], paths=r['paths'], obligations=sum(o[2] for o in r['obligs']),
                                            discharged=sum(o[2] for o in r['obligs'] if o[1] == 'proved'), solver_s=r['solver_s'], wall_s=r['wall']) for r in ded],
                            solver_queries=sum(r['queries'] for r in ded), solver_s=round(sum(r['solver_s'] for r in ded), 1),
                            inlined_functions=sorted({x for r in ded for x in r['inlined']}),
                            callee_contracts_used=sorted({x for r in ded for x in r['used']}),
                            trusted_external_functions=sorted({x for r in ded for x in r['ext']}),
                            undecided_scenarios=[dict(scenario=n, why=w[:300]) for f, n, w in unsupported],
                            bounded_contract_evaluation=('evaluations/distinct_nontrivial/rule/samples below: the contracts run on the real code, a bounded stand-in, '
                                                         'not counted in obligations or discharged. ' + con.get('error', ''))),
              assumptions=ASSUMPTIONS.get(pid, []) + COMMON)
    ev['coverage'].update(evaluations=con.get('evaluations', 0), distinct_nontrivial=con.get('distinct', 0), rule=con.get('rule', ''), samples=con.get('samples', [])[:3])
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
    lines.append('%s: %d obligations, %d discharged, %d undecided, %d refuted, %d undecided scenarios; %d contract evaluations; %.1f s'
                 % (pid, nob, by['proved'], by['unknown'], by['refuted'], len(unsupported), con.get('evaluations', 0), wall))
    print('\n'.join(lines))
    if verbose:
        for r in ded:
            print('   ', r['name'], 'paths', r['paths'], 'obl', sum(o[2] for o in r['obligs']), 'wall', r['wall'])
            for e in r['errors']:
                print(e[1][-1500:])
        for f, n, d in refuted + unknown:
            print('***', n, d[:1500])
    return 1 if viol else 0


from specs.assume import ASSUMPTIONS, COMMON  # noqa: E402

if __name__ == '__main__':
    main()
