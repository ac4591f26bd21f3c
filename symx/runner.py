"""Runs the harnesses of one property, replays, writes evidence, prints verdict."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _case_key(hname, case):
    return hname + ':' + ','.join('%s=%s' % (k, case[k]) for k in sorted(case))


def _task(args):
    pid, idx, tier = args
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    from . import engine, shim
    import numpy as np
    import z3
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    z3.set_param('smt.random_seed', seed % 10000)
    z3.set_param('sat.random_seed', seed % 10000)
    m = importlib.import_module('harness.' + pid)
    hname, case, opts = m.cases(tier)[idx]
    funcs = set()
    lines = {}
    mon = sys.monitoring
    TOOL = 4
    mon.use_tool_id(TOOL, 'sqv')
    repo = engine.loader.REPO

    def on_line(code, line):
        if code.co_filename.startswith(repo):
            lines.setdefault(code.co_filename, set()).add(line)
        return mon.DISABLE

    def on_start(code, off):
        if code.co_filename.startswith(repo):
            funcs.add('%s:%s' % (os.path.relpath(code.co_filename, repo), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.set_events(TOOL, mon.events.LINE | mon.events.PY_START)
    try:
        shim.CONTRACTS_USED.clear()
        e = engine.Engine(getattr(m, hname), case, **opts).run()
        st = e.stats()
        st['validated'], st['val_mismatch'], st['samples'] = e.validate(opts.get('validate', 2))
        st['witness'], st['notes'] = e.witness, sorted(e.notes)
    except BaseException as ex:
        st = dict(fatal=''.join(traceback.format_exception(ex))[-3000:])
    finally:
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
    st['harness'] = hname
    st['case'] = case
    st['key'] = _case_key(hname, case)
    st['funcs'] = sorted(f for f in funcs if not f.endswith('<module>'))
    st['lines'] = {os.path.relpath(k, repo): len(v) for k, v in lines.items()}
    return st


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)['open']
    return []


def run(pid, tier, jobs=None, only=None, verbose=False):
    t0 = time.time()
    m = importlib.import_module('harness.' + pid)
    cs = m.cases(tier)
    idxs = [i for i in range(len(cs)) if only is None or only in _case_key(cs[i][0], cs[i][1])]
    jobs = jobs or int(os.environ.get('SQV_JOBS', '8'))
    ctx = mp.get_context('fork')
    res = []
    with ctx.Pool(min(jobs, max(1, len(idxs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_task, [(pid, i, tier) for i in idxs], chunksize=1)
        limit = t0 + float(os.environ.get('SQV_LIMIT') or (720 if tier == 'quick' else 6 * 3600))
        while len(res) < len(idxs):
            try:
                r = it.next(timeout=max(0.1, limit - time.time()))
            except mp.TimeoutError:
                break
            res.append(r)
            if verbose:
                print('%-60s %s' % (r['key'], {k: r.get(k) for k in (
                    'paths', 'completed', 'aborted', 'obligations', 'discharged', 'n_undecided', 'solver_s', 'wall_s',
                    'truncated', 'n_unsupported', 'witness', 'validated', 'val_mismatch')}))
                for k in ('fatal', 'errors', 'unsupported', 'violations', 'unconfirmed', 'undecided'):
                    if r.get(k):
                        print('   ', k, json.dumps(r[k], default=str)[:3000] if k != 'fatal' and k != 'errors'
                              else r[k] if k == 'fatal' else '\n'.join(r[k]))
    done = {r['key'] for r in res}
    unfinished = sorted(k for k in (_case_key(cs[i][0], cs[i][1]) for i in idxs) if k not in done)
    res.sort(key=lambda r: r['key'])
    known = [k for k in load_known() if k['property'] == pid and k.get('status', 'open') == 'open']
    rc = 0
    nviol = 0
    bad = []
    known_hit = set()
    for r in res:
        if r.get('fatal') or r.get('errors'):
            bad.append('%s: harness error: %s' % (r['key'], (r.get('fatal') or r['errors'][0])[-1200:]))
            continue
        for v in r['violations']:
            kf = None
            for k in known:
                if k['harness'] == r['harness'] and k['label'] in v['got'] and all(
                        r['case'].get(a) == b for a, b in k.get('case', {}).items()):
                    kf = k
            if kf:
                known_hit.add(kf['id'])
                continue
            nviol += 1
            d = os.path.join(ROOT, 'replays')
            os.makedirs(d, exist_ok=True)
            body = dict(property=pid, harness=r['harness'], case=r['case'], label=v['label'], values=v['values'],
                        observed=v['got'])
            h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(d, '%s_%s.json' % (pid, h))
            with open(p, 'w') as f:
                json.dump(body, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  %s  %s' % (r['key'], v['got']))
            rc = 1
        if r['unconfirmed'] and not r['violations']:
            bad.append('%s: counterexample did not replay: %s' % (
                r['key'], json.dumps(r['unconfirmed'][:1], default=str)[:1500]))
        if not r['completed'] and not r['violations'] and not r['unconfirmed']:
            bad.append('%s: no path completed (vacuous); unsupported=%s' % (r['key'], r['unsupported'][:2]))
        elif not r['witness'] and not r['violations'] and not r['unconfirmed']:
            bad.append('%s: no reachability witness' % r['key'])
    for k in known:
        if k['id'] in known_hit or k.get('always_print'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ok = [r for r in res if not r.get('fatal')]
    tot = lambda k: sum(r.get(k) or 0 for r in ok)
    funcs = sorted({f for r in ok for f in r['funcs']})
    labels = {}
    for r in ok:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    und = [(r['key'], u) for r in ok for u in r['undecided']]
    uns = sorted({u for r in ok for u in r['unsupported']})
    trunc = unfinished + [r['key'] for r in ok if r['truncated']]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(
                  states=tot('paths'), transitions=tot('forks') + tot('completed'),
                  traces_validated_against_impl=tot('validated'),
                  samples=[s for r in ok for s in r.get('samples', [])][:6],
                  explanation='states = symbolic execution paths explored (each stands for all inputs of its path '
                              'condition); transitions = two-way forks plus completed paths; traces validated = '
                              'solver models of completed paths replayed on the unmodified code with the same checks',
                  cases=len(ok), paths_completed=tot('completed'), paths_infeasible=tot('aborted'),
                  obligations=tot('obligations'), discharged=tot('discharged'),
                  solver_queries=tot('queries'), decided_by_linear_relaxation=tot('linear'), feasibility_queries=tot('feasibility_queries'),
                  solver_seconds=round(tot('solver_s'), 2), undecided=len(und), undecided_examples=und[:10],
                  unsupported_paths=tot('n_unsupported'), unsupported_examples=uns[:10],
                  truncated_cases=trunc, replay_validation_mismatches=tot('val_mismatch'),
                  functions_encoded=funcs, obligations_by_label=labels,
                  contracts=sorted({c for r in ok for c in r['contracts']}),
                  notes=sorted({c for r in ok for c in r['notes']}), bounds=getattr(m, 'BOUNDS', ''),
                  problems=bad),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths (%d completed), %d obligations, %d discharged, %d undecided, %d unsupported, '
          'solver %.1fs, wall %.1fs' % (pid, tier, len(ok), tot('paths'), tot('completed'), tot('obligations'),
                                        tot('discharged'), len(und), tot('n_unsupported'), tot('solver_s'),
                                        time.time() - t0))
    for b in bad:
        print('INCONCLUSIVE', b)
    for k, u in und[:5]:
        print('UNDECIDED', k, u)
    for u in uns[:5]:
        print('UNSUPPORTED', u)
    for k in trunc[:5]:
        print('TRUNCATED', k)
    if rc == 0 and bad and not sum(1 for r in ok if r['completed']):
        rc = 2      # nothing could be decided
    return rc


COMMON = [
    'Real-valued harnesses treat float64 arithmetic as exact real arithmetic: rounding, overflow and signed zero are '
    'outside the claim (every reported counterexample is replayed in real float64 before it is reported). Harnesses '
    'marked FP use IEEE-754 binary64 bit-exactly.',
    'Python/numpy dispatch semantics are those of the installed CPython 3.12 / numpy 1.26 executing the real source; '
    'numpy kernels on symbolic entries are replaced as listed under contracts.',
]


def replay_file(path):
    with open(path) as f:
        b = json.load(f)
    from . import engine
    m = importlib.import_module('harness.' + b['property'])
    out = engine.replay(getattr(m, b['harness']), b['case'], b['values'])
    print(json.dumps(out, indent=1, default=str))
    if out['violated']:
        print('VIOLATION property=%s replay=%s' % (b['property'], path))
        return 1
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('-j', type=int)
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(a.replay)
    return run(a.pid, a.tier, a.j, a.only, a.v)
