"""Decide one property: explore every harness instance symbolically (in parallel),
replay counterexamples and path witnesses against the unmodified code, write evidence."""
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
from time import time as _now
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
NATIVE_PY = '/opt/venv/bin/python'


class Inst(object):
    def __init__(self, name, fn, params=None, **opts):
        self.name, self.fn, self.params, self.opts = name, fn, params or {}, opts


def default_time(tier):
    return 150 if tier == 'quick' else 1500


def load_prop(pid):
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid.lower(), path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'checks')) if os.path.join(VERIF, 'checks') not in sys.path else None
    spec.loader.exec_module(m)
    return m


def worker(pid, tier, idx, q):
    try:
        sys.setrecursionlimit(6000)
        os.environ['VERIF_TIER_ACTIVE'] = tier
        sys.path.insert(0, VERIF)
        sys.dont_write_bytecode = True
        from symx import instr
        instr.install()
        from symx import harness
        from symx.conc import enc
        m = load_prop(pid)
        inst = m.instances(tier)[idx]
        inst.opts.setdefault('time_s', default_time(tier))
        if hasattr(m, 'prepare'):
            m.prepare()
        t = _now()
        if getattr(inst, 'custom', None) or inst.opts.get('custom'):
            st = inst.fn(**inst.params)
        else:
            st = harness.run_symbolic(inst.fn, inst.params, inst.opts)
        d = st.as_dict()
        d['wall_s'] = round(_now() - t, 2)
        d['cex'] = []
        for c in st.cex:
            d['cex'].append(dict(label=c['label'], info=str(c.get('info') or ''),
                                 inputs={k: enc(v) for k, v in c['inputs'].items()},
                                 hash_table=[[k, [enc(p) for p in ps], enc(o)] for k, ps, o in c['hash_table']
                                             if not k.startswith('uf:')]))
        d['witness_inputs'] = [{k: enc(v) for k, v in w.items()} for w in getattr(st, 'witness_inputs', [])]
        q.put((idx, d))
    except BaseException as e:
        q.put((idx, dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))))


def native(pid, tier, jobs):
    """jobs: list of dict(inst, inputs, hash_table, alts); returns list of (status, detail)"""
    if not jobs:
        return []
    py = NATIVE_PY if os.path.exists(NATIVE_PY) else sys.executable
    inp = json.dumps(dict(property=pid, tier=tier, jobs=jobs))
    try:
        r = subprocess.run([py, '-B', os.path.join(VERIF, 'symx', 'replay.py'), '-'], input=inp.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300, env=dict(os.environ, VERIF_REPO=REPO))
    except subprocess.TimeoutExpired:
        if len(jobs) > 1:
            # isolate the slow one
            return [x for j in jobs for x in native(pid, tier, [j])]
        return [('timeout', '')]
    try:
        line = [l for l in r.stdout.decode().splitlines() if l.startswith('RESULT ')][-1]
        return json.loads(line[7:])
    except Exception:
        if len(jobs) > 1:
            return [x for j in jobs for x in native(pid, tier, [j])]
        return [('error', (r.stderr.decode()[-300:] or 'no output'))]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and ('property=%s ' % pid) in l:
                # KNOWN-FINDING: property=ID inst=<instance> label=<label prefix> | text
                f = dict(kv.split('=', 1) for kv in l.split('|')[0].split()[1:] if '=' in kv)
                out.append((f.get('inst'), f.get('label', '').replace('_', ' '), l))
    return out


def main(argv):
    pid = argv[0]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '-v' in argv
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    t0 = _now()
    budget = 840 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '7200'))
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    m = load_prop(pid)
    insts = m.instances(tier)
    if only:
        sel = [i for i, x in enumerate(insts) if only in x.name]
    else:
        sel = list(range(len(insts)))
    res = run_pool(pid, tier, insts, sel, jobs, t0 + budget)

    findings, inconclusive, errors = [], [], []
    njobs, meta = [], []
    for i in sel:
        d = res[i]
        if 'error' in d:
            errors.append('%s: %s' % (insts[i].name, d['error']))
            continue
        for s in d['inconclusive'] + d['unsupported']:
            inconclusive.append('%s: %s' % (insts[i].name, s))
        tried = {}
        for c in d['cex']:
            tried[c['label']] = tried.get(c['label'], 0) + 1
            njobs.append(dict(inst=i, inputs=c['inputs'], hash_table=[], alts=insts[i].opts.get('alts', 0) if tried[c['label']] <= 3 else None))
            meta.append(('cex', i, c))
        for w in d['witness_inputs']:
            njobs.append(dict(inst=i, inputs=w, hash_table=[], alts=None))
            meta.append(('wit', i, w))
    out = native(pid, tier, njobs)
    validated = 0
    viol = []
    second, smeta = [], []
    for (kind, i, c), (st, detail) in zip(meta, out):
        if kind == 'wit':
            if st == 'ok' or st == 'skip':
                validated += 1
            elif st == 'violation':
                viol.append((i, 'native run of a path witness: ' + detail, c, []))
            else:
                inconclusive.append('%s: witness replay %s' % (insts[i].name, st))
        elif st == 'violation':
            viol.append((i, detail, c['inputs'], []))
        else:
            if c['hash_table'] and insts[i].opts.get('oracle', True):
                second.append(dict(inst=i, inputs=c['inputs'], hash_table=c['hash_table'], alts=None))
                smeta.append((i, c))
            else:
                inconclusive.append('%s: counterexample (%s) does not reproduce natively (%s %s)' % (insts[i].name, c['label'], st, detail))
                if verbose:
                    print('  NOREPRO', insts[i].name, c['label'], json.dumps(c['inputs'])[:600])
    for (i, c), j in zip(smeta, second):
        (st, detail), = native(pid, tier, [j])
        if st == 'violation':
            viol.append((i, detail + ' (with the hash values of the model)', c['inputs'], c['hash_table']))
        else:
            inconclusive.append('%s: counterexample (%s) does not reproduce natively, nor with the model\'s hash values (%s %s)' % (insts[i].name, c['label'], st, detail))
            if verbose:
                print('  NOREPRO', insts[i].name, c['label'], json.dumps(c['inputs'])[:600])

    known = known_findings(pid)
    reported = []
    shown = set()
    for (i, detail, inputs, tab) in viol:
        k = [l for (ki, kl, l) in known if ki == insts[i].name and (detail.startswith(kl))]
        if k:
            if k[0] not in shown:
                print(k[0])
                shown.add(k[0])
            continue
        reported.append((i, detail, inputs, tab))

    rdir = os.path.join(EVID, 'replay')
    seen = set()
    n = 0
    for (i, detail, inputs, tab) in reported:
        key = (insts[i].name, detail[:80])
        if key in seen or n >= 5:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, jobs=[dict(inst=i, name=insts[i].name, inputs=inputs, hash_table=tab,
                           alts=insts[i].opts.get('alts', 0))], detail=detail), f)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  instance %s: %s' % (insts[i].name, detail))
        n += 1

    good = [res[i] for i in sel if 'error' not in res[i]]
    tot = lambda k: sum(d.get(k, 0) for d in good)
    funcs = sorted(set(f for d in good for f in d['functions']))
    complete = [insts[i].name for i in sel if 'error' not in res[i] and not res[i]['inconclusive'] and not res[i]['unsupported']
                and not res[i]['n_concretised'] and not res[i]['truncated']]
    vacuous = [insts[i].name for i in sel if 'error' not in res[i] and not res[i]['cex'] and
               (res[i]['paths'] == 0 or res[i]['checks'] == 0)]
    for v in vacuous:
        inconclusive.append('%s: vacuous (no completed path or no check reached)' % v)
    samples = []
    for i in sel:
        d = res[i]
        for w in d.get('witness_inputs', [])[:1]:
            if len(samples) < 6:
                samples.append(dict(instance=insts[i].name, path_witness={k: str(v)[:160] for k, v in w.items()}))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(_now() - t0, 2),
              violations=len(reported), assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
              coverage=dict(
                  states=tot('paths'), transitions=tot('queries'), traces_validated_against_impl=validated, samples=samples or ['none'],
                  meaning='states = symbolic paths of the real code explored to completion (each covers every input taking it); '
                          'transitions = solver queries issued while exploring (branch feasibility and obligations); '
                          'traces_validated = path witnesses from the solver re-run on the unmodified code',
                  bounds=getattr(m, 'BOUNDS', ''), outside=getattr(m, 'OUTSIDE', ''),
                  instances=len(sel), instances_fully_decided=len(complete),
                  obligations=tot('checks'), obligations_discharged=tot('discharged'), obligations_static=tot('static_checks'),
                  solver_queries=tot('queries'), solver_s=round(sum(d['solver_s'] for d in good), 2),
                  functions_encoded=funcs, n_functions=len(funcs),
                  under_approximated=[('%s: %s' % (insts[i].name, s)) for i in sel if 'error' not in res[i] for s in sorted(set(res[i]['concretised']))][:20],
                  inconclusive=inconclusive[:40], n_inconclusive=len(inconclusive), errors=errors[:10],
                  per_instance=[dict(name=insts[i].name, paths=res[i].get('paths'), checks=res[i].get('checks'), wall_s=res[i].get('wall_s'),
                                     solver_s=res[i].get('solver_s')) for i in sel][:120]))
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, '%s.json' % pid), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d instances (%d fully decided), %d paths, %d obligations (%d discharged), %d queries, solver %.1fs, wall %.1fs, %d witnesses validated'
          % (pid, tier, len(sel), len(complete), ev['coverage']['states'], ev['coverage']['obligations'],
             ev['coverage']['obligations_discharged'], ev['coverage']['solver_queries'], ev['coverage']['solver_s'], ev['wall_s'], validated))
    for s in inconclusive[:400 if verbose else 12]:
        print('  inconclusive: %s' % s[:300])
    for s in errors[:5]:
        print('  error: %s' % s[:1200])
    if verbose:
        for i in sel:
            d = res[i]
            if 'error' not in d:
                print('   %-40s paths %-5d checks %-5d q %-6d solver %-7.1f wall %-7.1f conc %d' % (
                    insts[i].name, d['paths'], d['checks'], d['queries'], d['solver_s'], d['wall_s'], d['n_concretised']),
                    sorted(set(d['concretised']))[:3])
    if reported:
        return 1
    if not good or (len(errors) + len(vacuous) >= len(sel)):
        print('no instance gave an answer')
        return 2
    return 0


def run_pool(pid, tier, insts, sel, jobs, deadline):
    res = {}
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pending = sorted(sel, key=lambda i: -insts[i].opts.get('cost', 1))
    running = {}
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            pr = ctx.Process(target=worker, args=(pid, tier, i, q))
            pr.daemon = True
            pr.start()
            running[i] = (pr, _now())
        try:
            idx, d = q.get(timeout=0.1)
            res[idx] = d
            if idx in running:
                running.pop(idx)[0].join(5)
            continue
        except Exception:
            pass
        now = _now()
        for i in list(running):
            if i not in running:  # its answer came in while another was looked at
                continue
            pr, t0 = running[i]
            limit = insts[i].opts.get('time_s', default_time(tier)) + insts[i].opts.get('grace_s', 60)
            if not pr.is_alive():
                try:
                    while True:
                        idx, d = q.get(timeout=0.5)
                        res[idx] = d
                        running.pop(idx, None)
                except Exception:
                    pass
                if i in running:
                    running.pop(i)
                    res[i] = dict(error='worker died (exit %s)' % pr.exitcode)
            elif now - t0 > limit or now > deadline:
                pr.kill()
                running.pop(i)
                res[i] = dict(error='timeout after %ds' % (now - t0))
        if now > deadline:
            for i in pending:
                res[i] = dict(error='not started: out of time')
            pending = []
    return res
