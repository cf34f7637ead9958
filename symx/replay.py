"""Re-run counterexamples on the unmodified code.
usage: replay.py FILE | -      (exit 1 when the violation reproduces)"""
import importlib.util
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Tmo(BaseException):
    pass


def main():
    sys.setrecursionlimit(3000)
    sys.path[:0] = [VERIF, REPO]
    spec = json.load(sys.stdin if sys.argv[1] == '-' else open(sys.argv[1]))
    jobs = spec['jobs']
    import symx.conc as conc
    if any(j.get('hash_table') for j in jobs):
        conc.install_oracle([[k, [conc.dec(p) for p in ps], conc.dec(o)] for k, ps, o in jobs[0]['hash_table']])
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    path = os.path.join(VERIF, 'checks', spec['property'].lower() + '.py')
    sp = importlib.util.spec_from_file_location('check_' + spec['property'].lower(), path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    os.environ['VERIF_TIER_ACTIVE'] = spec['tier']
    insts = m.instances(spec['tier'])
    if hasattr(m, 'prepare'):
        m.prepare()
    import signal

    def alarm(*a):
        raise Tmo()
    signal.signal(signal.SIGALRM, alarm)
    out = []
    real_stdout = sys.stdout
    for j in jobs:
        inst = insts[j['inst']]
        vals = {k: conc.dec(v) for k, v in j['inputs'].items()}
        fn = getattr(inst, 'native', None) or inst.opts.get('native') or inst.fn
        r = ('ok', '')
        sys.stdout = open(os.devnull, 'w')
        try:
            info = {}
            more = j.get('alts')
            for alt in range(0, 1 + 2 * len(conc.SPECIAL) + (more or 0)):
                if alt and (more is None or not info.get('ec') and alt > more):
                    break
                signal.setitimer(signal.ITIMER_REAL, inst.opts.get('native_s', 20))
                try:
                    r = conc.run_concrete(fn, inst.params, vals, alt, info)
                except Tmo:
                    r = ('violation', 'does not terminate within %ss' % inst.opts.get('native_s', 20)) if inst.opts.get('hang_is_violation') else ('timeout', '')
                    break
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                if r[0] == 'violation':
                    break
        finally:
            sys.stdout = real_stdout
        out.append(r)
        if sys.argv[1] != '-':
            print('%s: %s %s' % (j.get('name', j['inst']), r[0], r[1]))
    print('RESULT ' + json.dumps(out))
    return 1 if any(r[0] == 'violation' for r in out) else 0


if __name__ == '__main__':
    sys.exit(main())
