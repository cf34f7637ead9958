"""Run the check of each planted bug's property against it: python3 tools/runseeds.py [id-substring...]"""
import json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pats = sys.argv[1:]
for sid in sorted(os.listdir(HERE + '/seeded')):
    if pats and not any(p in sid for p in pats):
        continue
    d = HERE + '/seeded/' + sid
    prop = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists('%s/checks/%s.py' % (HERE, prop.lower())):
        print(sid, 'no check', flush=True)
        continue
    w = tempfile.mkdtemp(prefix='rs_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=w + '/repo')
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo')
        if r.returncode:
            print(sid, 'DOES NOT APPLY', flush=True)
            continue
        t = time.time()
        env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_EVIDENCE=w, VERIF_TIER='quick', VERIF_SEED='1')
        p = subprocess.run(['python3-vt', HERE + '/check.py', prop, '--tier', 'quick'], env=env, cwd=HERE, capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-28s %s %s rc=%d %.0fs %s' % (sid, prop, 'CAUGHT' if p.returncode == 1 and v else 'MISSED', p.returncode, time.time() - t, ''), flush=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-500:], p.stderr[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
