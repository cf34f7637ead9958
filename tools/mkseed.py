"""Build and confirm planted bugs: python3 tools/mkseed.py SPEC.py [only]
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo=python source)].
Each is built in a scratch copy of /repo and kept under /verif/seeded only after it is confirmed:
the patched tree builds, passes the stable tests, the demo passes before and fails after."""
import json, os, subprocess, sys, shutil, runpy, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2] if len(sys.argv) > 2 else ''
LATER = [l for l in subprocess.check_output(['git', '-C', '/repo', 'rev-list', 'HEAD'], text=True).split()]
BASE = LATER[-1]


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=300, **kw)


for s in specs:
    if only and only not in s['id']:
        continue
    scratch = tempfile.mkdtemp(prefix='seed_')
    try:
        w = scratch + '/repo'
        run(['cp', '-a', '/repo', w])
        run(['git', 'checkout', '--', '.'], cwd=w)
        bad = None
        for f, old, new in s['edits']:
            t = open('%s/%s' % (w, f)).read()
            if t.count(old) != 1:
                bad = '%d occurrences of %r' % (t.count(old), old)
                break
            line = t[:t.index(old)].count('\n') + 1
            n = old.count('\n') + (0 if old.endswith('\n') else 1)
            bl = run(['git', 'blame', '-s', '-l', '-L', '%d,+%d' % (line, n), f], cwd=w).stdout.splitlines()
            mine = [l for l in bl if not l.startswith('^' + BASE[:10])]
            # context lines may be mine: only lines that change matter
            import difflib
            ol, nl = t.splitlines(), t.replace(old, new).splitlines()
            ch = set()
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl, autojunk=False).get_opcodes():
                if tag != 'equal':
                    ch |= set(range(i1 + 1, i2 + 1))
            for l in ch:
                b = run(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (l, l), f], cwd=w).stdout
                if not b.startswith('^'):
                    print('   note: changed line %d is from a later commit: %s' % (l, b.strip()[-60:]))
            if not ch:
                print('   note: pure insertion')
            open('%s/%s' % (w, f), 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'BAD:', bad)
            continue
        diff = run(['git', 'diff'], cwd=w).stdout
        d = scratch + '/seed'
        os.mkdir(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        # tests run on /repo path: do it in place on the scratch copy via PYTHONPATH-free driver
        a = run(['sh', d + '/demo.sh'], cwd=w)
        run(['git', 'stash'], cwd=w)
        b = run(['sh', d + '/demo.sh'], cwd=w)
        run(['git', 'stash', 'pop'], cwd=w)
        ok = a.returncode != 0 and b.returncode == 0
        msg = 'patched rc=%d clean rc=%d' % (a.returncode, b.returncode)
        if b.returncode:
            msg += '\n' + b.stdout[-600:] + b.stderr[-900:]
        if any('/ecdsa/' in f or 'ecc' in f for f, _, _ in s['edits']) and ok:
            # only nbc/util/ecdsa is covered by the stable tests
            if run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode:
                ok, msg = False, msg + ' does not apply'
            else:
                try:
                    run(['bash', '/opt/vp/build.sh'])
                    t = run(['bash', '/opt/vp/test.sh', scratch + '/o.json'])
                    last = t.stdout.strip().splitlines()[-1]
                    msg += ' tests: ' + last
                    ok = ok and last.startswith('46 passed, 0 failed')
                finally:
                    run(['git', '-C', '/repo', 'apply', '-R', d + '/patch.diff'])
        print(s['id'], 'OK' if ok else 'NOT KEPT', msg)
        if a.returncode:
            print('     ', (a.stderr.strip().splitlines() or a.stdout.strip().splitlines() or ['-'])[-1][:150])
        if ok:
            dst = '%s/seeded/%s' % (HERE, s['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
