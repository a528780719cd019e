"""Plant bugs in a scratch copy, confirm them, and say which checks catch them.

usage: plant.py new FILE...     make seeded/<id>/ from bug descriptions (Python files
                                defining ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO and ACCEL)
       plant.py check [ID...]   run the property's quick check against each planted bug
"""
import json, os, re, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
SCRATCH = '/tmp/plant-%d' % os.getpid()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
ENV.pop('PYTHONPATH', None)


def copy():
    drop()
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])


def drop():
    if os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH)


def built(patched):
    if 'accelerate/' in patched:
        subprocess.run(['rm', '-rf', SCRATCH + '/accelerate/build'])
        p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j4'], env=ENV,
                           cwd=SCRATCH + '/accelerate', capture_output=True, text=True)
        if p.returncode:
            print(p.stdout[-2000:], p.stderr[-2000:])
            return False
    return True


def tests():
    bad = []
    for path in (SCRATCH, SCRATCH + ':' + SCRATCH + '/accelerate'):
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=SCRATCH,
                           env=dict(ENV, PYTHONPATH=path), capture_output=True, text=True)
        bad.append(p.stdout.strip().splitlines()[-1])
    return bad


def demo(d):
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=SCRATCH, env=ENV, capture_output=True, text=True,
                       timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def new(fn):
    ns = runpy.run_path(fn)
    for bug in ns['BUGS']:
        d = os.path.join(SEEDED, bug['id'])
        copy()
        try:
            for f, old, new_ in bug['edits']:
                path = os.path.join(SCRATCH, f)
                s = open(path).read()
                if s.count(old) != 1:
                    raise SystemExit('%s: %d places for %r' % (bug['id'], s.count(old), old))
                open(path, 'w').write(s.replace(old, new_))
            diff = subprocess.run(['git', '-C', SCRATCH, 'diff'], capture_output=True, text=True).stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            open(d + '/demo.py', 'w').write(
                'import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n' + bug['demo'])
            open(d + '/demo.sh', 'w').write(
                '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\n%sexec %s "$D/demo.py"\n'
                % ('export PYTHONPATH=$PWD:$PWD/accelerate\n' if bug.get('accel') else 'export PYTHONPATH=$PWD\n', PY))
            ok = built(diff)
            t = tests()
            rc, out = demo(d)
            subprocess.check_call(['git', '-C', SCRATCH, 'apply', '-R', d + '/patch.diff'])
            built(diff)
            rc0, out0 = demo(d)
            good = ok and rc != 0 and rc0 == 0
            print(bug['id'], 'GOOD' if good else 'BAD', 'tests', t, 'demo', rc, rc0)
            print('   ', out.strip().splitlines()[-1:] if rc else '', out0.strip()[-300:] if rc0 else '')
        finally:
            drop()


def check(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        prop = json.load(open(d + '/meta.json'))['property']
        copy()
        try:
            p = subprocess.run(['git', '-C', SCRATCH, 'apply', d + '/patch.diff'], capture_output=True, text=True)
            if p.returncode:
                print(i, 'PATCH DOES NOT APPLY', p.stderr[-300:])
                continue
            if '--demo' in sys.argv:
                built(open(d + '/patch.diff').read())
                print(i, 'demo', demo(d)[0], tests())
                continue
            p = subprocess.run(['python3', os.path.join(ROOT, 'harness', 'check.py'), prop], capture_output=True,
                               text=True, env=dict(ENV, VERIF_REPO=SCRATCH, VERIF_BUILD=SCRATCH + '-build',
                                                   VERIF_SEED='1', VERIF_TIER='quick'))
            lines = p.stdout.strip().splitlines()
            print(i, prop, {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'NO ANSWER'),
                  ' | '.join(lines[-4:])[:500] if p.returncode != 0 else '', flush=True)
            note(i, {0: 'MISSED', 1: 'clause ' + ([l.split()[1] for l in lines if l.strip().startswith('clause ')] or ['?'])[0]}.get(
                p.returncode, 'NO ANSWER'))
        finally:
            drop()
            shutil.rmtree(SCRATCH + '-build', ignore_errors=True)


def note(i, what):
    """Remember the result, for tools/bugtable.py"""
    path = os.path.join(ROOT, 'tools', 'results.json')
    have = json.load(open(path)) if os.path.exists(path) else {}
    have[i] = what
    with open(path, 'w') as f:
        json.dump(have, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for fn in sys.argv[2:]:
            new(fn)
    else:
        check([a for a in sys.argv[2:] if not a.startswith('--')])
