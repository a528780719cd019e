"""Build the compiled accelerators from /repo's working tree, outside of it.

The build is keyed by the content of accelerate/, so a changed tree is always
rebuilt, and an unchanged one is built once.
"""
import fcntl, hashlib, os, shutil, subprocess
from tlc import BUILD

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'


def _files(base):
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x not in ('build', '__pycache__', 'dist')
                         and not x.endswith('.egg-info'))
        for f in sorted(files):
            if f.endswith(('.pyx', '.pxd', '.py', '.h', '.toml', '.cfg', '.in', '.rst', '.txt')):
                yield os.path.join(d, f)


def build():
    """Return a directory to put on PYTHONPATH for the accelerated setup"""
    src = os.path.join(REPO, 'accelerate')
    h = hashlib.sha256()
    for f in _files(src):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    key = h.hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, 'accel-' + key)
    with open(os.path.join(BUILD, 'accel.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(target, '.done')):
            return target
        shutil.rmtree(target, ignore_errors=True)
        os.makedirs(target)
        for f in _files(src):
            d = os.path.join(target, os.path.relpath(f, src))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(f, d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([PYTHON, 'setup.py', 'build_ext', '--inplace', '--force', '-j4'],
                           cwd=target, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError('accelerator build failed\n' + p.stdout[-3000:])
        open(os.path.join(target, '.done'), 'w').close()
        # forget the builds of other trees
        for d in os.listdir(BUILD):
            if d.startswith('accel-') and d != os.path.basename(target):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return target


if __name__ == '__main__':
    print(build())
