"""Run TLC on a specification and read what it printed."""
import json, os, re, subprocess, tempfile, shutil, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(ROOT, 'build')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """TLC itself failed: an error of the machinery, not a verdict"""


def scratch(prefix):
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + '-', dir=BUILD)


def run(module, cfg, env=None, workers=1, simulate=None, depth=None, seed=1,
        timeout=600, coverage=False, heap='3g', sink=None):
    """Run TLC; returns a dict with the printed JSON lines and the counts.

    module -- name of a module in /verif/spec
    cfg -- text of the configuration
    simulate -- number of random behaviours (None: exhaustive)
    sink -- callable receiving each '@@' line's object (default: collected)
    The verdict is in 'violated' (name of a violated invariant or None).
    """
    work = scratch('tlc')
    try:
        cfgfile = os.path.join(work, module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + work, '-cp', JAR, 'tlc2.TLC',
               '-metadir', os.path.join(work, 'meta'), '-workers', str(workers),
               '-config', cfgfile, '-noGenerateSpecTE']
        if coverage:
            cmd += ['-coverage', '1']
        if simulate is not None:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(seed)]
            if depth:
                cmd += ['-depth', str(depth)]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        e = dict(os.environ)
        e.update(env or {})
        lines, tail, actions = [], [], {}
        errors = None
        res = {'generated': 0, 'distinct': 0, 'violated': None, 'depth': 0}
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors='replace')
        import threading
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        try:
            for line in p.stdout:
                if line.startswith('"@@'):
                    obj = json.loads(json.loads(line)[2:])
                    if sink is not None:
                        sink(obj)
                    else:
                        lines.append(obj)
                    continue
                if line.startswith('Error:') and errors is None:
                    errors = []
                    threading.Timer(20, p.kill).start()
                if errors is not None and len(errors) < 60:
                    errors.append(line)
                tail.append(line)
                if len(tail) > 400:
                    del tail[:200]
                m = re.match(r'(\d+) states generated, (\d+) distinct', line)
                if m:
                    res['generated'], res['distinct'] = int(m[1]), int(m[2])
                m = re.match(r'The number of states generated: (\d+)', line)
                if m:
                    res['generated'] = int(m[1])
                m = re.match(r'Progress: (\d+) states checked', line)
                if m:
                    res['generated'] = max(res['generated'], int(m[1]))
                m = re.match(r'The depth of the complete state graph search is (\d+)', line)
                if m:
                    res['depth'] = int(m[1])
                m = re.match(r'Error: Invariant (\S+) is violated', line)
                if m:
                    res['violated'] = m[1]
                m = re.match(r'Error: Action property (.*) is violated', line)
                if m:
                    res['violated'] = m[1]
                m = re.match(r'Error: Temporal properties were violated', line)
                if m:
                    res['violated'] = 'temporal property'
                m = re.match(r'<(\w+) line .* of module \w+.*>: (\d+):(\d+)', line)
                if m:
                    actions[m[1]] = int(m[3])
            rc = p.wait()
        finally:
            killer.cancel()
        res['actions'] = actions
        res['lines'] = lines
        res['rc'] = rc
        res['tail'] = ''.join(tail if errors is None else errors)
        if rc != 0 and res['violated'] is None:
            raise TLCError('TLC failed on %s (rc %s)\n%s' % (module, rc, ''.join(errors or tail[-60:])))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
