"""Feed behaviours to workers running the real code, in parallel."""
import json, os, subprocess, threading, sys
import accel

HERE = os.path.dirname(os.path.abspath(__file__))


class MachineryError(Exception):
    pass


def environment(config):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONSTARTUP')}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    path = [accel.REPO]
    if config == 'accel':
        path.append(accel.build())
    env['PYTHONPATH'] = os.pathsep.join(path)
    return env


def _one(driver, config, mode, jobs, results, errors, env):
    """Run the (index, job) pairs, restarting the worker when it dies"""
    todo = list(jobs)
    while todo:
        p = subprocess.Popen(
            [accel.PYTHON, os.path.join(HERE, 'worker.py'), driver, config, mode],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL
            if not os.environ.get('VERIF_DEBUG') else None,
            text=True, env=env, cwd=HERE)

        def feed(stream=p.stdin, items=list(todo)):
            try:
                for i, job in items:
                    stream.write(json.dumps(job) + '\n')
                stream.close()
            except (BrokenPipeError, ValueError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        ready = started = False
        for line in p.stdout:
            if line == '"ready"\n':
                ready = True
                continue
            if line == '"start"\n':
                started = True
                continue
            value = json.loads(line)
            if isinstance(value, dict) and 'config-error' in value:
                errors.append(value['config-error'])
                p.kill()
                return
            started = False
            i, job = todo.pop(0)
            results[i] = value
        rc = p.wait()
        if todo:
            if not started:
                errors.append('worker for %s (%s) ended with %s' % (driver, config, rc))
                return
            i, job = todo.pop(0)
            crash = {'crash': 'the process ended with %s' % rc}
            results[i] = [crash] if mode == 'replay' else [[None, crash]]


def run(driver, config, mode, jobs, procs=7):
    """Results of the jobs (in order), run on the real code"""
    if not jobs:
        return []
    env = environment(config)
    results = [None] * len(jobs)
    errors = []
    procs = max(1, min(procs, (len(jobs) + 9) // 10))
    threads = []
    for k in range(procs):
        part = [(i, jobs[i]) for i in range(k, len(jobs), procs)]
        t = threading.Thread(target=_one, args=(driver, config, mode, part, results, errors, env))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    if errors:
        raise MachineryError('; '.join(errors[:3]))
    return results
