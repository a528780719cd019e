"""Run behaviours on the real code (in a process of its own).

usage: worker.py DRIVER CONFIG MODE < jobs > results

MODE replay: each input line is a JSON list of operations; the output line is
             the JSON list of observations.
MODE random: each input line is a JSON object {seed, length, ...}; the output
             line is a JSON list of [operation, observation] pairs.

An observation is an object of strings.  A behaviour which takes more than
its time limit or ends in an unexpected exception yields {"crash": reason} as
the observation of the operation concerned, and ends there.
"""
import sys, os, json, signal, traceback, random, resource

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, HERE)


MEMORY = 3 << 30


class Timeout(BaseException):
    pass


def _alarm(*args):
    raise Timeout()


def main():
    driver_name, config, mode = sys.argv[1:4]
    # a change which makes the library eat memory fails here, and not the machine
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # whatever the library prints is not a result
    import importlib
    signal.signal(signal.SIGALRM, _alarm)
    out.write('"ready"\n')
    out.flush()
    from vrml import field
    accel = field.fieldaccel2 is not None
    if accel != (config == 'accel'):
        out.write(json.dumps({'config-error': 'accelerator loaded: %s' % accel}) + '\n')
        return
    module = importlib.import_module('drivers.' + driver_name)
    driver = module.Driver(config)
    limit = getattr(driver, 'limit', 20)
    for n, line in enumerate(sys.stdin):
        job = json.loads(line)
        out.write('"start"\n')
        out.flush()
        signal.setitimer(signal.ITIMER_REAL, limit)
        result = []
        op = None
        try:
            if mode == 'replay':
                driver.reset(job.get('id', n), job.get('params') or {})
                for op in job['ops']:
                    result.append(driver.do(op))
            else:
                rng = random.Random(job['seed'])
                driver.reset(job['seed'], job, rng)
                for i in range(job['length']):
                    op = driver.gen(rng)
                    if op is None:
                        break
                    obs = driver.do(op)
                    result.append([op, obs])
        except Timeout:
            crash = {'crash': 'no end after %ss' % limit}
            result.append(crash if mode == 'replay' else [op, crash])
        except Exception as err:
            crash = {'crash': '%s: %s' % (type(err).__name__, err),
                     'where': traceback.format_exc()[-1500:]}
            result.append(crash if mode == 'replay' else [op, crash])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            driver.cleanup()
        except Exception:
            pass
        out.write(json.dumps(result) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
