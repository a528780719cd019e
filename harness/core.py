"""The checks' common machinery: explore, generate, replay, validate, report."""
import concurrent.futures, hashlib, json, os, random, shutil, time
import tlc, impl
from tlc import ROOT, BUILD

CONFIGS = ('pure', 'accel')


class Run(object):
    """One run of the check of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.started = time.time()
        self.states = self.transitions = self.behaviours = self.operations = 0
        self.samples = []
        self.parts = []
        self.mismatches = []
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- exploration of the specification alone
    def model_check(self, module, cfg, timeout=800, workers=4, env=None, optional=(), coverage=True):
        t = time.time()
        r = tlc.run(module, cfg, workers=workers, coverage=coverage, timeout=timeout, env=env)
        if r['violated']:
            raise impl.MachineryError('the specification %s violates %s\n%s' % (
                module, r['violated'], r['tail'][-3000:]))
        dead = [a for a, n in r['actions'].items() if n == 0 and a not in ('Init',) and a not in optional]
        if dead:
            raise impl.MachineryError('actions never taken in %s: %s' % (module, dead))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.parts.append({'part': 'model check', 'module': module, 'distinct_states': r['distinct'],
                           'transitions': r['generated'], 'depth': r['depth'],
                           'actions': r['actions'], 'wall_s': round(time.time() - t, 1)})
        return r

    # -- behaviours of the specification
    def generate(self, module, cfg, simulate=None, depth=None, timeout=800, env=None, keep=None):
        """Behaviours [[op, obs], ...] which between them take every transition"""
        t = time.time()
        found = {}
        covered = set()
        count = [0]

        def sink(hist):
            count[0] += 1
            keys = json.dumps([h[0] for h in hist], sort_keys=True)
            if len(hist) > 1:
                covered.add(json.dumps([h[0] for h in hist[:-1]], sort_keys=True))
            found[keys] = hist
        r = tlc.run(module, cfg, workers=1, simulate=simulate, depth=depth, seed=self.seed,
                    timeout=timeout, sink=sink, env=env)
        if r['violated']:
            raise impl.MachineryError('the specification %s violates %s\n%s' % (
                module, r['violated'], r['tail'][-3000:]))
        out = [h for k, h in found.items() if k not in covered]
        if not out:
            raise impl.MachineryError('no behaviours from ' + module + '\n' + r['tail'][-2000:])
        self.states += r['distinct']
        self.transitions += r['generated']
        self.parts.append({'part': 'generate' if simulate is None else 'simulate',
                           'module': module, 'distinct_states': r['distinct'],
                           'transitions': r['generated'], 'behaviours': len(out),
                           'printed': count[0], 'wall_s': round(time.time() - t, 1)})
        if keep is not None and len(out) > keep:
            rng = random.Random(self.seed)
            out = rng.sample(out, keep)
        return out

    # -- replay them on the real code
    def replay(self, name, driver, behaviours, relevant, configs=CONFIGS, params=None):
        t = time.time()
        total = 0
        found = 0
        for config in configs:
            jobs = [{'id': i, 'ops': [h[0] for h in hist], 'params': params or {}}
                    for i, hist in enumerate(behaviours)]
            results = impl.run(driver, config, 'replay', jobs)
            for i, (hist, obs) in enumerate(zip(behaviours, results)):
                total += len(obs)
                found += self._compare(name, driver, config, jobs[i], hist, obs, relevant)
        self.behaviours += len(behaviours) * len(configs)
        self.operations += total
        self.parts.append({'part': 'replay on the implementation', 'name': name, 'driver': driver,
                           'configs': list(configs), 'behaviours': len(behaviours) * len(configs),
                           'operations': total, 'mismatches': found,
                           'wall_s': round(time.time() - t, 1)})
        if behaviours and len(self.samples) < 3:
            b = behaviours[len(behaviours) // 2]
            self.samples.append({'replayed': name, 'behaviour': _shorten(b)})

    def _compare(self, name, driver, config, job, hist, obs, relevant):
        for k, (op, exp) in enumerate(hist):
            if k >= len(obs):
                break
            got = obs[k]
            if 'crash' in got:
                self._mismatch(name, driver, config, job, k, op, 'crash', exp, got, 'replay')
                return 1
            bad = [c for c in exp if got.get(c) != exp[c] and relevant(op, c)]
            if bad:
                for c in bad[:1]:
                    self._mismatch(name, driver, config, job, k, op, c, exp[c], got.get(c), 'replay')
                return 1
        return 0

    def _mismatch(self, name, driver, config, job, k, op, clause, expected, got, how):
        self.mismatches.append({'part': name, 'driver': driver, 'config': config, 'how': how,
                                'step': k + 1, 'operation': op, 'clause': clause,
                                'expected': expected, 'got': got, 'job': job})

    # -- record random executions of the real code, check them by the specification
    def validate(self, name, module, driver, jobs, cfg, relevant, configs=CONFIGS,
                 timeout=800, chunk=400):
        t = time.time()
        steps = 0
        found = 0
        seen = set()
        for config in configs:
            results = impl.run(driver, config, 'random', jobs)
            traces = []
            index = []
            for i, r in enumerate(results):
                for k, (op, obs) in enumerate(r):
                    if 'crash' in obs:
                        self._mismatch(name, driver, config, dict(jobs[i], ops=[s[0] for s in r]), k, op,
                                       'crash', None, obs, 'random')
                        found += 1
                        r = r[:k]
                        break
                if r:
                    self.behaviours += 1
                    steps += len(r)
                    trace = {'params': jobs[i].get('params', {'-': '-'}), 'steps': r}
                    # an execution which went as one before has been checked with that
                    key = hashlib.sha256(json.dumps(trace, sort_keys=True).encode()).digest()
                    if key not in seen:
                        seen.add(key)
                        traces.append(trace)
                        index.append(i)
            size = max(8, min(chunk, -(-len(traces) // 6)))
            bases = list(range(0, len(traces), size))
            with concurrent.futures.ThreadPoolExecutor(6) as pool:
                outcomes = list(pool.map(lambda b: _checked(module, cfg, traces[b:b + size], timeout), bases))
            for base, r in zip(bases, outcomes):
                part = traces[base:base + size]
                self.states += r['distinct']
                self.transitions += r['generated']
                for x in r['lines']:
                    if 'done' in x:
                        continue
                    if x['clause'] == 'not-enabled':
                        raise impl.MachineryError('the driver %s did %s, which the specification does not know' % (
                            driver, part[x['t'] - 1]['steps'][x['i'] - 1]))
                    n = base + x['t'] - 1
                    op = part[x['t'] - 1]['steps'][x['i'] - 1][0]
                    if x['clause'] == 'invariant' or relevant(op, x['clause']):
                        found += 1
                        ops = [s[0] for s in part[x['t'] - 1]['steps']]
                        self._mismatch(name, driver, config, dict(jobs[index[n]], ops=ops), x['i'] - 1, op,
                                       x['clause'], x['expected'], x['got'], 'random')
            if traces and len(self.samples) < 4:
                self.samples.append({'recorded': name, 'config': config,
                                     'execution': _shorten(traces[len(traces) // 2]['steps'])})
        self.operations += steps
        self.parts.append({'part': 'validate recorded executions', 'name': name, 'module': module,
                           'driver': driver, 'configs': list(configs),
                           'executions': len(jobs) * len(configs), 'different': len(seen), 'operations': steps,
                           'mismatches': found, 'wall_s': round(time.time() - t, 1)})

    def record(self, name, module, driver, behaviours, cfg, relevant, configs=CONFIGS, **named):
        """Record executions of the real code with the operations of behaviours, check them"""
        rng = random.Random('%s-%s' % (self.prop, self.seed))
        jobs = [dict(named, ops=[h[0] for h in b], seed=rng.randrange(1 << 30), length=len(b)) for b in behaviours]
        self.validate(name, module, driver, jobs, cfg, relevant, configs)

    def jobs(self, count, length, **named):
        rng = random.Random('%s-%s' % (self.prop, self.seed))
        return [dict(named, seed=rng.randrange(1 << 30), length=length) for i in range(count)]

    # -- verdict
    def finish(self):
        known = known_findings(self.prop)
        fresh, listed = [], {}
        for m in self.mismatches:
            for k in known:
                if matches(k, m):
                    listed[k['id']] = k
                    break
            else:
                fresh.append(m)
        evidence = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.behaviours,
                'impl_operations_compared': self.operations,
                'parts': self.parts,
                'samples': self.samples or ['none'],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.started, 1),
            'violations': len(fresh),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        for p in self.parts:
            print('%-32s %s' % (p['part'], {k: v for k, v in p.items() if k not in ('part', 'actions')}))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if not fresh:
            print('property=%s held on everything explored (%.1fs)' % (self.prop, evidence['wall_s']))
            return 0
        d = os.path.join(BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, self.prop + '.json')
        fresh.sort(key=lambda m: (m['how'] != 'replay', m['step']))
        with open(fn, 'w') as f:
            json.dump(fresh[:20], f, indent=1)
        m = fresh[0]
        print('%d violations; the first: %s (%s), step %d of %s' % (
            len(fresh), m['part'], m['config'], m['step'],
            json.dumps((m['job'].get('ops') or [])[:m['step']])[-2500:]))
        print('  clause %s\n  expected %s\n  got      %s' % (
            m['clause'], json.dumps(m['expected'])[:1500], json.dumps(m['got'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (self.prop, fn))
        return 1


def _checked(module, cfg, traces, timeout):
    """TLC's word on recorded executions"""
    work = tlc.scratch('trace')
    try:
        fn = os.path.join(work, 'traces.json')
        with open(fn, 'w') as f:
            json.dump(traces, f)
        r = tlc.run(module, cfg, env={'TRACE_FILE': fn}, timeout=timeout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    done = [x for x in r['lines'] if 'done' in x]
    if not done or done[0]['done'] != len(traces):
        raise impl.MachineryError('trace validation of %s did not finish\n%s' % (module, r['tail'][-2500:]))
    return r


def _shorten(steps):
    return steps if len(steps) <= 8 else steps[:8] + ['... %d steps in all' % len(steps)]


def known_findings(prop):
    with open(os.path.join(ROOT, 'known-findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def matches(known, m):
    """Whether the mismatch is exactly the known finding"""
    return (known['driver'] == m['driver'] and known['clause'] == m['clause']
            and known['operation'] == m['operation'] and known['expected'] == m['expected']
            and known['got'] == m['got'])


def everything(op, clause):
    return True
