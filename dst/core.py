"""Seeded runs, worker pool, confirmation, minimisation, replay, evidence."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

from . import seams

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
RUN_CPU_LIMIT = float(os.environ.get('VERIF_RUN_CPU', '20'))

# keys of a plan whose list values the minimiser may shorten
SHRINK_KEYS = {'ops', 'acts', 'listeners', 'faults', 'preempt', 'kwargs', 'body',
               'threads_ops', 'items', 'damage', 'props', 'links', 'edges'}


class Violation(Exception):
    """The property is broken: kind is stable, msg is canonical (no addresses)"""

    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class NoProgress(BaseException):
    pass


class Stats(object):
    """What one run did; also its event log (hashed)"""

    def __init__(self):
        self.steps = 0
        self.hash = hashlib.sha1()
        self.tail = collections.deque(maxlen=60)
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.nontrivial = False
        self.switches = 0
        self.foreign = None

    def log(self, *event):
        self.steps += 1
        line = json.dumps(event, sort_keys=True, default=repr)
        self.hash.update(line.encode('utf-8', 'backslashreplace'))
        self.tail.append(line[:400])

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self.hash.hexdigest()


class Scenario(object):
    """One simulated configuration of a check. Subclasses define gen and run."""
    name = 'scenario'
    quick = 800
    thorough = 40000
    batch = 40
    rule = ''

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, st):
        raise NotImplementedError


class Check(object):
    def __init__(self, pid, scenarios, real, stub, rule, assumptions=()):
        self.pid = pid
        self.scenarios = {s.name: s for s in scenarios}
        self.real = real
        self.stub = stub
        self.rule = rule
        self.assumptions = list(assumptions)


# how many times over the scenarios' basic quick counts a quick run goes, so that
# every check takes about the same time (under a minute on eight cores)
PACE = dict(C01=3, C02=2, C03=3, C04=2, C05=6, C06=4, C07=2, C08=8, C09=6, C10=3,
            C11=4, C12=6, C13=4, C14=3, C15=3, C16=5, C17=2, C18=4, C19=4, C20=4)

# checks with simulated threads: the library gets scheduling points
THREADED = ('C04', 'C11', 'C15', 'C17')


def get_check(pid):
    seams.load(points=pid in THREADED)
    mod = importlib.import_module('dst.checks.%s' % pid.lower())
    return mod.CHECK


# -- executing -----------------------------------------------------------

def _alarm(signum, frame):
    raise NoProgress()


def execute(scenario, plan):
    """Run one plan in this process. Returns (Stats, violation or None)"""
    st = Stats()
    seams.reset(plan.get('seed', 0))
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT, 1.0)
    try:
        try:
            scenario.run(plan, st)
            bad = None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as err:
        bad = (err.kind, err.msg)
    except NoProgress:
        bad = ('no-progress', 'the run did not finish within %gs of CPU time' % RUN_CPU_LIMIT)
    except Exception as err:
        # the code under test raised, or did something that made the harness
        # raise, where nothing of the kind ever happens on a correct tree
        where = in_library(err) or in_harness(err)
        bad = ('unexpected-exception', '%s from %s' % (type(err).__name__, where))
    return st, bad


def in_library(err):
    """The deepest library function in the traceback, if it ends in library code"""
    root = os.path.join(os.path.realpath(seams.REPO), 'properties') + os.sep
    where = None
    tb = err.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            where = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return where


def in_harness(err):
    tb, where = err.__traceback__, '?'
    while tb is not None:
        where = '%s:%s' % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return '%s (%s)' % (where, err)


def plan_for(scenario, base, pid, index, tier):
    seed = '%s/%s/%s/%d' % (base, pid, scenario.name, index)
    plan = scenario.gen(random.Random(seed), tier)
    plan['seed'] = seed
    plan['scenario'] = scenario.name
    # what runs is what a replay file would contain
    return json.loads(json.dumps(plan))


def in_child(func):
    """Run func() in a forked child (fresh library state); returns its value"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            except (ValueError, OSError):
                pass
            try:
                out = ('ok', func())
            except BaseException:
                out = ('error', traceback.format_exc())
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    return pid, rfd


def collect(pid, rfd):
    with os.fdopen(rfd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ('error', 'simulation child died without a result')
    return pickle.loads(data)


def call_in_child(func):
    status, out = collect(*in_child(func))
    if status != 'ok':
        raise RuntimeError('harness error in child:\n%s' % out)
    return out


def run_batch(scenario, base, pid, start, stop, tier):
    res = dict(runs=0, steps=0, faults=collections.Counter(), probes=collections.Counter(),
               digests=[], nontrivial=[], switches=0, foreign=collections.Counter(),
               violation=None, sample=None, start=start)
    for index in range(start, stop):
        plan = plan_for(scenario, base, pid, index, tier)
        st, bad = execute(scenario, plan)
        res['runs'] += 1
        res['steps'] += st.steps
        res['faults'].update(st.faults)
        res['probes'].update(st.probes)
        res['switches'] += st.switches
        d = st.digest()
        res['digests'].append(d)
        if st.nontrivial:
            res['nontrivial'].append(d)
        if st.foreign:
            res['foreign'][st.foreign] += 1
        if res['sample'] is None and st.nontrivial and bad is None:
            res['sample'] = dict(plan=plan, tail=list(st.tail)[-12:])
        if bad is not None:
            res['violation'] = dict(index=index, plan=plan, kind=bad[0], msg=bad[1])
            break
    return res


def run_all(check, base, tier, log=lambda *_: None):
    """Yield batch results, running WORKERS children at a time"""
    jobs = []
    for s in check.scenarios.values():
        total = getattr(s, tier) * (PACE.get(check.pid, 1) if tier == 'quick' else 1)
        scale = os.environ.get('VERIF_SCALE')
        if scale:
            total = max(s.batch, int(total * float(scale)))
        for start in range(0, total, s.batch):
            jobs.append((s, start, min(total, start + s.batch)))
    # interleave scenarios so that an early stop has sampled all of them
    jobs.sort(key=lambda j: (j[1], j[0].name))
    import selectors
    sel = selectors.DefaultSelector()
    live = {}
    stop = False
    njob = 0
    try:
        while (jobs and not stop) or live:
            while jobs and not stop and len(live) < WORKERS:
                s, a, b = jobs.pop(0)
                pid, rfd = in_child(lambda: run_batch(s, base, check.pid, a, b, tier))
                live[rfd] = (pid, s, a, b, njob)
                njob += 1
                sel.register(rfd, selectors.EVENT_READ)
            for key, _ in sel.select():
                rfd = key.fd
                sel.unregister(rfd)
                pid, s, a, b, n = live.pop(rfd)
                status, out = collect(pid, rfd)
                if status != 'ok':
                    raise RuntimeError('harness error in %s [%d,%d):\n%s' % (s.name, a, b, out))
                if out['violation'] is not None:
                    stop = True
                yield s, out, n
    finally:
        for rfd, (pid, s, a, b, n) in live.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


# -- minimising ------------------------------------------------------------

def run_plans(scenario, plans):
    """Run plans in order in one fresh child; violation of the last one"""
    def body():
        for plan in plans[:-1]:
            execute(scenario, plan)
        st, bad = execute(scenario, plans[-1])
        return bad, st.digest(), list(st.tail)
    return call_in_child(body)


def _lists(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            if k in SHRINK_KEYS and isinstance(node[k], list) and node[k]:
                yield path + (k,)
            for p in _lists(node[k], path + (k,)):
                yield p
    elif isinstance(node, list):
        for i, v in enumerate(node):
            for p in _lists(v, path + (i,)):
                yield p


def _at(node, path):
    for k in path:
        node = node[k]
    return node


def _with(plan, path, value):
    new = json.loads(json.dumps(plan))
    parent = _at(new, path[:-1])
    parent[path[-1]] = value
    return new


def minimise(scenario, plan, kind, prefix=(), budget=45.0):
    deadline = time.monotonic() + budget
    tried = 0

    def fails(candidate):
        try:
            bad, _, _ = run_plans(scenario, list(prefix) + [candidate])
        except RuntimeError:        # the shortened plan is not a possible one
            return False
        return bad is not None and bad[0] == kind

    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for path in list(_lists(plan)):
            try:
                cur = _at(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            size = len(cur)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(cur) and time.monotonic() < deadline:
                    cand_list = cur[:i] + cur[i + size:]
                    cand = _with(plan, path, cand_list)
                    tried += 1
                    if fails(cand):
                        plan = cand
                        cur = cand_list
                        changed = True
                    else:
                        i += size
                size //= 2
    return plan, tried


# -- the check command --------------------------------------------------------

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == pid]


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True, default=repr)
        f.write('\n')
    os.replace(tmp, path)


def check(pid, tier, seed):
    t0 = time.time()
    chk = get_check(pid)
    print('check %s tier=%s VERIF_SEED=%s repo=%s' % (pid, tier, seed, seams.REPO))
    sys.stdout.flush()
    runs = steps = switches = 0
    faults, probes, foreign = collections.Counter(), collections.Counter(), collections.Counter()
    per_scenario = collections.Counter()
    digests, nontrivial = set(), set()
    samples = {}
    violations = []
    for s, out, n in run_all(chk, seed, tier):
        runs += out['runs']
        steps += out['steps']
        switches += out['switches']
        faults.update(out['faults'])
        probes.update(out['probes'])
        foreign.update(out['foreign'])
        per_scenario[s.name] += out['runs']
        digests.update(out['digests'])
        nontrivial.update(out['nontrivial'])
        if out['sample'] and (s.name not in samples or n < samples[s.name][0]):
            samples[s.name] = (n, out['sample'])
        if out['violation']:
            violations.append((n, s, out['violation'], out['start']))
    search_s = time.time() - t0
    rc = 0
    if violations:
        violations.sort(key=lambda v: v[0])
        rc = report(chk, violations, tier, seed)
    wall = time.time() - t0
    per_hour = int(runs * 3600 / max(search_s, 1e-6))
    evidence = dict(
        property=pid, tier=tier, seed=int(seed), level='exploration',
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(nontrivial),
            rule=chk.rule,
            samples=[dict(scenario=k, **v[1]) for k, v in sorted(samples.items())][:4],
            simulated_runs=runs,
            seeds_per_hour=per_hour,
            runs_by_scenario=dict(per_scenario),
            simulated_steps=steps,
            simulated_time_note='the library has no clock: simulated time is counted in logical steps '
                                '(operations, callbacks, notifications, scheduling points) = simulated_steps',
            faults_fired=dict(faults),
            probes=dict(probes),
            distinct_histories=len(digests),
            distinct_measure='sha1 of the full event log of a run (operations, callbacks, notifications, '
                             'outcomes, states, thread switches)',
            thread_switches=switches,
            divergences_left_to_other_properties=dict(foreign),
            components_real=chk.real,
            components_stub=chk.stub,
        ),
        assumptions=chk.assumptions,
        wall_s=round(wall, 3),
        violations=1 if rc == 1 else 0,
    )
    write_json(os.path.join(VERIF, 'evidence', '%s.json' % pid), evidence)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d runs, %d steps, %d distinct non-trivial histories, %d faults of %d kinds, %.1fs, exit %d'
          % (pid, runs, steps, len(nontrivial), sum(faults.values()), len(faults), wall, rc))
    return rc


def report(chk, violations, tier, seed):
    """Confirm in a fresh process, minimise, write the replay file"""
    for n, s, v, start in violations:
        prefix = []
        try:
            bad, _, _ = run_plans(s, [v['plan']])
        except RuntimeError as err:
            print(err)
            bad = None
        if bad is None:
            # needs what earlier runs of the batch left behind in the library
            prefix = [plan_for(s, seed, chk.pid, i, tier) for i in range(start, v['index'])]
            bad, _, _ = run_plans(s, prefix + [v['plan']])
            if bad is None:
                print('unreproducible report dropped: %s %s' % (v['kind'], v['msg']))
                continue
            # keep only the part of the prefix that is needed
            deadline = time.monotonic() + 40
            size = max(1, len(prefix) // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(prefix) and time.monotonic() < deadline:
                    cand = prefix[:i] + prefix[i + size:]
                    b, _, _ = run_plans(s, cand + [v['plan']])
                    if b is not None and b[0] == bad[0]:
                        prefix = cand
                    else:
                        i += size
                size //= 2
        kind = bad[0]
        if kind == 'no-progress':
            plan, tried = v['plan'], 0
        else:
            plan, tried = minimise(s, v['plan'], kind, prefix)
        bad, digest, tail = run_plans(s, prefix + [plan])
        if bad is None:
            continue
        name = '%s-%s-%s.json' % (chk.pid, s.name, hashlib.sha1(
            json.dumps([prefix, plan], sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(VERIF, 'replays', name)
        write_json(path, dict(property=chk.pid, scenario=s.name, seed=v['plan']['seed'],
                              kind=bad[0], message=bad[1], digest=digest, plan=plan,
                              prefix=prefix, tail=tail, minimise_attempts=tried))
        print('seed %s, scenario %s' % (v['plan']['seed'], s.name))
        print('%s: %s' % bad)
        for line in tail[-15:]:
            print('   ', line)
        print('VIOLATION property=%s replay=%s' % (chk.pid, path))
        return 1
    return 2


def replay(path):
    with open(path) as f:
        r = json.load(f)
    chk = get_check(r['property'])
    s = chk.scenarios[r['scenario']]
    bad, digest, tail = run_plans(s, r['prefix'] + [r['plan']])
    for line in tail:
        print('   ', line)
    if bad is None:
        print('replay: property=%s not violated (recorded %s)' % (r['property'], r['kind']))
        return 0
    same = bad[0] == r['kind'] and bad[1] == r['message'] and digest == r['digest']
    print('%s: %s' % tuple(bad))
    print('replay: %s' % ('identical to the recorded violation' if same
                          else 'violated, but not identically (the code has changed?)'))
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1


def selftest(pid, count, seed):
    """Digests of `count` runs of every scenario, for diffing between processes"""
    chk = get_check(pid)
    out = []
    for s in chk.scenarios.values():
        def body():
            res = []
            for i in range(count):
                plan = plan_for(s, seed, pid, i, 'quick')
                st, bad = execute(s, plan)
                res.append((s.name, i, hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10],
                            st.digest(), bad))
            return res
        out += call_in_child(body)
    return out
