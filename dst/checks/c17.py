"""Threads working on objects of their own do not affect one another.

Every thread's program is run alone first; then all of them together, under a
seeded scheduler which may switch at any source line (or opcode) of the
library. What a thread saw - outcomes, callbacks, values, documents - must be
what it saw alone."""
import _thread
import copy
import importlib
import json
import os
import random
import sys
import warnings

from .. import core, seams
from ..coregen import Gen, config
from ..coreworld import PASS_THROUGH, RealSide, World
from ..sched import Deadlock, Scheduler
from ..sim import Injector, preemptions, require, wchoice

ROOTS = ['', '', '', 'base', 'handlers.py', 'basic.py', 'base/base.py', 'base/containers.py', 'base/instance.py',
         'base/union.py', 'utils.py', 'math.py', 'link.py', 'extras']

BUDGET = 300000


class Tape(core.Stats):
    """Statistics which keep every line logged"""

    def __init__(self):
        super().__init__()
        self.lines = []

    def log(self, *event):
        super().log(*event)
        self.lines.append(self.tail[-1])


# -- worlds that several threads share ------------------------------------------------

_overlays = {}      # thread -> {id(world): attributes of its own}


def shared(cls):
    """The world's classes belong to everybody, its state to each thread"""

    class Shared(cls):
        def __getattribute__(self, name):
            own = _overlays.get(_thread.get_ident())
            if own is not None:
                own = own.get(id(self))
                if own is not None and name in own:
                    return own[name]
            return object.__getattribute__(self, name)

        def __setattr__(self, name, value):
            own = _overlays.get(_thread.get_ident())
            own = own.get(id(self)) if own is not None else None
            if own is None:
                object.__setattr__(self, name, value)
            else:
                own[name] = value
    Shared.__name__ = cls.__name__
    return Shared


def adopt(world, **own):
    """Let the running thread have its own state of a shared world"""
    for k, v in object.__getattribute__(world, '__dict__').items():
        if k not in own and isinstance(v, (list, dict, set)):
            own[k] = copy.copy(v)
    _overlays.setdefault(_thread.get_ident(), {})[id(world)] = own
    return world


# -- programs ---------------------------------------------------------------------------

class ScenarioProgram(object):
    """The program of a scenario of another check, in its own world or a shared one"""

    def __init__(self, pid, name, plan):
        self.pid, self.name, self.plan = pid, name, plan

    def scenario(self):
        mod = importlib.import_module('dst.checks.%s' % self.pid.lower())
        return copy.copy(mod.CHECK.scenarios[self.name])

    def host(self, st):
        return shared(self.scenario().world)(self.plan, st)

    def run(self, tape, host=None):
        s = self.scenario()
        if host is not None:
            s.world = lambda plan, st: adopt(host, st=st, inj=Injector(st), plan=self.plan)
        s.run(self.plan, tape)


class CoreProgram(object):
    """A core-world program"""

    def __init__(self, plan):
        self.plan = plan

    def host(self, st):
        side = shared(RealSide)()

        class W(World):
            def factory(self, key, vals, state):
                if not self.defining:
                    # (each thread has its own count of the calls)
                    state = self.cms.setdefault(('factory', id(state)), {'n': 0})
                return World.factory(self, key, vals, state)
        return shared(W)(self.plan, side, None)

    def run(self, tape, host):
        world = adopt(host, plan=self.plan, st=tape)
        side = adopt(world.side)
        try:
            for op in self.plan['ops']:
                out = world.run_op(op)
                for e in world.events:
                    tape.log('event', e)
                tape.log(op['i'], op['a'], out)
                tape.log('state', side.snapshot())
                if out[0] in ('reject', 'raise') or world.fired or world.swallowed:
                    tape.nontrivial = True
        finally:
            for k in [k for k in world.cms if isinstance(k, tuple)]:
                del world.cms[k]
            world.outstanding()


# -- running ------------------------------------------------------------------------------

def perform(program, tape, host, seed):
    """Runs one program in this thread; how it ended"""
    me = _thread.get_ident()
    seams.thread_sources(seed)
    _overlays[me] = {}
    try:
        program.run(tape, host)
        return None
    except core.Violation as err:
        return ['violation', err.kind, err.msg]
    except PASS_THROUGH as err:
        return ['stopped', type(err).__name__]
    except Deadlock:
        raise
    except BaseException as err:
        return ['raised', type(err).__name__, core.in_library(err) or core.in_harness(err)]
    finally:
        _overlays.pop(me, None)
        seams.thread_sources(None)


class Threads(core.Scenario):
    name = 'threads'
    quick = 1200
    thorough = 60000
    batch = 25
    shares = True

    def programs(self, plan):
        raise NotImplementedError

    def schedule(self, rng, n):
        hi = int(10 ** rng.uniform(1, 4.2))
        return dict(root=rng.choice(ROOTS), gran='op' if rng.random() < .5 else 'line',
                    preempt=preemptions(rng, n, hi, rng.choice([3, 6, 12, 24])))

    def together(self, programs, plan, seed, budget=BUDGET):
        """All programs under the scheduler: [(tape, ending)], scheduler"""
        seams.reset(seed)
        tapes = [Tape() for _ in programs]
        ends = [None] * len(programs)
        host = programs[0].host(core.Stats()) if self.shares else None
        root = os.path.join(os.path.realpath(seams.REPO), 'properties', plan['schedule']['root'])
        s = Scheduler(root, plan['schedule']['preempt'], plan['schedule']['gran'], budget)

        def body(k):
            def go():
                ends[k] = perform(programs[k], tapes[k], host, '%s/%d' % (seed, k))
            return go
        try:
            s.run([body(k) for k in range(len(programs))])
            self.points = s.points
        except Deadlock:
            if s.exhausted and (budget > BUDGET or self.heavy(programs, plan, seed)):
                return None, s
            raise core.Violation('no-progress' if s.exhausted else 'deadlock', 'the threads are stuck')
        return list(zip(tapes, ends)), s

    def heavy(self, programs, plan, seed):
        """Do the programs take so long one after the other?"""
        calm = dict(plan, schedule=dict(plan['schedule'], preempt=[]))
        self.together(programs, calm, seed, BUDGET * 20)
        return self.points > BUDGET / 4

    def alone(self, programs, k, seed):
        seams.reset(seed)
        tape = Tape()
        host = programs[k].host(core.Stats()) if self.shares else None
        end = []
        # (in a thread of its own too: as much stack as it has with the others)
        Scheduler('', [], 'none').run([lambda: end.append(perform(programs[k], tape, host, '%s/%d' % (seed, k)))])
        return tape, end[0]

    def run(self, plan, st):
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(6000)
        try:
            self.compare(plan, st)
        finally:
            sys.setrecursionlimit(limit)

    def compare(self, plan, st):
        self.parted = None
        seed = plan.get('seed', 0)
        programs = self.programs(plan)
        solo = [self.alone(programs, k, seed) for k in range(len(programs))]
        for tape, end in solo:
            if end is not None:
                # (not even alone: another check's business)
                st.foreign = '%s (alone)' % end[1]
                return
        both, s = self.together(programs, plan, seed)
        if both is None:
            st.probe('too long')
            return
        st.switches += len(s.switches)
        st.log('switches', s.switches)
        if s.switches:
            st.nontrivial = True
            st.faults['pre-emption'] += len(s.switches)
        for k, ((was, _), (tape, end)) in enumerate(zip(solo, both)):
            st.steps += tape.steps
            st.faults.update(tape.faults)
            st.log(k, len(tape.lines), tape.digest())
            for a, b in zip(was.lines, tape.lines):
                if a != b:
                    self.parted = [json.loads(x) if len(x) < 400 else x for x in (a, b)]
                require(a == b, 'interference', 'alone, thread %d saw %s; with others, %s', k, a[:300], b[:300])
            require(end is None, 'interference', 'thread %d ended with %s, alone it does not', k, end)
            require(len(was.lines) == len(tape.lines), 'interference', 'thread %d did %d things alone and %d with others',
                    k, len(was.lines), len(tape.lines))


CFG = config(scopes=.12, faults=.15, listeners=(0, 3), instance_listeners=.1, bad=.25, renamed=.25, dynamic=.25,
             n_ops=(3, 9), probes=1, weights=dict(get=1.5, keys=1, mutraw=.5), act_weights=dict(scoped=1))


class Core(Threads):
    """Classes shared by all threads, objects of their own"""
    name = 'classes'
    quick = 1600
    thorough = 80000

    def cfg(self, rng):
        return CFG

    def gen(self, rng, tier):
        cfg = copy.deepcopy(self.cfg(rng))
        g = Gen(rng, cfg)
        classes = g.classes()
        n = rng.choice([2, 2, 2, 3])
        ops = []
        for _ in range(n):
            one = Gen(rng, cfg)
            one.specs, one.lid = g.specs, g.lid
            plan = one.operations({'classes': classes, 'ops': []})
            g.lid = one.lid
            ops.append(plan['ops'])
        return {'classes': classes, 'threads_ops': ops, 'schedule': self.schedule(rng, n)}

    def programs(self, plan):
        return [CoreProgram({'classes': plan['classes'], 'ops': ops}) for ops in plan['threads_ops']]

    def alone(self, programs, k, seed):
        return self.warned(programs, lambda: super(Core, self).alone(programs, k, seed))

    def together(self, programs, plan, seed, *budget):
        return self.warned(programs, lambda: super(Core, self).together(programs, plan, seed, *budget))

    def warned(self, programs, call):
        old = warnings.filters[:], warnings.showwarning
        host = []
        make = CoreProgram.host

        def show(message, category, filename, lineno, file=None, line=None):
            if host and issubclass(category, (FutureWarning, DeprecationWarning)) and 'NumPy' not in str(message) \
                    and 'array' not in str(message):
                host[0].log('warn')

        def remember(self_, st):
            host[:] = [make(self_, st)]
            return host[0]
        CoreProgram.host = remember
        warnings.simplefilter('always')
        warnings.showwarning = show
        try:
            return call()
        finally:
            CoreProgram.host = make
            warnings.filters[:], warnings.showwarning = old


class Forked(random.Random):
    """Draws the classes from one seed and everything else from another"""

    def __init__(self, first, then):
        super().__init__(first)
        self.then = then

    def fork(self):
        self.seed(self.then)


def shorten(rng, pid, plan):
    if pid in ('C06', 'C07', 'C19'):
        del plan['ops'][rng.randint(3, 10):]


class Documents(Threads):
    """Graphs and documents of shared classes"""
    name = 'documents'
    pick = {('C05', 'graphs'): 1.5, ('C08', 'graphs'): 3, ('C06', 'persist'): 1, ('C07', 'damage'): 1,
            ('C19', 'frames'): 2}

    def gen(self, rng, tier):
        pid, name = wchoice(rng, self.pick)
        s = self.scenario(pid, name)
        n = rng.choice([2, 2, 2, 3])
        first = rng.random()
        plans = []
        for _ in range(n):
            plan = s.gen(Forked(first, rng.random()), 'quick')
            for k in ('classes', 'rules', 'opts'):
                if plans and k in plan:
                    plan[k] = plans[0][k]
            shorten(rng, pid, plan)
            plans.append(plan)
        return {'of': [pid, name], 'threads_ops': [p.pop('ops') for p in plans], 'rest': plans[0],
                'schedule': self.schedule(rng, n)}

    @staticmethod
    def scenario(pid, name):
        return importlib.import_module('dst.checks.%s' % pid.lower()).CHECK.scenarios[name]

    def programs(self, plan):
        pid, name = plan['of']
        return [ScenarioProgram(pid, name, dict(copy.deepcopy(plan['rest']), ops=copy.deepcopy(ops)))
                for ops in plan['threads_ops']]


class Mixed(Threads):
    """Whatever the threads do: nothing in common but the library"""
    name = 'anything'
    shares = False
    pick = {('C05', 'graphs'): 1, ('C08', 'graphs'): 1, ('C06', 'persist'): 1, ('C07', 'damage'): 1,
            ('C09', 'histories'): 1.5, ('C10', 'graphs'): 1.5, ('C11', 'histories'): 1, ('C12', 'links'): 2,
            ('C13', 'containers'): 2, ('C19', 'frames'): 1, ('C01', None): 1}

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 2, 3])
        same = wchoice(rng, self.pick) if rng.random() < .6 else None
        threads = []
        for _ in range(n):
            pid, name = same or wchoice(rng, self.pick)
            if name is None:
                plan = Gen(rng, config(faults=.3, n_ops=(3, 9), probes=1)).plan()
            else:
                plan = Documents.scenario(pid, name).gen(rng, 'quick')
                shorten(rng, pid, plan)
            threads.append({'of': [pid, name], 'plan': plan})
        return {'threads': threads, 'schedule': self.schedule(rng, n)}

    def programs(self, plan):
        return [self.program(t) for t in plan['threads']]

    def program(self, t):
        pid, name = t['of']
        if name is None:
            return ScenarioProgram(pid, 'faults', copy.deepcopy(t['plan']))
        return ScenarioProgram(pid, name, copy.deepcopy(t['plan']))


CHECK = core.Check(
    'C17', [Core(), Documents(), Mixed()],
    real=['all of properties: classes, listeners, defaults, validation, containers, serialization, links, uids, singletons'],
    stub=['thread scheduling: seeded, at source lines or opcodes of the whole library or of one module',
          'user callbacks: scripted, with injected exceptions; uuid and random: seeded per thread',
          'locks: cooperative'],
    rule='a run counts when threads were switched at a scheduling point; histories are distinct by sha1 of the switches '
         'and of every thread\'s transcript')
