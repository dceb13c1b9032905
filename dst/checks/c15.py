"""C15: a task runs once on validated input and only returns validated output."""
import _thread
import io
import os
import sys

from .. import core, sched, seams
from ..core import Violation
from ..coreworld import EXCS
from ..sched import Deadlock, Scheduler
from ..sim import Injector, attempt, deep, gen_faults, outcome, preemptions, require, wchoice

TYPES = ('int', 'str', 'bool', 'choice', 'list', 'child')
BAD = {'int': ['x', 10 ** 6, [1], {}], 'str': [5, ['a'], {}], 'bool': ['maybe', 2.5, []],
       'choice': ['zzz', 5, ''], 'list': [5, ['x'], [1, [2]]], 'child': [5, {'n': 'x'}, ['n'], 'n']}
LOOSE = 'no such argument'


def good(rng, t):
    return {'int': rng.randint(-5, 99), 'str': rng.choice(['', 'a', 'zz top', '5']), 'bool': rng.random() < .5,
            'choice': rng.choice(['a', 'b']), 'list': [rng.randint(0, 9) for _ in range(rng.randint(0, 3))],
            'child': {'n': rng.randint(0, 9)}}[t]


class Capture(io.StringIO):
    """stdout, by thread"""

    def __init__(self):
        io.StringIO.__init__(self)
        self.texts = {}

    def write(self, s):
        me = _thread.get_ident()
        self.texts[me] = self.texts.get(me, '') + s
        return len(s)

    def take(self):
        return self.texts.pop(_thread.get_ident(), '')


class World(object):
    def __init__(self, plan, st):
        self.p = p = seams.load()
        self.st = st
        self.plan = plan
        self.inj = Injector(st)
        self.x = p.extras
        world = self

        class Child(p.HasProperties):
            _REGISTRY = {}
            n = p.Integer('n', default=0)
        self.Child = Child

        class Stranger(p.HasProperties):
            _REGISTRY = {}
            success = p.Bool('s', default=True)
            log = p.String('l', default='')
        self.Stranger = Stranger
        self.tasks, self.instances = [], []
        self.calls = {}         # cid -> record
        self.local = {}         # thread -> stack of calls
        self.stash = {}         # cid -> output object
        for i, t in enumerate(plan['tasks']):
            self.tasks.append(self.make(i, t))
            self.instances.append([self.tasks[i](), self.tasks[i]()])

    def prop(self, spec):
        p, world = self.p, self
        t = spec['t']
        kw = {}
        if not spec.get('required', True):
            kw['required'] = False
        if 'default' in spec:
            v = deep(spec['default'])
            if spec.get('factory') or t in ('list', 'child'):
                def factory():
                    world.inj.cross('a default factory')
                    return deep(v)
                kw['default'] = factory
            else:
                kw['default'] = v
        if t == 'int':
            out = p.Integer('i', min=-1000, max=1000, **kw)
        elif t == 'str':
            out = p.String('s', **kw)
        elif t == 'bool':
            out = p.Bool('b', **kw)
        elif t == 'choice':
            out = p.StringChoice('c', ['a', 'b'], **kw)
        elif t == 'list':
            out = p.List('l', p.Integer('i'), observe_mutations=spec.get('observe', False), **kw)
        else:
            if 'default' in kw:
                v = deep(spec['default'])

                def child():
                    world.inj.cross('a default factory')
                    return world.Child(**v)
                kw['default'] = child
            out = p.Instance('o', self.Child, **kw)
        if spec.get('custom'):
            def back(value, **kwargs):
                world.inj.cross('a deserializer')
                return value
            out.deserializer = back
        return out

    def holder(self, base, spec, name, index):
        p, world = self.p, self
        ns = dict((n, self.prop(s)) for n, s in spec['props'])
        if name == 'Input':
            ns['cid'] = p.Integer('call id')
        if spec.get('check'):
            n, bad = spec['check']

            def check(self):
                world.inj.cross('a class validator')
                if world.plain(getattr(self, n)) == bad:
                    raise p.ValidationError('refused', 'invalid', n, self)
            ns['_check%d' % index] = p.validator(check)
        return type(p.HasProperties)(str(name), (base,), ns)

    def make(self, i, t):
        world, x = self, self.x
        b = t.get('base')
        parent = self.tasks[b] if b is not None else x.BaseTask
        ns = {}
        if 'in' in t:
            ns['Input'] = self.holder(x.BaseInput if b is None else parent.Input, t['in'], 'Input', i)
        if 'out' in t:
            ns['Output'] = self.holder(x.BaseOutput if b is None else parent.Output, t['out'], 'Output', i)
        if b is None:
            def run(self, input_obj):
                return world.compute(self, input_obj)
            ns['run'] = run
        if t.get('process'):
            def process_output(self, output_obj):
                r = world.top()
                r['processed'].append(output_obj)
                sched.point()
                try:
                    world.inj.cross('process_output')
                except BaseException as err:
                    r['process_error'] = err
                    raise
                return ('processed', r['op']['i'], output_obj)
            ns['process_output'] = process_output
        elif b is None:
            def process_output(self, output_obj):
                world.top()['processed'].append(output_obj)
                sched.point()
                return x.BaseTask.process_output(self, output_obj)
            ns['process_output'] = process_output
        return type(str('T%d' % i), (parent,), ns)

    # what holds, worked out without the library ----------------------------------

    def specs(self, i, which):
        """All properties of a task's Input or Output, and its checks"""
        props, checks = {}, []
        while i is not None:
            t = self.plan['tasks'][i]
            if which in t:
                for n, s in t[which]['props']:
                    props.setdefault(n, s)
                if t[which].get('check'):
                    checks.append(t[which]['check'])
            i = t.get('base')
        return props, checks

    def custom_process(self, i):
        while i is not None:
            t = self.plan['tasks'][i]
            if t.get('process'):
                return True
            i = t.get('base')
        return False

    def filled(self, i, which, args):
        """{name: plain value} of an object made of these, and is it valid"""
        props, checks = self.specs(i, which)
        out, ok = {}, True
        for n, s in sorted(props.items()):
            if n in args:
                v = args[n]
                if isinstance(v, dict) and 'bad' in v:
                    ok = False
                    continue
                out[n] = deep(v)
                if s['t'] == 'child' and not v:
                    out[n] = {'n': 0}
            elif 'default' in s:
                out[n] = deep(s['default'])
            elif s.get('required', True):
                ok = False
        checks = [c for c in checks if c[0] in props]
        if any(n in out and out[n] == bad or n not in out and bad is None for n, bad in checks):
            ok = False
        return out, ok

    def plain(self, v):
        if isinstance(v, self.p.HasProperties):
            return dict((n, self.plain(v._get(n))) for n in v._props if v._get(n) is not None)
        if isinstance(v, list):
            return [self.plain(x) for x in v]
        return v

    # the computation ------------------------------------------------------------

    def top(self):
        return self.local[_thread.get_ident()][-1]

    def compute(self, task, obj):
        r = self.top()
        op = r['op']
        r['runs'] += 1
        # (a custom deserializer is called again, without keywords, after a TypeError)
        r['fired_before'] = len([e for e in self.inj.fired()[r['fired0']:]
                                 if not (e._site == 'a deserializer' and isinstance(e, TypeError))])
        try:
            r['input'] = obj
            r['seen'] = self.plain(obj)
            r['input_class'] = type(obj)
            status, v = attempt(obj.validate) if not self.inj.planned() else ('ok', None)
            r['input_valid'] = status == 'ok'
            r['out'] = self.body(task, obj, r, op)
            require(op.get('mutate') or self.plain(obj) == r['seen'], 'input-changed',
                    'the input of a running computation changed from %s to %s', r['seen'], self.plain(obj))
            return r['out']
        except BaseException as err:
            r['run_error'] = err
            raise

    def body(self, task, obj, r, op):
        p, x = self.p, self.x
        sched.point()
        self.inj.cross('run')
        for s in op.get('status', []):
            ok = s.get('ok', True)
            v = s['v'] if s.get('plain', True) else x.task.TaskStatus(**s['v'])
            if ok:
                pr = s['v'].get('progress')
                r['lines'].append('%s | %3s%% | %s\n' % (type(task).__name__, '?' if pr is None else int(round(100 * pr)),
                                                         s['v'].get('message') or ''))
            status, err = attempt(lambda: task.report_status(v))
            require((status == 'ok') == ok, 'report-status', 'report_status(%s) %s', s['v'],
                    'raised %r' % (err,) if status == 'err' else 'was accepted')
            sched.point()
        if op.get('mutate'):
            for n in list(obj._props):
                v = obj._get(n)
                if isinstance(v, list):
                    v.append(77)
                elif isinstance(v, self.Child):
                    v.n = 77
                elif isinstance(v, str) and n != 'cid' and obj._props[n].class_info != 'a choice':
                    attempt(lambda: setattr(obj, n, 'a'))
        for sub in op.get('nested', []):
            if sub.get('catch'):
                attempt(lambda: self.call(sub))
            else:
                self.call(sub)
        sched.point()
        self.inj.cross('run')
        do = op['do']
        if do == 'raise':
            raise self.failure(op['exc'], op['i'])
        if do == 'wrong':
            w = op['wrong']
            return {'zero': 0, 'none': None, 'dict': {'success': True, 'log': ''}, 'class': type(task).Output,
                    'stranger': self.Stranger(), 'input': obj, 'str': 'done'}[w]
        if do == 'stash':
            o = self.stash.get(op['from'])
            if o is not None:
                r['expect'] = self.plain(o)
                r['stashed'] = op['from']
                return o
        out = type(task).Output()
        self.stash[op['i']] = out
        for n, v in op['out']:
            if n in out._props:
                setattr(out, n, deep(v))
        for n in op.get('unset', []):
            if n in out._props:
                delattr(out, n)
        if op.get('base_output'):
            out = x.BaseOutput(log=str(op['i']))
        return out

    def failure(self, name, marker):
        x = self.x
        cls = {'TemporaryTaskFailure': x.TemporaryTaskFailure, 'PermanentTaskFailure': x.PermanentTaskFailure,
               'TaskException': x.TaskException}.get(name)
        return cls('failed %s' % marker) if cls else self.inj.make(name, 'run%s' % marker)

    # a call and its judgement -----------------------------------------------------

    def call(self, op):
        me = _thread.get_ident()
        stack = self.local.setdefault(me, [])
        i = op['task']
        r = dict(op=op, runs=0, processed=[], lines=[], fired0=len(self.inj.fired()))
        inst = self.instances[i][op['inst']]
        args = dict((n, v['bad'] if isinstance(v, dict) and 'bad' in v else deep(v)) for n, v in op['args'])
        args['cid'] = op['i']
        keep = deep(args)
        stack.append(r)
        outer = stack[-2] if len(stack) > 1 else None
        try:
            status, res = attempt(lambda: inst(**args))
        finally:
            stack.pop()
        self.judge(op, i, r, status, res, args, keep)
        if outer is not None:
            outer['lines'] += r['lines']
        if not stack:
            text = self.out.take()
            want = ''.join(r['lines'])
            require(text == want, 'status-lines', 'printed %r instead of %r', text, want)
        if status == 'err':
            raise res
        return res

    def judge(self, op, i, r, status, res, args, keep):
        st, p = self.st, self.p
        require(args == keep, 'arguments-changed', 'the call changed its arguments from %s to %s', keep, args)
        given = dict((n, v) for n, v in op['args'])
        want, ok = self.filled(i, 'in', given)
        want['cid'] = op['i']
        fired = self.inj.fired()[r['fired0']:]
        st.log('call', op['i'], status, outcome(res) if status == 'err' else None, r['runs'])
        if status == 'err' or fired or op.get('nested'):
            st.nontrivial = True
        require(r['runs'] <= 1, 'ran-twice', 'one call ran the computation %d times', r['runs'])
        if not ok:
            require(r['runs'] == 0, 'ran-on-invalid', 'the computation ran on invalid arguments %s', given)
            require(status == 'err', 'accepted-invalid', 'a call with invalid arguments %s returned %r', given, res)
            st.probe('invalid arguments')
            return
        if r['runs'] == 0:
            require(fired and status == 'err', 'did-not-run', 'a call with valid arguments %s did not run: %s', given,
                    repr(res))
            st.probe('failed before running')
            return
        require(r['fired_before'] == 0, 'ran-after-failure',
                'the computation ran although making its input raised %s', fired)
        require(r['seen'] == want, 'wrong-input', 'called with %s, the computation saw %s instead of %s', given,
                r['seen'], want)
        require(r['input_class'] is type(self.instances[i][0]).Input, 'wrong-input-class', 'the input was a %s',
                r['input_class'])
        require(r['input_valid'], 'input-not-valid', 'the computation was given an input which does not validate')
        if 'run_error' in r:
            require(status == 'err' and res is r['run_error'], 'exception-changed',
                    'the computation raised %r, the caller got %r', r['run_error'], res)
            require(not r['processed'], 'processed-failure', 'the output of a failed computation was processed')
            st.probe('computation failed')
            return
        out = r['out']
        valid = isinstance(out, self.x.BaseOutput)
        if valid:
            if type(out) is self.x.BaseOutput:
                content, valid = {'success': True, 'log': str(op['i'])}, True
            elif 'stashed' in r:
                # made by an earlier call, perhaps of another task
                content = r['expect']
                cls = [k for k, t in enumerate(self.tasks) if t.Output is type(out)]
                _, valid = self.filled_as(cls[0], content)
            else:
                vals = dict((n, v) for n, v in op['out'])
                content, _ = self.filled(i, 'out', vals)
                content = dict([('success', True), ('log', '')], **content)
                for k in ('success', 'log'):
                    if k in vals:
                        content[k] = vals[k]
                for n in op.get('unset', []):
                    content.pop(n, None)
                _, valid = self.filled_as(i, content)
        if not valid:
            require(status == 'err', 'returned-invalid', 'a computation with invalid output %r returned %r', out, res)
            require(not r['processed'], 'processed-invalid', 'an invalid output was processed')
            st.probe('invalid output')
            return
        if not r['processed']:
            require(status == 'err' and fired, 'refused-valid', 'a valid output %s gave %r', content, res)
            return
        require(len(r['processed']) == 1 and r['processed'][0] is out, 'processed-other',
                'process_output was called with %r, the computation returned %r', r['processed'], out)
        if 'process_error' in r:
            require(status == 'err' and res is r['process_error'], 'exception-changed',
                    'process_output raised %r, the caller got %r', r['process_error'], res)
            return
        require(status == 'ok', 'refused-valid', 'a valid output %s gave %r', content, res)
        if self.custom_process(i):
            require(type(res) is tuple and res[:2] == ('processed', op['i']) and res[2] is out, 'wrong-result',
                    'the call returned %r instead of what process_output returned', res)
        else:
            require(res == content, 'wrong-result', 'the call returned %s, its output is %s', res, content)
        st.probe('returned')

    def filled_as(self, i, content):
        """Is an output of task i with exactly this content valid"""
        props, checks = self.specs(i, 'out')
        ok = all(n in content for n in ('success', 'log'))
        for n, s in props.items():
            if n not in content and s.get('required', True):
                ok = False
        if any(n in props and content.get(n) == bad for n, bad in checks):
            ok = False
        return content, ok


def gen_props(rng, names, n, required=.5):
    out = []
    for _ in range(n):
        t = rng.choice(TYPES)
        s = {'t': t}
        if rng.random() > required:
            s['required'] = False
        if rng.random() < .35:
            s['default'] = good(rng, t)
            if rng.random() < .5:
                s['factory'] = True
        if t == 'list' and rng.random() < .5:
            s['observe'] = True
        if rng.random() < .15:
            s['custom'] = t not in ('list', 'child')
        out.append([next(names), s])
    return out


def gen_tasks(rng):
    names = iter(['a%d' % i for i in range(40)])
    tasks = []
    for i in range(rng.randint(1, 3)):
        t = {}
        if i and rng.random() < .35:
            t['base'] = rng.randrange(i)
        for which in ('in', 'out'):
            if t.get('base') is None or rng.random() < .5:
                t[which] = {'props': gen_props(rng, names, rng.randint(0 if which == 'out' else 1, 3))}
                ps = [x for x in t[which]['props'] if x[1]['t'] in ('int', 'str', 'bool', 'choice', 'list')]
                if ps and rng.random() < .3:
                    n, s = rng.choice(ps)
                    t[which]['check'] = [n, good(rng, s['t'])]
        if rng.random() < .3:
            t['process'] = True
        tasks.append(t)
    return tasks


class Gen(object):
    def __init__(self, rng, tasks):
        self.rng, self.tasks, self.n = rng, tasks, 0

    def specs(self, i, which):
        props = {}
        while i is not None:
            t = self.tasks[i]
            if which in t:
                for n, s in t[which]['props']:
                    props.setdefault(n, s)
            i = t.get('base')
        return sorted(props.items())

    def args(self, i, which, bad):
        rng, out = self.rng, []
        for n, s in self.specs(i, which):
            if rng.random() < (.93 if s.get('required', True) and 'default' not in s else .6):
                v = good(rng, s['t'])
                if rng.random() < bad:
                    v = {'bad': deep(rng.choice(BAD[s['t']]))}
                out.append([n, v])
        return out

    def call(self, depth=0, faults=.15):
        rng = self.rng
        i = rng.randrange(len(self.tasks))
        self.n += 1
        op = {'i': self.n, 'task': i, 'inst': int(rng.random() < .3), 'args': self.args(i, 'in', .06)}
        if rng.random() < .1:
            op['args'].append([rng.choice(['stray', 'run', '__class__']), rng.choice([5, 'T0', 'Input'])])
        op['do'] = wchoice(rng, dict(ok=10, wrong=1.5, stash=1.5, **{'raise': 2.5}))
        if op['do'] == 'raise':
            op['exc'] = rng.choice(['TemporaryTaskFailure', 'PermanentTaskFailure', 'TaskException', 'VE'] +
                                   sorted(EXCS))
        if op['do'] == 'wrong':
            op['wrong'] = rng.choice(['zero', 'none', 'dict', 'class', 'stranger', 'input', 'str'])
        if op['do'] == 'stash':
            op['from'] = rng.randint(max(1, self.n - 4), self.n)
        op['out'] = self.args(i, 'out', 0)
        if rng.random() < .15:
            op['out'].append(['log', 'log %d' % self.n])
        if rng.random() < .1:
            op['unset'] = [rng.choice(['log', 'success'] + [n for n, _ in self.specs(i, 'out')])]
        if rng.random() < .07:
            op['base_output'] = True
        if rng.random() < .25:
            op['mutate'] = True
        if rng.random() < .25:
            op['status'] = [self.status() for _ in range(rng.randint(1, 2))]
        if depth < 2 and rng.random() < .3:
            op['nested'] = [dict(self.call(depth + 1), catch=rng.random() < .6) for _ in range(rng.randint(1, 2))]
        if depth == 0:
            op['faults'] = gen_faults(rng, faults, 9)
        return op

    def status(self):
        rng = self.rng
        r = rng.random()
        if r < .2:
            return {'v': rng.choice([.5, 'half', None, [1]]), 'ok': False}
        if r < .35:
            return {'v': {'progress': rng.choice([1.5, -1, 'x'])}, 'ok': False}
        v = {}
        if rng.random() < .8:
            v['progress'] = rng.choice([0, .25, .5, 1, 1.0, .333])
        if rng.random() < .7:
            v['message'] = rng.choice(['', 'Starting', '100%'])
        return {'v': v, 'ok': True, 'plain': rng.random() < .6}


def with_stdout(w, func):
    w.out = Capture()
    saved = sys.stdout
    sys.stdout = w.out
    try:
        func()
    finally:
        sys.stdout = saved


class Sequential(core.Scenario):
    name = 'calls'
    quick = 9000
    thorough = 250000
    batch = 100

    def gen(self, rng, tier):
        tasks = gen_tasks(rng)
        g = Gen(rng, tasks)
        ops = []
        for _ in range(rng.randint(3, 10) * (3 if tier == 'thorough' and rng.random() < .3 else 1)):
            op = g.call()
            ops.append(op)
            # retries: the same arguments, until the failure goes away
            while op['do'] == 'raise' and op['exc'] == 'TemporaryTaskFailure' and rng.random() < .7:
                op = deep(op)
                g.n += 1
                op['i'] = g.n
                if rng.random() < .6:
                    op['do'] = 'ok'
                ops.append(op)
        return {'tasks': tasks, 'ops': ops}

    def run(self, plan, st):
        w = World(plan, st)

        def go():
            for op in plan['ops']:
                w.inj.arm(op['i'], op.get('faults'))
                attempt(lambda: w.call(op))
                w.inj.disarm()
        with_stdout(w, go)


class Threads(core.Scenario):
    name = 'threads'
    quick = 6000
    thorough = 100000
    batch = 50

    def gen(self, rng, tier):
        tasks = gen_tasks(rng)
        g = Gen(rng, tasks)
        n = rng.choice([2, 2, 2, 3])
        ops = [[g.call(faults=.1) for _ in range(rng.randint(1, 3))] for _ in range(n)]
        for t in ops:
            for op in t:
                self.own(op)
        # mostly one task object, switched inside the task code itself
        if rng.random() < .7:
            for t in ops:
                for op in t:
                    self.same(op)
        narrow = rng.random() < .7
        gran = 'line' if rng.random() < .7 else 'op'
        hi = rng.choice([15, 40, 80] if narrow else [60, 300, 900]) * (1 if gran == 'line' else 3)
        return {'tasks': tasks, 'threads_ops': ops, 'preempt': preemptions(rng, n, hi), 'gran': gran,
                'narrow': narrow}

    def same(self, op):
        op['inst'] = 0
        for sub in op.get('nested', []):
            self.same(sub)

    def own(self, op):
        """An output object is only returned by the thread that made it"""
        if op['do'] == 'stash':
            op['do'] = 'ok'
        for sub in op.get('nested', []):
            self.own(sub)

    def run(self, plan, st):
        w = World(plan, st)

        def body(ops):
            def go():
                for op in ops:
                    w.inj.arm(op['i'], op.get('faults'))
                    status, err = attempt(lambda: w.call(op))
                    w.inj.disarm()
            return go
        root = os.path.join(os.path.realpath(seams.REPO), 'properties')
        if plan.get('narrow'):
            root = os.path.join(root, 'extras')
        s = Scheduler(root, plan['preempt'], plan['gran'])

        def run():
            try:
                s.run([body(ops) for ops in plan['threads_ops']])
            except Deadlock:
                raise Violation('deadlock', 'the threads are stuck')
        with_stdout(w, run)
        st.switches += len(s.switches)
        st.log('switches', s.switches)
        if s.switches:
            st.nontrivial = True


CHECK = core.Check(
    'C15', [Sequential(), Threads()],
    real=['properties.extras.task and the input, output and status objects it makes'],
    stub=['run and process_output: scripted computations that fail, nest, mutate their input and return anything',
          'default factories, deserializers, class validators: scripted, with injected exceptions',
          'thread scheduling: seeded, at source lines or opcodes of the library; stdout: captured per thread'],
    rule='a run counts when a call failed, nested, met an injected exception, or threads were switched at a scheduling '
         'point; histories are distinct by sha1 of the event log')
