"""Singletons: constructions, loads, failures, re-entrancy, restarts, threads."""
import json

from .. import core, seams
from ..core import Check, Violation
from ..sched import Deadlock, Scheduler
from ..sim import Injector, attempt, deep, gen_faults, outcome, preemptions, require, wchoice

import os

NAMES = ['n1', 'n2', 'n3']
LISTS = [[], [1], [2, 3]]


class World(object):
    def __init__(self, plan, st):
        self.plan = plan
        self.st = st
        self.p = seams.load()
        self.inj = Injector(st)
        self.keep = []          # every object ever seen (ids stay unique)
        self.docs = []
        self.generation = 0
        self.fuel = 0
        self.seen = []
        self.raised = []        # by callbacks of the current operation
        self.loading = None
        self.boot()

    def boot(self):
        """A fresh process: new classes, empty registries"""
        p, world, plan = self.p, self, self.plan
        self.generation += 1
        self.live = {}          # (registry, name) -> object
        self.values = {}        # id(object) -> expected values
        self.dead = []
        opts = plan['opts']

        def factory():
            world.inj.cross('a default factory')
            return 'dflt'

        def make(bases, own, extra, doc):
            ns = dict(extra)
            if own:
                ns['_SINGLETONS'] = {}
                ns['_REGISTRY'] = {}
            return doc, bases, ns

        def listeners(ns, tag):
            def val(self, change):
                world.callback(self, 'val')

            def obs(self, change):
                world.callback(self, 'obs')
            ns['_val' + tag] = p.validator('a')(val)
            ns['_obs' + tag] = p.observer('a')(obs)

        base = p.extras.Singleton
        ns0 = dict(_SINGLETONS={}, _REGISTRY={},
                   a=p.Integer('a', min=0, max=9, required=opts['required'],
                               **({} if opts['required'] else {'default': 1})),
                   b=p.String('b', default=factory),
                   c=p.List('c', p.Integer('i'), default=list))
        if opts['named']:
            ns0['name'] = p.String('name')
        listeners(ns0, '0')
        if opts['late_init']:
            def init(self, name, **kwargs):
                base.__init__(self, name, **kwargs)
                world.callback(self, 'init')
            ns0['__init__'] = init
        s0 = type(base)('S0', (base,), ns0)
        s1 = type(base)('S1', (s0,), dict(d=p.Integer('d', default=4)))
        s2 = type(base)('S2', (s0,), dict(_SINGLETONS={}, _REGISTRY={}))
        self.classes = [s0, s1, s2]

    def reg(self, c):
        return 1 if c == 2 else 0

    def callback(self, obj, kind):
        if self.p is None:
            return
        self.keep.append(obj)
        self.seen.append(obj)
        self.st.log('cb', kind)
        self.inj.cross('a ' + {'val': 'validator', 'obs': 'observer', 'init': '__init__'}[kind])
        for act in self.plan['acts']:
            if act['on'] != kind or self.fuel <= 0:
                continue
            if (self.reg(act['cls']), act['name']) == self.loading:
                continue        # see DESIGN.md: constructing a name while that name is being loaded
            self.fuel -= 1
            self.st.probe('re-entrant constructions')
            status, out = attempt(lambda: self.get(act))
            if status == 'err' and not act['catch']:
                self.raised.append(out)
                raise out

    # values expected for a new object
    def expected(self, c, name, kwargs):
        v = dict(a=None if self.plan['opts']['required'] else 1, b='dflt', c=[], name=name)
        if c == 1:
            v['d'] = 4
        v.update(kwargs)
        return v

    def read(self, obj):
        c = self.classes.index(type(obj))
        v = dict((k, getattr(obj, k)) for k in ('a', 'b', 'c', 'name') + (('d',) if c == 1 else ()))
        v['c'] = None if v['c'] is None else list(v['c'])
        return v

    def get(self, op):
        """Construct; used by operations and, re-entrantly, by callbacks"""
        c, name = op['cls'], op['name']
        key = (self.reg(c), name)
        kwargs = dict((k, v) for k, v in op['kwargs'])
        mark = len(self.seen)
        status, out = attempt(lambda: self.classes[c](name, **deep(kwargs)))
        if status == 'err':
            for o in self.seen[mark:]:
                if all(o is not x for x in self.live.values()):
                    self.dead.append(o)
            raise out
        self.arrived(key, out, self.expected(c, name, kwargs))
        return out

    def arrived(self, key, obj, expected):
        self.keep.append(obj)
        require(all(obj is not d for d in self.dead), 'failed-registered',
                'a construction of %r that failed left its object behind: it was returned later', key[1])
        if key in self.live:
            require(obj is self.live[key], 'two-objects', 'name %r gave a second object', key[1])
        else:
            require(all(obj is not x for x in self.live.values()), 'wrong-object',
                    'name %r gave the object of another name', key[1])
            self.live[key] = obj
            self.values[id(obj)] = expected
        self.compare(obj)

    def compare(self, obj):
        got, want = self.read(obj), self.values[id(obj)]
        require(got == want, 'values', 'values are %r instead of %r', got, want)

    # -- operations -----------------------------------------------------------
    def do(self, op):
        kind = op['a']
        self.inj.arm(op['i'], op.get('faults'))
        self.fuel = 3 if kind != 'set' else 0
        self.seen = []
        self.raised = []
        if kind == 'get':
            key = (self.reg(op['cls']), op['name'])
            was = key in self.live
            valid = all(k in ('a', 'b', 'c', 'name') or (k == 'd' and op['cls'] == 1) for k, _ in op['kwargs']) and \
                all(ok(k, v) for k, v in op['kwargs'])
            status, out = attempt(lambda: self.get(op))
            if was:
                require(status == 'ok', 'lookup-failed', 'an existing name raised %s', status)
            elif status == 'ok':
                require(valid, 'invalid-accepted', 'invalid arguments %r were accepted', op['kwargs'])
            elif valid and not self.inj.fired() and not self.raised:
                raise Violation('construction-failed', 'valid construction of %r raised %s' % (op['name'], outcome(out)))
            self.st.log('get', op['cls'], op['name'], status, outcome(out) if status == 'err' else None)
            if status == 'err':
                self.st.nontrivial = True
                self.retry(op['cls'], op['name'])
            return
        if kind == 'load':
            self.load(op)
            return
        if kind == 'save':
            objs = list(self.live.values())
            if not objs:
                return
            obj = objs[op['o'] % len(objs)]
            key = [k for k, o in self.live.items() if o is obj][0]
            doc = obj.serialize(include_class=op['cl'])
            want = dict((k, v) for k, v in self.values[id(obj)].items() if v is not None)
            if not self.plan['opts']['named']:
                want.pop('name')
            if op['cl']:
                want['__class__'] = type(obj).__name__
            want['_singleton_id'] = key[1]
            require(doc == want, 'document', 'document is %r instead of %r', doc, want)
            disk = json.dumps(doc)
            self.docs.append((disk, self.classes.index(type(obj)), key[1], dict(self.values[id(obj)])))
            self.st.log('save', doc)
            return
        if kind == 'set':
            objs = list(self.live.values())
            if not objs:
                return
            obj = objs[op['o'] % len(objs)]
            status, out = attempt(lambda: setattr(obj, op['k'], deep(op['v'])))
            self.st.log('set', op['k'], op['v'], status)
            now = self.read(obj)
            want = dict(self.values[id(obj)])
            if status == 'ok' or now[op['k']] == op['v']:
                want[op['k']] = op['v']
            require(now == want, 'values', 'values are %r instead of %r', now, want)
            self.values[id(obj)] = want
            return
        if kind == 'restart':
            self.boot()
            self.st.fault('crash and restart')
            self.st.log('restart')
            return
        raise ValueError(kind)

    def retry(self, c, name):
        """After a failure the name is free (unless it was in use) and listeners are quiet"""
        self.inj.disarm()
        self.fuel = 0
        status, out = attempt(lambda: self.get(dict(cls=c, name=name, kwargs=[])))
        require(status == 'ok', 'retry-failed', 'constructing %r after a failure raised %s', name,
                outcome(out) if status == 'err' else None)
        self.st.log('retry', name)

    def load(self, op):
        if op.get('doc') is not None:
            if not self.docs:
                return
            disk, c, sid, values = self.docs[op['doc'] % len(self.docs)]
            doc = json.loads(disk)
            values = dict(values)
            cls = op['cls'] if op['cls'] is not None else c
        else:
            cls, sid = op['cls'], op['name']
            doc = {'_singleton_id': sid}
            doc.update(dict((k, deep(v)) for k, v in op['kwargs']))
            if op.get('as') is not None:
                doc['__class__'] = 'S%d' % op['as']
            c = None
            values = None
        must_fail = False
        for d in op.get('damage', ()):
            if d == 'badvalue':
                doc['a'] = 'nonsense'
                must_fail = True
            elif d == 'noid':
                doc.pop('_singleton_id', None)
                if doc.get('name') is None:
                    must_fail = True
                sid = doc.get('name')
            elif d == 'unknown':
                doc['zzz'] = 1
                must_fail = must_fail or op['strict']
        named = self.plan['opts']['named']
        out_c = cls
        if doc.get('__class__') and doc['__class__'] != 'S%d' % cls:
            other = {'S0': 0, 'S1': 1, 'S2': 2}[doc['__class__']]
            if op['trusted'] and self.reg(other) == self.reg(cls):
                out_c = other
            elif op['strict']:
                must_fail = True
        props = {'a', 'b', 'c'} | ({'name'} if named else set()) | ({'d'} if out_c == 1 else set())
        if op['strict'] and set(doc) - props - {'__class__', '_singleton_id'}:
            must_fail = True
        if op['assert_valid'] and self.plan['opts']['required'] and doc.get('a') is None:
            must_fail = True
        want = self.expected(out_c, sid, dict((k, doc[k]) for k in props if doc.get(k) is not None))
        if 'name' not in props:
            want['name'] = doc.get('name') or sid
        if named and not doc.get('name'):
            want['name'] = sid
        key = (self.reg(cls), sid)
        was = sid is not None and key in self.live
        before = deep(doc)
        mark = len(self.seen)
        kw = dict(trusted=op['trusted'], strict=op['strict'], assert_valid=op['assert_valid'])
        self.loading = key
        status, out = attempt(lambda: self.classes[cls].deserialize(doc, **kw))
        self.loading = None
        require(doc == before, 'document-changed', 'loading changed the document from %r to %r', before, doc)
        self.st.log('load', before, kw, status, outcome(out) if status == 'err' else None)
        if status == 'ok':
            if not was:
                require(not must_fail, 'damaged-loaded', 'document %r was accepted with %r', before, kw)
                require(type(out) is self.classes[out_c], 'class', 'loaded a %s instead of S%d', type(out).__name__, out_c)
            self.arrived(key, out, want)
            return
        self.st.nontrivial = True
        for o in self.seen[mark:]:
            if all(o is not x for x in self.live.values()):
                self.dead.append(o)
        require(not was, 'load-of-existing', 'loading the document of an existing name raised %s', outcome(out))
        if not must_fail and not self.inj.fired() and not self.raised:
            raise Violation('load-failed', 'document %r with %r raised %s' % (before, kw, outcome(out)))
        if sid is not None and op.get('retry', True):
            self.retry(cls, sid)


def ok(k, v):
    if k in ('a',):
        return isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 9
    if k == 'd':
        return isinstance(v, int)
    if k == 'b':
        return isinstance(v, str)
    if k == 'c':
        return isinstance(v, list) and all(isinstance(x, int) for x in v)
    return False


def gen_kwargs(rng, c, bad):
    kw = []
    if rng.random() < .6:
        kw.append(['a', rng.randint(0, 9) if rng.random() >= bad else rng.choice([10, -1, 'x', [1]])])
    if rng.random() < .3:
        kw.append(['b', rng.choice(['p', 'q']) if rng.random() >= bad else 5])
    if rng.random() < .3:
        kw.append(['c', rng.choice(LISTS) if rng.random() >= bad else ['z']])
    if c == 1 and rng.random() < .4:
        kw.append(['d', rng.randint(0, 3)])
    if rng.random() < bad * .5:
        kw.append(['nosuch', 1])
    return kw


def gen_acts(rng):
    acts = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        c = rng.randint(0, 2)
        acts.append(dict(on=rng.choice(['val', 'obs', 'init']), cls=c, name=rng.choice(NAMES),
                         kwargs=gen_kwargs(rng, c, .1), catch=rng.random() < .5))
    return acts


class Sequential(core.Scenario):
    name = 'histories'
    quick = 20000
    thorough = 500000
    batch = 100

    def gen(self, rng, tier):
        names = NAMES[:rng.randint(1, 3)]
        opts = dict(named=rng.random() < .5, required=rng.random() < .3, late_init=rng.random() < .4)
        if not opts['named'] and rng.random() < .3:
            names = names + [5]
        ops = []
        for i in range(rng.randint(4, 16 if tier == 'quick' else 40)):
            kind = wchoice(rng, dict(get=9, load=6, save=4, set=4, restart=1.5))
            op = dict(a=kind, i=i)
            if kind == 'get':
                op['cls'] = rng.randint(0, 2)
                op['name'] = rng.choice(names)
                op['kwargs'] = gen_kwargs(rng, op['cls'], .15)
                op['faults'] = gen_faults(rng, .4)
            elif kind == 'load':
                op['cls'] = rng.choice([0, 1, 2])
                op['trusted'] = rng.random() < .5
                op['strict'] = rng.random() < .3
                op['assert_valid'] = rng.random() < .3
                if rng.random() < .5:
                    op['doc'] = rng.randint(0, 7)
                    if rng.random() < .7:
                        op['cls'] = None
                else:
                    op['name'] = rng.choice(names)
                    op['kwargs'] = [kv for kv in gen_kwargs(rng, 1, 0) if kv[0] != 'nosuch']
                    if rng.random() < .5:
                        op['as'] = rng.randint(0, 2)
                op['damage'] = [d for d in ('badvalue', 'noid', 'unknown') if rng.random() < .12]
                op['faults'] = gen_faults(rng, .3)
            elif kind == 'save':
                op['o'] = rng.randint(0, 9)
                op['cl'] = rng.random() < .7
            elif kind == 'set':
                op['o'] = rng.randint(0, 9)
                op['k'] = rng.choice(['a', 'b', 'c', 'name'])
                op['v'] = {'a': rng.randint(0, 9), 'b': rng.choice(['r', 's']), 'c': rng.choice(LISTS),
                           'name': rng.choice(['other', 'n1', 'n2'])}[op['k']]
            ops.append(op)
        return dict(opts=opts, acts=gen_acts(rng), ops=ops)

    def run(self, plan, st):
        w = World(plan, st)
        for op in plan['ops']:
            w.do(op)
            w.inj.disarm()
            for key, obj in sorted(w.live.items(), key=repr):
                if op['a'] != 'restart':
                    w.compare(obj)
        # every name still denotes its object
        w.fuel = 0
        for key, obj in sorted(w.live.items(), key=repr):
            c = 2 if key[0] else 0
            require(w.classes[c](key[1]) is obj, 'two-objects', 'name %r gave a second object at the end', key[1])
            require(w.classes[c].deserialize({'_singleton_id': key[1]}) is obj, 'two-objects',
                    'loading name %r gave a second object at the end', key[1])


class Threads(core.Scenario):
    name = 'threads'
    quick = 8000
    thorough = 200000
    batch = 50

    def gen(self, rng, tier):
        nthreads = rng.choice([2, 2, 3])
        names = NAMES[:rng.choice([1, 1, 2])]
        opts = dict(named=True, required=rng.random() < .3, late_init=rng.random() < .3)
        threads = []
        k = 0
        for t in range(nthreads):
            ops = []
            for _ in range(rng.randint(1, 3)):
                op = dict(i=k, cls=rng.choice([0, 0, 1]), name=rng.choice(names), a='get')
                k += 1
                op['kwargs'] = gen_kwargs(rng, op['cls'], .05)
                op['faults'] = gen_faults(rng, .2)
                if rng.random() < .25:
                    op['a'] = 'load'
                    op['kwargs'] = gen_kwargs(rng, op['cls'], 0)
                    op['faults'] = []
                ops.append(op)
            threads.append(ops)
        gran = 'op' if rng.random() < .2 else 'line'
        hi = rng.choice([40, 150, 400, 1000]) * (3 if gran == 'op' else 1)
        acts = [a for a in gen_acts(rng) if a['cls'] != 2 and rng.random() < .4]
        if any(op['a'] == 'load' for ops in threads for op in ops):
            # (no load fails while other threads use the name)
            acts = [dict(a, catch=True) for a in acts]
        return dict(opts=opts, acts=acts,
                    threads_ops=threads, preempt=preemptions(rng, nthreads, hi), gran=gran)

    def run(self, plan, st):
        w = World(plan, st)
        results = []
        known = {}
        requests = {}
        values = {}
        local = {}

        def note(op, obj):
            v = w.expected(op['cls'], op['name'], dict((k, x) for k, x in op['kwargs']))
            requests.setdefault(op['name'], []).append((op['cls'], v))

        def call(op):
            note(op, None)
            if op['a'] == 'load':
                doc = dict((k, deep(x)) for k, x in op['kwargs'])
                doc['_singleton_id'] = op['name']
                obj = w.classes[op['cls']].deserialize(doc)
            else:
                obj = w.classes[op['cls']](op['name'], **deep(dict((k, x) for k, x in op['kwargs'])))
            results.append((op['name'], obj, type(obj).__name__, w.read(obj)))
            return obj

        import _thread

        def cb(obj, kind):
            w.keep.append(obj)
            me = local.get(_thread.get_ident())
            if me is None:
                return
            me['seen'].append(obj)
            w.inj.cross('a ' + {'val': 'validator', 'obs': 'observer', 'init': '__init__'}[kind])
            for act in plan['acts']:
                if act['on'] != kind or me['fuel'] <= 0:
                    continue
                me['fuel'] -= 1
                st.probe('re-entrant constructions')
                if act['catch']:
                    attempt(lambda: call(dict(act, a='get')))
                else:
                    call(dict(act, a='get'))
        w.callback = cb
        dead = []

        def body(tid, ops):
            def go():
                me = local[_thread.get_ident()] = dict(fuel=3, seen=[])
                for op in ops:
                    w.inj.arm(op['i'], op.get('faults'))
                    me['seen'] = []
                    status, out = attempt(lambda: call(op))
                    if status == 'err':
                        st.nontrivial = True
                        dead.extend(me['seen'])
                    st.log('t%d' % tid, op['name'], status, outcome(out) if status == 'err' else None)
                    w.inj.disarm()
            return go
        s = Scheduler(os.path.join(os.path.realpath(seams.REPO), 'properties'), plan['preempt'], plan['gran'])
        try:
            s.run([body(t, ops) for t, ops in enumerate(plan['threads_ops'])])
        except Deadlock:
            raise Violation('deadlock', 'the threads are stuck')
        st.switches += len(s.switches)
        st.log('switches', s.switches)
        if s.switches:
            st.nontrivial = True
        local.clear()
        for name, obj, cname, vals in results:
            first = known.setdefault(name, obj)
            require(obj is first, 'two-objects', 'two objects were returned for name %r', name)
            wanted = [v for c, v in requests[name] if 'S%d' % c == cname]
            require(vals in wanted, 'not-initialized', 'name %r was returned with values %r', name, vals)
        for name in sorted(known):
            require(w.classes[0](name) is known[name], 'two-objects', 'a later lookup of %r gave another object', name)
        for obj in dead:
            if all(obj is not o for o in known.values()):
                for name in NAMES:
                    require(w.classes[0](name) is not obj, 'failed-registered', 'a failed construction of %r is registered', name)


CHECK = Check('C11', [Sequential(), Threads()],
              ['properties.extras.singleton', 'properties.base', 'properties.handlers', 'properties.basic'],
              ['user listeners, __init__ and default factories (scripted)', 'thread scheduling (seeded, line or opcode level)',
               'process restart (fresh classes and registries; only JSON documents survive)'],
              'a run counts when a construction or load failed (injected exception or invalid input) or threads were '
              'switched at a scheduling point; histories are distinct by sha1 of the event log')
